"""Minimisation of a violating spec: fewer trials, faults, history steps, switches, files and lines."""
import copy
import json
import re
import time

LISTS = ("faults", "edits", "history", "attempts", "switches")
DROP = ("knobs", "garbage", "victim", "damage", "rerun", "existing", "stale", "exclude", "power", "touch", "other_version", "history_fault", "bad_stderr", "clock", "environ", "format", "pandas", "encoding", "mtime", "repeat")


def cls(msgs):
    """Violation class: the words of the first message without numbers, names and data."""
    return re.sub(r"[^a-z ]+", " ", re.sub(r"\(.*?\)|'.*?'|\S*[/._\d]\S*", "", msgs[0]))[:60].split()[-6:] if msgs else None


def shrink(run, spec, run_spec, msgs, limit=45):
    end = time.monotonic() + limit
    best, best_msgs = copy.deepcopy(spec), msgs

    def attempt(cand):
        nonlocal best, best_msgs
        if time.monotonic() > end:
            return False
        try:
            m = run(copy.deepcopy(cand))
        except Exception:
            return False
        if m:
            best, best_msgs = cand, m
            return True
        return False

    # 1. one trial
    if isinstance(best.get("trials"), list) and len(best["trials"]) > 1:
        order = []
        m = re.search(r"trial (\d+)", msgs[0])
        if m and int(m.group(1)) < len(best["trials"]):
            order.append(int(m.group(1)))
        order += [i for i in range(len(best["trials"])) if i not in order]
        for i in order:
            c = copy.deepcopy(best)
            t = best["trials"][i]
            c["trials"] = [t] if i == 0 or "faults" not in t or not needs_first(best) else [best["trials"][0], t]
            if attempt(c):
                break
    # 2. explicit schedule instead of a seeded one
    for i, t in enumerate(best.get("trials") or []):
        src = None
        for rt in run_spec.get("trials") or []:
            if rt.get("sched") == t.get("sched") and rt.get("explicit"):
                src = rt["explicit"]
        if t.get("sched") and src:
            c = copy.deepcopy(best)
            c["trials"][i]["sched"] = src
            attempt(c)
    changed = True
    while changed and time.monotonic() < end:
        before = json.dumps(best, sort_keys=True)
        files(best, attempt, lambda: best)
        walk_lists(attempt, lambda: best)
        walk_drop(attempt, lambda: best)
        changed = json.dumps(best, sort_keys=True) != before
    lines(attempt, lambda: best, end)
    return best, best_msgs


def needs_first(spec):
    """Scenarios that record the trace for the faults in their first trial."""
    t = spec["trials"][0]
    return t.get("faults") == [] and set(t) <= {"faults"}


def projects(spec):
    if "project" in spec:
        yield ("project",)
    for key in ("projects", "versions"):
        for i in range(len(spec.get(key) or ())):
            yield (key, i)


def at(spec, path):
    for k in path:
        spec = spec[k]
    return spec


def put(spec, path, v):
    c = copy.deepcopy(spec)
    o = c
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = v
    return c


def files(spec, attempt, cur):
    for path in list(projects(spec)):
        for rel in sorted(at(cur(), path)):
            p = at(cur(), path)
            if rel in p and len(p) > 1:
                attempt(put(cur(), path, {k: v for k, v in p.items() if k != rel}))


def find(o, path=()):
    if isinstance(o, dict):
        for k in sorted(o):
            if k in ("project", "projects", "versions"):
                continue
            yield path + (k,), o[k]
            yield from find(o[k], path + (k,))
    elif isinstance(o, list):
        for i, x in enumerate(o):
            yield from find(x, path + (i,))


def walk_lists(attempt, cur):
    for path, v in list(find(cur())):
        if path[-1] in LISTS and isinstance(v, list) and v:
            size = max(1, len(v) // 2)
            while size:
                i = 0
                while True:
                    try:
                        v = at(cur(), path)
                    except (KeyError, IndexError, TypeError):
                        return
                    if not isinstance(v, list) or i >= len(v):
                        break
                    if not attempt(put(cur(), path, v[:i] + v[i + size:])):
                        i += size
                size //= 2


def walk_drop(attempt, cur):
    for path, v in list(find(cur())):
        if path[-1] in DROP and v not in (None, [], {}, False):
            for empty in ({} if isinstance(v, dict) else None,):
                try:
                    at(cur(), path)
                except (KeyError, IndexError, TypeError):
                    break
                attempt(put(cur(), path, empty))


def lines(attempt, cur, end):
    for path in list(projects(cur())):
        for rel in sorted(at(cur(), path)):
            e = at(cur(), path).get(rel)
            if not e or "t" not in e or time.monotonic() > end:
                continue
            size = max(1, e["t"].count("\n") // 2)
            while size:
                i = 0
                while time.monotonic() < end:
                    ls = at(cur(), path)[rel]["t"].split("\n")
                    if i >= len(ls):
                        break
                    if not attempt(put(cur(), path + (rel,), {"t": "\n".join(ls[:i] + ls[i + size:])})):
                        i += size
                size //= 2
