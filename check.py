#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs N] [--first I]
check.py --replay FILE

Tier and seed default to VERIF_TIER and VERIF_SEED. Exit 0: held in every simulated run. Exit 1: violated, with a
VIOLATION line. Exit 2: the check itself failed."""
import argparse
import copy
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
if os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.executable) != os.path.realpath(PYTHON):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(PYTHON, [PYTHON, "-B", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sim import gen, props, shrink, world  # noqa: E402
from sim.meta import META  # noqa: E402

RUNS = json.load(open(os.path.join(HERE, "sim", "runs.json")))
CAP = {"quick": 420, "thorough": 7200}  # wall-clock cap of the search, far above what the runs need


def make_spec(prop, seed, index, tier):
    rng = random.Random("%s:%s:%s" % (prop, seed, index))
    spec = props.ALL[prop]().gen(rng, tier)
    return json.loads(json.dumps(spec))


def evaluate(prop, w, spec, st=None):
    """Messages of one simulated run."""
    st = st or props.Stats()
    s = copy.deepcopy(spec)
    try:
        msgs = props.ALL[prop]().run(w, s, st)
    except world.Hang as e:
        msgs = [str(e)]
    return msgs, st, s


def worker(prop, seed, tier, first, total, counter, stop, slot, q, deadline):
    w = None
    try:
        gen.corpus()
        w = world.World(slot)
        st = props.Stats()
        found, done, twice, differ = [], [], 0, []
        while not stop.value and time.monotonic() < deadline:
            with counter.get_lock():
                i = counter.value
                if i >= total:
                    break
                counter.value += 1
            i += first
            spec = make_spec(prop, seed, i, tier)
            one = props.Stats()
            one.samples = st.samples if len(st.samples) >= 3 else []
            msgs, one, run_spec = evaluate(prop, w, spec, one)
            if i % 40 == 7 and not msgs:  # determinism of the simulation itself
                again = evaluate(prop, w, spec)
                twice += 1
                if (again[0], again[1].sigs, again[1].notes) != (msgs, one.sigs, one.notes):
                    differ.append(i)
            st.merge(one)
            done.append(i)
            if msgs:
                # a violation must be reproducible
                reproduced = False
                for _ in range(3):
                    again = evaluate(prop, w, spec)
                    if again[0]:
                        reproduced = True
                        break
                if reproduced:
                    found.append((i, spec, run_spec, msgs))
                    stop.value = 1
                else:
                    differ.append(i)
        q.put({"slot": slot, "stats": st, "found": found, "done": done, "twice": twice, "differ": differ, "processes": w.processes, "ops": w.ops, "fired": w.fired, "legal": w.legal,
               "sim_seconds": w.sim_seconds, "traces": w.traces})
    except BaseException:
        stop.value = 1
        q.put({"slot": slot, "error": traceback.format_exc()})
    finally:
        if w is not None:
            w.close()


def known_findings(prop):
    """Lines "known: property=<id> ..." of KNOWN_FINDINGS.txt. There is none at present: all defects found were repaired."""
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    with open(p, encoding="utf-8") as f:
        return [x[7:].strip() for x in f if x.startswith("known: property=%s " % prop)]


def search(prop, seed, tier, total, jobs, first):
    ctx = multiprocessing.get_context("fork")
    counter, stop, q = ctx.Value("i", 0), ctx.Value("i", 0), ctx.Queue()
    deadline = time.monotonic() + CAP[tier]
    ps = [ctx.Process(target=worker, args=(prop, seed, tier, first, total, counter, stop, k, q, deadline)) for k in range(jobs)]
    for p in ps:
        p.start()
    res = []
    while len(res) < len(ps):
        try:
            res.append(q.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                raise RuntimeError("a worker died")
    for p in ps:
        p.join()
    for r in res:
        if "error" in r:
            raise RuntimeError(r["error"])
    return sorted(res, key=lambda r: r["slot"])


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--runs", type=int)
    a.add_argument("--jobs", type=int, default=int(os.environ.get("SIM_JOBS") or min(8, os.cpu_count() or 1)))
    a.add_argument("--first", type=int, default=0)
    a.add_argument("--replay")
    a.add_argument("--no-shrink", action="store_true")
    a.add_argument("--selftest", action="store_true")
    a = a.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay)
    prop = a.property
    if prop not in props.ALL:
        print("unknown property %s" % prop)
        return 2
    t0 = time.monotonic()
    print("property %s, tier %s, seed %d" % (prop, a.tier, a.seed), flush=True)
    total = a.runs or RUNS[prop][a.tier]
    res = search(prop, a.seed, a.tier, total, a.jobs, a.first)
    t_search = time.monotonic() - t0
    st = props.Stats()
    for r in res:
        st.merge(r["stats"])
    done = sorted(i for r in res for i in r["done"])
    found = sorted((f for r in res for f in r["found"]), key=lambda f: f[0])
    path = None
    if found:
        path = report(prop, a, found)
    evidence(prop, a, total, res, st, done, found, t_search, time.monotonic() - t0, path)
    if found:
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if not done:
        print("no simulated run was made")
        return 2
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    print("held in %d simulated runs (%d evaluations) in %.1f s" % (len(done), st.evaluations, t_search))
    return 0


def report(prop, a, found):
    i, spec, run_spec, msgs = found[0]
    print("run %d of seed %d violates %s:" % (i, a.seed, prop))
    for m in msgs[:5]:
        print("  " + m)
    mini, mmsgs = spec, msgs
    w = world.World(90)
    try:
        if not a.no_shrink:
            mini, mmsgs = shrink.shrink(lambda s: evaluate(prop, w, s)[0], spec, run_spec, msgs, limit=45)
    except Exception:
        print(traceback.format_exc())
    finally:
        w.close()
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (prop, a.seed, i))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": a.seed, "run": i, "tier": a.tier, "messages": mmsgs, "spec": mini, "found_as": msgs[:5]}, f, indent=1, sort_keys=True)
    print("minimised:")
    for m in mmsgs[:5]:
        print("  " + m)
    return path


def selftest():
    """The simulator starts, and a fault is seen."""
    w = world.World(92)
    try:
        w.wipe()
        w.put("in", {"a.py": {"t": "import torch\nx = torch.abs(y)\n"}})
        step = {"in": "@/in", "out": "@/out", "opts": {"no_format": True}}
        ok = w.process([step], env={"cwd": "@"})["steps"][0]
        bad = w.process([dict(step, faults=[{"on": ["write"], "path": "out", "nth": 0, "kind": "ENOSPC"}])], env={"cwd": "@"})["steps"][0]
    finally:
        w.close()
    print("fault-free: %s %s; full disk: %s" % (ok["ret"], ok["exc"], bad["exc"]))
    return 0 if ok["exc"] is None and bad["fired"] else 2


def replay(path):
    with open(path) as f:
        r = json.load(f)
    w = world.World(91)
    try:
        msgs = evaluate(r["property"], w, r["spec"])[0]
    finally:
        w.close()
    for m in msgs:
        print("  " + m)
    if msgs:
        print("identical to the recorded violation" if msgs == r["messages"] else "differs from the recorded violation:\n  " + "\n  ".join(r["messages"]))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("the recorded violation does not occur")
    return 0


def merged(res, key):
    out = {}
    for r in res:
        for k, v in r[key].items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def evidence(prop, a, total, res, st, done, found, t_search, wall, path):
    m = META[prop]
    n = len(done)
    sites = {k[5:]: v for k, v in st.notes.items() if k.startswith("site:")}
    notes = {k: v for k, v in sorted(st.notes.items()) if not k.startswith("site:")}
    if len(notes) > 80:
        notes = dict(sorted(notes.items(), key=lambda x: -x[1])[:80])
    traces = set()
    for r in res:
        traces |= r["traces"]
    cov = {
        "evaluations": st.evaluations,
        "distinct_nontrivial": len(st.sigs),
        "rule": m["rule"],
        "samples": st.samples[:3],
        "simulated_runs": n,
        "simulated_runs_planned": total,
        "seeds": {"base": a.seed, "first": done[0] if done else None, "last": done[-1] if done else None},
        "seeds_per_hour": round(n / t_search * 3600) if t_search else 0,
        "simulated_processes": sum(r["processes"] for r in res),
        "simulated_processes_per_hour": round(sum(r["processes"] for r in res) / t_search * 3600) if t_search else 0,
        "simulated_io_operations": sum(r["ops"] for r in res),
        "simulated_seconds": round(sum(r["sim_seconds"] for r in res), 3),
        "faults_fired": merged(res, "fired"),
        "legal_but_unusual_io": merged(res, "legal"),
        "distinct_io_traces": len(traces),
        "what_was_hit": notes,
        "determinism": {"runs_repeated": sum(r["twice"] for r in res), "runs_that_differed": sorted(i for r in res for i in r["differ"])},
        "real_components": m.get("real", "all of paconvert (CLI entry point, converter, transformers, matchers, utils), black, isort, astor, logging, shutil, the Python interpreter and tmpfs"),
        "stubbed_components": m.get("stub", "pandas/openpyxl (spreadsheet export), clocks, locale encoding, directory listing order, short reads/writes, standard streams"),
    }
    if sites:
        cov["distinct_switch_sites"] = len(sites)
    doc = {"property": prop, "tier": a.tier, "seed": a.seed, "level": m["level"], "coverage": cov, "assumptions": m["assumptions"], "wall_s": round(wall, 2), "violations": len(found)}
    if path:
        doc["replay"] = path
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True, default=str)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
