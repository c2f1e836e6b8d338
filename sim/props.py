"""The scenarios that decide the properties.

A scenario has gen(rng, tier) -> spec, a self-contained JSON document, and run(w, spec, st) -> list of violation messages,
a function of the spec and of the code under test alone. spec["trials"] (where present) are independent simulated
executions over the same project; spec["project"] (or "projects") is what the shrinker cuts down.
"""
import ast
import builtins
import base64
import hashlib
import json
import os
import re
import shutil

from . import gen
from .gen import DAMAGE as _DAMAGE
from .world import HarnessError, content, diff_hint, files, norm_temps, same_text, short, strip_marks

B = os.fsencode


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.sigs = set()
        self.samples = []
        self.notes = {}
        self.trivial = 0

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def merge(self, o):
        self.evaluations += o.evaluations
        self.sigs |= o.sigs
        self.trivial += o.trivial
        if len(self.samples) < 3:
            self.samples = (self.samples + o.samples)[:3]
        for k, v in o.notes.items():
            self.count(k, v)

    def trial(self, sig, nontrivial=True, sample=None):
        self.evaluations += 1
        if not nontrivial:
            self.trivial += 1
            return
        self.sigs.add(hashlib.blake2b(repr(sig).encode("utf-8", "replace"), digest_size=8).hexdigest())
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)


def trace_sig(step):
    return (tuple((k, p) for k, p in step.get("ops", ())[:400]), tuple(step.get("fired", ())), step.get("exc"))


def pid(project):
    return hashlib.blake2b(json.dumps(project, sort_keys=True).encode("utf-8", "surrogatepass"), digest_size=6).hexdigest()


def bad_end(r):
    """A process that did not end properly: message or None."""
    if "timeout" in r:
        return "the process did not end within %s s of real time" % r["timeout"]
    if "died" in r:
        return "the process died with status %s" % r["died"]
    for s in r["steps"]:
        if s.get("exc") == "SimRunaway":
            return "the conversion ran away: %s" % s.get("msg")
    return None


def src_text(project, rel):
    e = project.get(rel)
    if e is None or "l" in e or "d" in e:
        return ""
    return content(e).decode("utf-8", "replace")


def py_files(project):
    return sorted(r for r, e in project.items() if r.endswith(".py") and ("t" in e or "b" in e or "z" in e) and selected_rel(r))


def selected_rel(rel):
    return not any(part.startswith(".") for part in rel.split("/")) and "__pycache__" not in rel


def step_for(spec, **kw):
    s = {"in": "@/in", "out": "@/out", "opts": dict(spec.get("opts") or {})}
    if spec.get("exclude"):
        s["exclude"] = spec["exclude"]
    if spec.get("single"):
        s["in"] = "@/in/" + spec["single"]
        s["out"] = spec.get("single_out", "@/out/m.py")
    s.update(kw)
    return s


def excluded(pats, rel):
    return any(re.search(x, "/in/" + rel) for x in pats.split(","))


def put_in(w, project):
    w.wipe()
    w.put("in", project)
    w.put("cwd", {"keep.txt": {"t": "sentinel\n"}})


def golden(w, spec, project=None, step=None, env=None):
    """Fault-free conversion in a fresh process on an empty disk. Returns (step result, output files)."""
    put_in(w, project if project is not None else spec["project"])
    r = w.process([step or step_for(spec)], env=dict({"cwd": "@/cwd"}, **(env or {})))
    e = bad_end(r)
    if e:
        return {"exc": "BadEnd", "msg": e, "ops": [], "ret": None}, {}
    return r["steps"][0], out_files(w, spec)


def out_files(w, spec):
    return {k: (v[0], w.text(v[1])) for k, v in files(w.snapshot("out")).items()}


def compare_trees(want, got, project, exact=True, extra_ok=True, what="output"):
    """Messages for the differences of two output trees."""
    out = []
    for k in sorted(want):
        if k not in got:
            out.append("%s %s is missing" % (what, k))
        elif want[k] != got[k]:
            if not exact and want[k][0] == got[k][0] == "f" and same_text(want[k][1], got[k][1], src_text(project, k)):
                continue
            out.append("%s %s differs %s" % (what, k, diff_hint(want[k][1], got[k][1])))
    if not extra_ok:
        for k in sorted(set(got) - set(want)):
            out.append("unexpected %s %s" % (what, k))
    return out


def any_project(rng, p_custom=0.08, **kw):
    if rng.random() < p_custom:
        return gen.custom_op_project(rng)
    return gen.project(rng, **kw)


def pick_single(rng, project):
    c = py_files(project)
    return rng.choice(c) if c else None


# ---------------------------------------------------------------------------------------------------------------- C01
class C01:
    id = "C01"
    RELATIONS = ["disjoint", "out_in_in", "out_in_in_old", "default_cwd", "in_in_out", "in_in_out_same", "identical", "out_link_in", "in_link", "dirlink_to_src",
                 "filelink_to_src", "hardlink_to_src", "file_own_dir", "file_self", "file_below_self", "dir_onto_file", "file_disjoint", "relative", "ext_link", "link_cycle",
                 "file_link_target", "out_parent_link", "nested_out_link", "helper_link", "file_sibling", "file_sibling_dir"]

    def gen(self, rng, tier):
        project = any_project(rng, n=rng.choice([1, 2, 3, 4]), hidden=True)
        rel = rng.choice(self.RELATIONS)
        trials = [{"faults": []}]
        for _ in range(rng.choice([3, 5, 6])):
            k = rng.random()
            f = [gen.crash(rng)] if k < 0.5 else [gen.fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            if k > 0.9:
                f = [{"cls": "any", "frac": round(rng.random(), 4), "kind": "interrupt"}]
            trials.append({"faults": f})
            if rng.random() < 0.12:
                trials.append({"faults": [], "format": {rng.choice(["black", "isort"]): {"*": rng.choice(C13.EXC)}}})
        if rng.random() < (0.6 if rel.startswith("file_sibling") else 0.25):
            name, e = gen.damage(rng)
            if rel.startswith("file_") and rng.random() < 0.5:
                name = "aa_damage.py"
                project = {k: v for k, v in project.items() if k > name}
            project = gen.drop_conflicts(dict(project, **{name: e}))
        spec = {"project": project, "relation": rel, "opts": gen.options(rng, fmt=0.15), "trials": trials, "knobs": gen.knobs(rng), "rerun": rng.random() < 0.4,
                "abslinks": rng.random() < 0.5}
        gen.exclude(rng, spec)
        if rng.random() < 0.2:
            spec["project"] = gen.lock(rng, project, 0.25)
            spec["knobs"]["perm"] = True
        return spec

    def setup(self, w, spec):
        """Builds the disk; returns (step, env cwd, list of protected trees, predicate: path is output)."""
        p, rel = dict(spec["project"]), spec["relation"]
        w.wipe()
        w.put("cwd", {"keep.txt": {"t": "x"}})
        step = {"in": "@/w/in", "out": "@/out", "opts": spec["opts"], "exclude": spec.get("exclude")}
        cwd = "@/cwd"
        pys = py_files(p)
        one = pys[0] if pys else None
        nested = None
        if rel == "ext_link":
            w.put("ext", {"e.py": {"t": gen.HAND["maxmin"]}, "sub/data.bin": {"t": "data"}})
            p["linked"] = {"l": "@/ext"}
            p["lf.py"] = {"l": "@/ext/e.py"}
        if rel == "link_cycle":
            p["loop"] = {"l": "."}
            p["pkg2/up"] = {"l": ".."}
        if rel == "in_in_out_same":
            # the mirrored output of in/in/... is in/...
            q = {("in/" + k): v for k, v in list(p.items())[:3] if "l" not in v}
            p.update(q)
            p = gen.drop_conflicts(p)
        if spec.get("abslinks"):
            for k, v in list(p.items()):
                if "l" in v and os.path.dirname(v["l"]) == "" and v["l"] not in (".", ".."):
                    p[k] = dict(v, l=os.path.join("@/w/in", os.path.dirname(k), v["l"]))
        w.put("w/in", p)
        if rel == "out_in_in":
            step["out"], nested = "@/w/in/out_dir", "out_dir"
        elif rel == "out_in_in_old":
            step["out"], nested = "@/w/in/out_dir", "out_dir"
            w.put("w/in/out_dir", {"old.py": {"t": "import paddle\n"}, "paddle_utils.py": {"t": "old = 1\n"}, "pkg/main.py": {"t": "old\n"}})
        elif rel == "default_cwd":
            step["in"], step["out"], cwd, nested = ".", None, "@/w/in", "paddle_project"
        elif rel in ("in_in_out", "in_in_out_same"):
            step["out"] = "@/w"
        elif rel == "identical":
            step["out"] = "@/w/in"
        elif rel == "out_link_in":
            w.put("", {"lnk": {"l": "@/w/in"}})
            step["out"] = "@/lnk"
        elif rel == "in_link":
            w.put("", {"lnk": {"l": "@/w/in"}})
            step["in"], step["out"] = "@/lnk", "@/w/in"
        elif rel == "out_parent_link":
            w.put("", {"lnk": {"l": "@/w"}})
            step["out"] = "@/lnk/in"
        elif rel == "nested_out_link":
            w.put("", {"lnk": {"l": "@/w"}})
            step["out"], nested = "@/lnk/in/out_dir", "out_dir"
        elif rel == "dirlink_to_src":
            d = sorted(set(k.split("/")[0] for k in p if "/" in k and selected_rel(k)))
            w.put("out", {d[0] if d else "pkg": {"l": "@/w/in/" + d[0] if d else "@/w/in"}})
        elif rel == "filelink_to_src":
            if one:
                w.put("out", {one: {"l": "@/w/in/" + pys[-1]}})
        elif rel == "helper_link":
            if one:
                w.put("out", {"paddle_utils.py": {"l": "@/w/in/" + one}})
        elif rel == "hardlink_to_src":
            if one:
                w.put("out", {one: {"h": "@/w/in/" + one}})
        elif rel.startswith("file_"):
            if one is None:
                return None
            step["in"] = "@/w/in/" + one
            d = os.path.dirname("@/w/in/" + one)
            if rel.startswith("file_sibling"):  # the output is a new file beside the source
                nested = (os.path.dirname(one) + "/" if "/" in one else "") + ("m_paddle.py" if rel == "file_sibling" else "new_dir/x/m_paddle.py")
                step["out"] = "@/w/in/" + nested
                nested = nested.replace("/x/m_paddle.py", "")
                return step, cwd, nested
            step["out"] = {"file_own_dir": d, "file_self": step["in"], "file_below_self": step["in"] + "/x.py", "file_disjoint": "@/out/m.py", "file_link_target": "@/out/l.py"}[rel]
            if rel == "file_link_target":
                w.put("out", {"l.py": {"l": step["in"]}})
        elif rel == "dir_onto_file":
            if one is None:
                return None
            step["out"] = "@/w/in/" + one
        elif rel == "relative":
            cwd = "@/w/in"
            step["in"], step["out"] = spec.get("relform", "./../in/"), "../../out"
        return step, cwd, nested

    def protected(self, w, nested):
        out = {}
        for base in ("w/in", "ext"):
            for k, v in w.snapshot(base).items():
                if nested and base == "w/in" and (k == nested or k.startswith(nested + "/")):
                    continue
                out[base + "/" + k] = v
        return out

    def inodes(self, w):
        ino = {}
        for base in ("w/in", "ext"):
            for d, _, fs in os.walk(w.root + "/" + base):
                for f in fs:
                    q = os.path.join(d, f)
                    st = os.lstat(q)
                    ino[st.st_ino] = q[len(w.root) + 1:]
        return ino

    def run(self, w, spec, st):
        out = []
        ops = None
        for i, t in enumerate(spec["trials"]):
            s = self.setup(w, spec)
            if s is None:
                return out
            step, cwd, nested = s
            before = self.protected(w, nested)
            everything = set(w.snapshot())
            ino = self.inodes(w)
            step = dict(step, budget=20000, format=t.get("format"))
            if ops is not None:
                step["faults"] = gen.resolve(t["faults"], ops)
                if t["faults"] and not step["faults"]:
                    continue
            r = w.process([step], env={"cwd": cwd}, disk=spec.get("knobs"))
            e = bad_end(r)
            if e and "ran away" not in e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][0] if r.get("steps") else {}
            if ops is None:
                ops = res.get("ops", [])
            msgs = self.judge(w, before, nested, ino, everything)
            if r.get("crashed") and spec["relation"] == "file_sibling":
                msgs = [m for m in msgs if " was added to " not in m]  # a temporary file of a killed run
            st.trial((pid(spec["project"]), spec["relation"], trace_sig(res)), sample={"relation": spec["relation"], "files": sorted(spec["project"]), "faults": step.get("faults")})
            st.count("relation:" + spec["relation"])
            if not msgs and spec.get("rerun"):
                r = w.process([dict(step, faults=[])], env={"cwd": cwd}, disk=spec.get("knobs"))
                msgs = ["second run: " + m for m in self.judge(w, before, nested, ino, everything) if spec["relation"] != "file_sibling" or " was added to " not in m]
            out += ["trial %d (%s, %s): %s" % (i, spec["relation"], short(step.get("faults") or "no fault", 120), m) for m in msgs[:4]]
        return out

    def judge(self, w, before, nested, ino, everything):
        after = self.protected(w, nested)
        msgs = []
        for k in sorted(before):
            if k not in after:
                msgs.append("source %s was removed" % k)
            elif before[k] != after[k]:
                what = "content" if before[k][:2] != after[k][:2] else ("mode" if before[k][2] != after[k][2] else "modification time")
                msgs.append("source %s was changed (%s)" % (k, what))
        for k in sorted(set(after) - set(before)):
            msgs.append("%s was added to the source project" % k)
        for k, v in sorted(w.snapshot().items()):
            if k in everything or k in after:
                continue
            q = w.root + "/" + k
            if v[0] == "l":
                t = os.path.realpath(q)
                if (t + "/").startswith(w.root + "/w/in/") and not (nested and (t + "/").startswith(w.root + "/w/in/" + nested + "/")):
                    msgs.append("output %s is a link to a source" % k)
            elif v[0] == "f" and os.lstat(q).st_ino in ino:
                msgs.append("output %s is a hard link to source %s" % (k, ino[os.lstat(q).st_ino]))
        return msgs


# ---------------------------------------------------------------------------------------------------------------- C02
class C02:
    id = "C02"

    def gen(self, rng, tier):
        project = any_project(rng, n=rng.choice([1, 2, 3, 4]))
        spec = {"project": project, "opts": gen.options(rng, fmt=0.2), "knobs": gen.knobs(rng)}
        form = rng.choice(["dir", "dir", "dir", "default", "file", "file", "file_dir", "deep", "cli", "separate", "file_under", "dir_under", "over_file"])
        spec["form"] = form
        gen.exclude(rng, spec)
        if form.startswith("file"):
            spec["single"] = pick_single(rng, project) or "nothing.py"
        if rng.random() < 0.3:
            spec["opts"]["log_dir"] = "@/logs/run.log"
            spec["oldlog"] = rng.random() < 0.6
        if rng.random() < 0.4:
            for k in ("show_all_api", "show_unalign_api", "show_unsupport_api"):
                if rng.random() < 0.6:
                    spec["opts"][k] = True
        spec["existing"] = {k: rng.choice([{"t": "precious\n"}, gen.blob(rng, 50), {"t": "import torch\n"}]) for k in
                            rng.sample(["keep.txt", "pkg/keep.bin", "old_output.py", "zzz/old.py", "main.py.bak", ".hidden", "requirements.txt.old", "models/__pycache__/x.pyc", "paddle_utils_old.py", "empty_keep/d.txt"], 5)}
        for rel in rng.sample(sorted(project), min(2, len(project))):
            # names that tools like to use
            d, b = os.path.split(rel)
            spec["existing"][os.path.join(d, rng.choice(["%s.bak", "%s.tmp", "%s~", ".%s.swp", "%s.orig", ".%s.tmp", "%s.part", "%s.new", "tmp_%s", "%s.lock"]) % b)] = {"t": "precious\n"}
        spec["stale"] = rng.random() < 0.3
        if rng.random() < 0.2:
            name, e = gen.damage(rng)
            spec["project"] = project = gen.drop_conflicts(dict(project, **{name: e}))
        trials = [{"faults": []}]
        for _ in range(rng.choice([3, 5])):
            k = rng.random()
            f = [gen.crash(rng)] if k < 0.4 else [gen.fault(rng) for _ in range(rng.choice([1, 2]))]
            if k > 0.85:
                f = [{"cls": "any", "frac": round(rng.random(), 4), "kind": "interrupt"}]
            trials.append({"faults": f})
            if rng.random() < 0.12:
                trials.append({"faults": [], "format": {rng.choice(["black", "isort"]): {"*": rng.choice(C13.EXC)}}})
        spec["trials"] = trials
        return spec

    def setup(self, w, spec):
        w.wipe()
        w.put("in", spec["project"])
        w.put("cwd", {"keep.txt": {"t": "sentinel\n"}, "torch_data/x.py": {"t": "import torch\n"}})
        w.put("other", {"a.py": {"t": "import torch\nx = torch.ones(1)\n"}, "out/b.txt": {"t": "b"}})
        w.put("logs", {"old.log": {"t": "old"}})
        if spec.get("oldlog"):
            w.put("logs", {"run.log": {"t": "messages of an earlier run\n" * 9}, "run.log.bak": {"t": "x"}})
        w.put("tmp", {"k": {"t": "k"}})
        form = spec["form"]
        step = step_for(spec)
        outdir = "out"
        if form == "default":
            step["out"], outdir = None, "cwd/paddle_project"
        elif form == "deep":
            step["out"], outdir = "@/new/er/out", "new/er/out"
        elif form == "file":
            step["out"], outdir = "@/res/m_paddle.py", "res/m_paddle.py"
        elif form == "file_dir":
            step["out"], outdir = "@/out", "out"
        elif form in ("file_under", "dir_under"):  # the place of the output cannot be: it is below a file
            step["out"] = "@/other/a.py/" + ("m.py" if form == "file_under" else "sub/out")
            return step, step["out"][2:]
        elif form == "over_file":
            step["out"], outdir = "@/res.txt", "res.txt"
            w.put("", {"res.txt": {"t": "old result\n"}})
            return step, outdir
        elif form in ("cli", "separate"):
            o = spec["opts"]
            argv = ["-i", "@/in", "-o", "@/out"]
            if form == "separate":  # each entry of the input is a project
                argv.append("--separate_convert")
            if o.get("no_format"):
                argv.append("--no_format")
            if spec.get("exclude"):
                argv.append("--exclude=" + spec["exclude"])
            if o.get("log_dir"):
                argv += ["--log_dir", o["log_dir"]]
            for k in ("show_all_api", "show_unalign_api", "show_unsupport_api"):
                if o.get(k):
                    argv.append("--" + k)
            step = {"entry": "cli", "argv": argv}
        if form != "file":
            ex = {k: v for k, v in spec["existing"].items() if not any(p == k or p.startswith(k + "/") or k.startswith(p + "/") for p in self.outputs(spec))}
            w.put(outdir, ex)
            if spec.get("stale") and form in ("dir", "cli"):
                for p in py_files(spec["project"])[:2]:
                    w.put(outdir, {p: {"t": "stale\n"}})
        else:
            w.put("res", {"keep.txt": {"t": "precious"}})
        return step, outdir

    def run(self, w, spec, st):
        out, ops, gold = [], None, None
        for i, t in enumerate(spec["trials"]):
            step, outdir = self.setup(w, spec)
            before = w.snapshot()
            step = dict(step, format=t.get("format"))
            if ops is not None:
                step["faults"] = gen.resolve(t["faults"], ops)
                if t["faults"] and not step["faults"]:
                    continue
            r = w.process([step], env={"cwd": "@/cwd", "environ": {"TMPDIR": w.root + "/tmp"}}, disk=spec.get("knobs"))
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][0]
            after = w.snapshot()
            crashed = r.get("crashed")
            if ops is None:
                ops = res["ops"]
                if res["exc"]:
                    st.trial(None, False)
                    gold = None
                else:
                    gold = set(after) - set(before) | set(k for k in after if k in before and after[k] != before[k])
            st.trial((pid(spec["project"]), spec["form"], trace_sig(res)), sample={"form": spec["form"], "files": sorted(spec["project"]), "faults": step.get("faults"), "exc": res.get("exc")})
            st.count("form:" + spec["form"])
            msgs = self.judge(w, spec, outdir, before, after, res, crashed)
            out += ["trial %d (%s, %s): %s" % (i, spec["form"], short(step.get("faults") or "no fault", 120), m) for m in msgs[:4]]
        return out

    def judge(self, w, spec, outdir, before, after, res, crashed):
        msgs = []
        log = (spec["opts"].get("log_dir") or "")[2:]
        parents = set()
        q = outdir
        while "/" in q:
            q = q.rsplit("/", 1)[0]
            parents.add(q)
        reports = {"cwd/%s" % x for x in ("all_api_map.xlsx", "unalign_api_map.xlsx", "unsupport_api_map.xlsx")}

        def allowed(k):
            if k == outdir or k.startswith(outdir + "/") or k in parents and k not in before or (log and k == log):
                return True
            if spec["form"] == "separate" and k == "cwd/convert_rate_map.xlsx":
                return True
            if k in reports and spec["opts"].get("show_" + k[4:-5].replace("_map", "")):
                return True
            if crashed and spec["form"] == "file" and os.path.dirname(k) == os.path.dirname(outdir) and k not in before:
                return True  # a temporary file of a killed run
            return False

        outputs = self.outputs(spec)
        for k in sorted(set(before) | set(after)):
            a, b = before.get(k), after.get(k)
            if a == b:
                continue
            if not allowed(k):
                msgs.append("%s outside the output location was %s" % (k, "created" if a is None else "deleted" if b is None else "changed"))
            elif a is not None and k.startswith(outdir + "/") and a[0] != "d" and k[len(outdir) + 1:] not in outputs:
                msgs.append("%s, which existed in the output directory and is no output, was %s" % (k, "deleted" if b is None else "changed"))
            elif a is not None and k.startswith(outdir + "/") and a[0] == "d" and (b is None or b[2] != a[2]):
                msgs.append("directory %s was %s" % (k, "deleted" if b is None else "changed"))
        tmp = w.root + "/tmp"
        for ev, path in res.get("writes", ()):
            if path is None or path in ("/dev/null", "/dev/tty"):
                continue
            if ev in ("subprocess.Popen", "os.system", "os.posix_spawn", "os.exec", "os.fork", "os.forkpty"):
                continue
            path = str(path)
            if path.startswith(tmp):
                continue
            rel = path[len(w.root) + 1:] if path.startswith(w.root + "/") else None
            if rel is None and path != w.root:
                msgs.append("the run used %s on %s" % (ev, short(path, 100)))
            elif rel is not None and not allowed(rel) and not (spec["form"] == "file" and os.path.dirname(rel) == os.path.dirname(outdir)):
                msgs.append("the run used %s on %s" % (ev, rel))
        return sorted(set(msgs))

    def outputs(self, spec):
        if spec["form"] == "file_dir":
            return {os.path.basename(spec["single"])}
        if spec["form"] == "separate":
            return {p.split("/", 1)[-1] for p in spec["project"]} | {"paddle_utils.py"}
        o = set(spec["project"]) | {"paddle_utils.py"}
        return o


# ---------------------------------------------------------------------------------------------------------------- C03
class C03:
    id = "C03"

    def gen(self, rng, tier):
        project = any_project(rng)
        spec = {"project": project, "opts": gen.options(rng, fmt=0.2)}
        gen.exclude(rng, spec)
        if rng.random() < 0.25:
            spec["single"] = pick_single(rng, project)
        if rng.random() < 0.1:
            spec["entry"] = "cli"
        trials = []
        for _ in range(rng.choice([8, 10, 12])):
            t = {"knobs": gen.knobs(rng)}
            k = rng.random()
            if k < 0.12:
                t["faults"] = []  # only legal behaviour
            elif k < 0.85:
                t["faults"] = [gen.fault(rng)]
            else:
                t["faults"] = [gen.fault(rng) for _ in range(rng.choice([2, 3, 4]))]
            if rng.random() < 0.12:
                t["faults"] = []
                t["damage"] = {"rel": rng.choice(["zz_damage.py", "pkg/damage.py", "aa_damage.py", "requirements.txt"]), "kind": rng.choice(sorted(gen.DAMAGE))}
            elif rng.random() < 0.12:
                # attributes that cannot be read, or a process without privileges
                t["faults"] = []
                k = rng.choice(["stat", "perm", "taken"])
                if rng.random() < 0.4:
                    for rel in sorted(project):
                        if "l" not in project[rel] and not rel.endswith((".py", ".txt")) and not "d" in project[rel]:
                            spec["project"] = project = gen.drop_conflicts(dict(project, **{"zz_link": {"l": rel}}))
                            break
                t[k] = {"frac": round(rng.random(), 4), "kind": rng.choice(["EACCES", "EIO", "ENOENT", "ESTALE", "ELOOP"]), "mode": rng.choice([0o000, 0o200, 0o044, 0o300])}
                if k == "taken":
                    t[k] = {"frac": round(rng.random(), 4), "by": rng.choice(["dir", "dir", "empty", "file"])}
            trials.append(t)
        spec["trials"] = trials
        return spec

    DAMAGE = _DAMAGE

    def pick(self, project, frac, single):
        """A selected entry which no import names."""
        words = set(re.findall(r"\w+", " ".join(e["t"] for e in project.values() if "t" in e)))
        c = set(k for k in project if "d" not in project[k] and selected_rel(k)) if not single else {single}
        c |= set(os.path.dirname(k) for k in c if "/" in k and not single)
        c = sorted(k for k in c if not set(re.findall(r"\w+", k)) - {"py"} & words)
        return c[int(frac * len(c))] if c else None

    def step(self, spec):
        s = step_for(spec)
        if spec.get("entry") == "cli" and not spec.get("single"):
            argv = ["-i", "@/in", "-o", "@/out"]
            o = spec["opts"]
            if o.get("no_format"):
                argv.append("--no_format")
            if spec.get("exclude"):
                argv.append("--exclude=" + spec["exclude"])
            if o.get("mode"):
                argv += ["--mode", o["mode"]]
            s = {"entry": "cli", "argv": argv}
        return s

    def run(self, w, spec, st):
        out = []
        g, want = golden(w, spec, step=self.step(spec))
        if g["exc"]:
            st.trial(None, False)
            return out
        for i, t in enumerate(spec["trials"]):
            must_fail = False
            project = spec["project"]
            if t.get("damage"):
                d = t["damage"]
                if spec.get("single") or any(k.startswith(d["rel"] + "/") or d["rel"].startswith(k + "/") for k in project):
                    continue
                data = self.DAMAGE[d["kind"]]
                project = dict(project)
                project[d["rel"]] = {"b": base64.b64encode(data).decode()}
                must_fail = d["rel"].endswith(".py") or d["kind"] in ("utf8", "bom16")
            step = dict(self.step(spec), faults=gen.resolve(t["faults"], g["ops"]))
            if t["faults"] and not step["faults"]:
                continue
            knobs, odd = t.get("knobs"), None
            if t.get("stat") or t.get("perm"):
                odd = self.pick(project, (t.get("stat") or t["perm"])["frac"], spec.get("single"))
                if odd is None:
                    continue
                if t.get("stat"):
                    step["faults"] = [{"stat": "in/" + odd, "kind": t["stat"]["kind"]}]
                    if "l" in project.get(odd, {}):
                        step["faults"][0]["follow"] = True
                        if t["stat"]["kind"] in ("ENOENT", "ELOOP"):
                            continue  # a link to nothing is no file
                    odd = (odd, t["stat"]["kind"])
                else:
                    knobs = dict(knobs, perm=True)
                    project = dict(project)
                    if "l" in project.get(odd, {}):
                        # what the link points to is in a directory of someone else
                        project[odd] = {"l": "@/other/private/data"}
                    else:
                        project[odd] = dict(project.get(odd) or {"d": 1}, m=t["perm"]["mode"])
                    odd = (odd, "mode %o" % t["perm"]["mode"])
            if spec.get("exclude") and (t.get("damage") or odd) and excluded(spec["exclude"], t["damage"]["rel"] if t.get("damage") else odd[0]):
                continue
            put_in(w, project)
            if t.get("perm") and "l" in project[odd[0]]:
                w.put("other", {"private/data": {"t": "private\n"}, "private": {"d": 1, "m": 0o600}})
            if t.get("taken"):
                # something of another kind stands where an output goes
                c = sorted(k for k in want if (t["taken"]["by"] == "file") == ("/" in k) and k)
                if not c or spec.get("single"):
                    continue
                odd = c[int(t["taken"]["frac"] * len(c))]
                if t["taken"]["by"] == "file":
                    odd = os.path.dirname(odd)
                w.put("out/" + odd, {"": {"t": "old\n"}} if t["taken"]["by"] == "file" else {"old.txt": {"t": "old\n"}} if t["taken"]["by"] == "dir" else {})
                odd = (odd, "taken by " + t["taken"]["by"])
            r = w.process([step], env={"cwd": "@/cwd"}, disk=knobs)
            e = bad_end(r)
            tag = "trial %d (%s)" % (i, short(t.get("damage") or odd or [(f, g["ops"][f["op"]]) for f in step["faults"]] or "legal I/O behaviour only", 200))
            if e:
                out.append("%s: %s" % (tag, e))
                continue
            res = r["steps"][0]
            got = out_files(w, spec)
            if t.get("taken"):
                got.pop(odd[0] + "/old.txt", None)
            st.trial((pid(project), trace_sig(res)), sample={"files": sorted(project), "faults": step["faults"], "exc": res["exc"]})
            st.count("ended:" + (res["exc"] or "ok"))
            if res["exc"] is None:
                if must_fail:
                    out.append("%s: a source that cannot be read as Python or UTF-8 was reported as converted" % tag)
                elif not t.get("damage"):
                    for m in compare_trees(want, got, project)[:3]:
                        out.append("%s: the run reports success but %s" % (tag, m))
                    if res["ret"] != g["ret"]:
                        out.append("%s: the run reports success with counts %s instead of %s" % (tag, res["ret"], g["ret"]))
            elif not res["fired"] and not t.get("damage") and not t.get("taken"):
                out.append("%s: legal I/O behaviour made the run fail: %s %s" % (tag, res["exc"], res.get("msg")))
        return out


# ---------------------------------------------------------------------------------------------------------------- C04
class C04:
    id = "C04"

    def gen(self, rng, tier):
        project = any_project(rng, n=rng.choice([1, 2, 3, 4, 5]))
        spec = {"project": project, "opts": gen.options(rng, fmt=0.2)}
        gen.exclude(rng, spec)
        if rng.random() < 0.3:
            spec["single"] = pick_single(rng, project)
        if rng.random() < 0.3:
            # sources that are read-only, and a process without privileges
            spec["locked"] = True
            spec["project"] = project = {k: (dict(e, m=rng.choice([0o444, 0o400, 0o555])) if not ({"l", "d"} & set(e)) and rng.random() < 0.7 else e) for k, e in project.items()}
        trials = []
        for _ in range(rng.choice([5, 7])):
            attempts = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.random()
                a = {"faults": [gen.crash(rng)] if k < 0.55 else ([gen.fault(rng)] if k < 0.8 else [])}
                if rng.random() < 0.5:
                    a["power"] = rng.randrange(10**6)
                if rng.random() < 0.3:
                    a["other_version"] = rng.randrange(10**6)
                if rng.random() < 0.2:
                    a["opts"] = gen.options(rng, fmt=0.3)
                if rng.random() < 0.15:
                    a["single"] = pick_single(rng, project)
                if rng.random() < 0.2:
                    a["touch"] = rng.choice(["future", "past"])
                attempts.append(a)
            knobs = gen.knobs(rng)
            if spec.get("locked"):
                knobs["perm"] = True
            trials.append({"attempts": attempts, "knobs": knobs, "garbage": rng.randrange(10**6) if rng.random() < 0.3 else None})
        spec["trials"] = trials
        return spec

    def run(self, w, spec, st):
        import random

        out = []
        g, want = golden(w, spec)
        if g["exc"]:
            st.trial(None, False)
            return out
        for i, t in enumerate(spec["trials"]):
            put_in(w, spec["project"])
            log, sig = [], []
            if t.get("garbage") is not None:
                rng = random.Random("garbage:%s" % t["garbage"])
                ks = sorted(k for k in want if want[k][0] == "f")
                for k in ks:
                    x = rng.random()
                    data = want[k][1].replace(b"@", w.root.encode()) if b"@/out" in want[k][1] else want[k][1]
                    if x < 0.25:
                        self.write(w, k, b"")
                    elif x < 0.5:
                        self.write(w, k, data[: rng.randrange(len(data) + 1)])
                    elif x < 0.6:
                        self.write(w, k, b"\0" * len(data))
                    elif x < 0.7:
                        self.write(w, k, data + data)
                    elif x < 0.8:
                        self.write(w, k, bytes(reversed(data)))
                    elif x < 0.9 and data:  # one byte, or the end, is not what it was
                        n = rng.choice([0, len(data) // 2, len(data) - 1, max(0, len(data) - 4096), rng.randrange(len(data))])
                        self.write(w, k, data[:n] + (bytes([data[n] ^ 1]) + data[n + 1:] if rng.random() < 0.5 else b"\0" * (len(data) - n)))
                log.append("damaged outputs")
            for a in t["attempts"]:
                project = spec["project"]
                if a.get("other_version") is not None:
                    project = self.version(spec["project"], a["other_version"], spec.get("single"))
                    self.replace(w, project)
                step = dict(step_for(spec), faults=gen.resolve(a["faults"], g["ops"]))
                if a.get("opts"):
                    step["opts"] = a["opts"]
                if a.get("single") and not spec.get("single") and "t" in project.get(a["single"], {}):
                    step["in"], step["out"] = "@/in/" + a["single"], "@/out/" + a["single"]
                r = w.process([step], env={"cwd": "@/cwd"}, disk=t.get("knobs"))
                e = bad_end(r)
                if e:
                    out.append("trial %d: %s" % (i, e))
                    break
                res = r["steps"][0]
                sig.append(trace_sig(res))
                if r.get("crashed") and a.get("power") is not None:
                    self.power_loss(w, res, random.Random("power:%s" % a["power"]))
                    st.count("power losses")
                if a.get("touch"):
                    m = 4 * 10**18 if a["touch"] == "future" else 10**17
                    for d, _, fs in os.walk(w.root + "/out"):
                        for f in fs:
                            os.utime(os.path.join(d, f), ns=(m, m))
                if project is not spec["project"]:
                    self.replace(w, spec["project"])
                log.append("killed" if r.get("crashed") else (res["exc"] or "ok"))
            else:
                r = w.process([step_for(spec)], env={"cwd": "@/cwd"}, disk=t.get("knobs"))
                e = bad_end(r)
                if e:
                    out.append("trial %d: %s" % (i, e))
                    continue
                res = r["steps"][0]
                st.trial((pid(spec["project"]), sig, t.get("garbage")), sample={"files": sorted(spec["project"]), "history": log})
                for x in log:
                    st.count("attempt:" + x)
                tag = "trial %d (after %s)" % (i, ", ".join(log))
                if res["exc"]:
                    if self.blocked(w, want):
                        continue
                    out.append("%s: the run fails: %s %s" % (tag, res["exc"], res.get("msg")))
                    continue
                for m in compare_trees(want, out_files(w, spec), spec["project"])[:3]:
                    out.append("%s: %s" % (tag, m))
                if res["ret"] != g["ret"]:
                    out.append("%s: counts %s instead of %s" % (tag, res["ret"], g["ret"]))
        return out

    def blocked(self, w, want):
        """An output path is taken by something of another kind (a version had a directory of that name)."""
        for k in want:
            p = w.root + "/out/" + k if k else w.root + "/out"
            if os.path.isdir(p):
                return True
        return False

    def write(self, w, k, data):
        p = w.root + "/out" + ("/" + k if k else "")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    def replace(self, w, project):
        shutil.rmtree(w.root + "/in")
        w.put("in", project)

    def version(self, project, seed, single):
        import random

        rng = random.Random("version:%s" % seed)
        out = {}
        for rel in sorted(project):
            e = project[rel]
            x = rng.random()
            if "t" in e and x < 0.4 and "\r" not in e["t"]:
                out[rel] = {"t": gen.snippet(rng) if rel.endswith(".py") else "other\n"}
            elif x < 0.5 and ("b" in e or "z" in e) and content(e):  # as long as before, and much alike
                data = content(e)
                n = rng.choice([0, len(data) // 2, len(data) - 1, len(data) - 1])
                out[rel] = {"b": base64.b64encode(data[:n] + bytes([data[n] ^ 1]) + data[n + 1:]).decode()}
            elif x < 0.5 and rel != single and "t" in e:
                continue
            else:
                out[rel] = e
        if rng.random() < 0.5:
            out["added_file_x.py"] = {"t": gen.snippet(rng, ["h", "u"])}
        files = [k for k in out if "t" in out[k] and not single]
        if files and rng.random() < 0.25:  # a file that was a directory, or one that is in the place of one
            rel = rng.choice(sorted(files))
            if "/" in rel and rng.random() < 0.6:
                d = os.path.dirname(rel)
                out = {k: e for k, e in out.items() if not k.startswith(d + "/")}
                out[d] = {"t": "was a file\n"}
            else:
                out[rel + "/inner.txt"] = {"t": "was a directory\n"}
                del out[rel]
        return out

    def power_loss(self, w, res, rng):
        for rel in res["written"]:
            p = w.root + "/" + rel
            if not rel.startswith("out") or not os.path.isfile(p):
                continue
            x = rng.random()
            n = os.path.getsize(p)
            if x < 0.3:
                os.truncate(p, rng.randrange(n + 1))
            elif x < 0.45:
                os.truncate(p, 0)
            elif x < 0.55:
                with open(p, "r+b") as f:
                    f.write(b"\0" * n)
            elif x < 0.65:
                os.unlink(p)


# ---------------------------------------------------------------------------------------------------------------- C05
# what other tools are told about how to format the code of whoever runs the tool
CONFIGS = {".isort.cfg": {"t": "[settings]\nforce_single_line=true\nline_length=30\nknown_first_party=torch,os\n"}, "pyproject.toml": {"t": "[tool.isort]\nforce_single_line = true\n[tool.black]\nline-length = 30\nskip-string-normalization = true\n"},
           "setup.cfg": {"t": "[isort]\nforce_single_line=true\n"}, "tox.ini": {"t": "[isort]\nline_length=30\n"}, ".editorconfig": {"t": "root = true\n[*]\nindent_style = tab\nmax_line_length = 30\nend_of_line = crlf\n"}}


class C05:
    id = "C05"

    def gen(self, rng, tier):
        project = any_project(rng, p_custom=0.15)
        if rng.random() < 0.1:  # many APIs
            project = {"%sm%03d.py" % (rng.choice(["", "pkg/"]), i): {"t": gen.wrap(rng, code)} for i, (_, code) in enumerate(gen.sweep(rng, 12, 4))}
        spec = {"project": project, "opts": gen.options(rng, fmt=0.3), "hashseed": 0}
        if rng.random() < 0.3:
            spec["exclude"] = rng.choice(["\\.md$", "main", "models/,a\\.py$", "[0-9]\\.py$"])
        if rng.random() < 0.2:
            spec["single"] = pick_single(rng, project)
        if rng.random() < 0.1:
            spec["opts"]["calculate_speed"] = True
        if rng.random() < 0.08:
            # every entry of the directory is a project of its own; all go to the same place
            spec.pop("single", None)
            a, b = gen.drop_conflicts(gen.project(rng, n=2, tags=["h"], hidden=False)), gen.project(rng, n=2, hidden=False)
            spec["project"] = {k: v for d, t in (("one", a), ("two", b), ("three", {r: e for r, e in a.items() if "t" in e and r.endswith(".py")} or a)) for k, v in {d + "/" + r: e for r, e in t.items()}.items()}
            for d in ("one", "two", "three"):
                spec["project"][d + "/shared.py"] = {"t": "import torch\nWHO = %r\nx = torch.ones(1)\n" % d}
            spec["opts"].update(_cli=True, separate_convert=True)
        spec["trials"] = [self.trial(rng) for _ in range(rng.choice([6, 8]))]
        return spec

    def trial(self, rng):
        t = {"hashseed": rng.choice([0, 1, 2]), "knobs": gen.knobs(rng), "env": {"clock": {"mode": rng.choice(["normal", "frozen", "back", "jump", "coarse"]), "seed": rng.randrange(10**6)}}}
        if rng.random() < 0.6:
            t["env"]["encoding"] = rng.choice(["ascii", "latin-1", "cp1252", "utf-16", "gbk", "cp037"])
        t["env"]["clock"]["start"] = rng.choice([None, None, 0, 10**9, 2**31 + 5, 4.2e9, 2.5e11])
        t["env"]["identity"] = {"pid": rng.choice([1, 4242, 99999, 4000000]), "host": rng.choice(["sim", "build-7"]), "cpus": rng.choice([1, 2, 4, 64])}
        if rng.random() < 0.6:
            t["env"]["environ"] = {"LANG": rng.choice(["C", "de_DE.ISO-8859-1", "zh_CN.GBK"]), "TZ": rng.choice(["UTC", "Asia/Shanghai"]), "USER": "u%d" % rng.randrange(9), "COLUMNS": str(rng.choice([20, 200])),
                                   "HOME": rng.choice(["/nonexistent", "/"]), "PWD": "/", "XDG_CONFIG_HOME": "/nonexistent", "PYTHONSTARTUP": "/nonexistent", "LINES": "5", "NO_COLOR": "1", "PYTHONIOENCODING": "ascii", "DEBUG": "1", "CI": "true"}
        t["env"]["random"] = rng.randrange(10**6)
        t["env"]["umask"] = rng.choice([0o022, 0o077, 0])
        t["mtime"] = rng.choice([None, 0, 4 * 10**18, rng.randrange(10**18)])
        t["creation"] = rng.choice([None, rng.randrange(10**6)])
        t["at"] = rng.choice(["in", "in", "in", "in", "other/torch_proj", ".cache/x", "\u5c42 x/p", "a/requirements.txt", "setup.py", "paddle/paddle_utils.py", "transformers", "x y/__init__.py", "L" * 200])
        t["cwd"] = rng.choice(["cwd", "cwd", t["at"]])
        t["configs"] = rng.random() < 0.3
        return t

    def run(self, w, spec, st):
        out = []
        g, want = golden(w, spec)
        for i, t in enumerate(spec["trials"]):
            w.wipe()
            w.put("cwd", dict(CONFIGS if t.get("configs") else {}, **{"keep.txt": {"t": "x"}, "model.py": {"t": ""}, "pkg/__init__.py": {"t": ""}, "src/net.py": {"t": ""}}))
            if t.get("configs"):
                w.put("", CONFIGS)
            project = spec["project"]
            w.put(t["at"], project, mtime=t["mtime"] if t["mtime"] is not None else 1600000000123456789, scramble=t["creation"])
            env = dict(t["env"], cwd="@/" + t["cwd"])
            step = step_for(spec)
            step["in"] = step["in"].replace("@/in", "@/" + t["at"], 1)
            r = w.process([step], env=env, disk=t["knobs"], hashseed=t["hashseed"])
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][0]
            st.trial((pid(project), t["hashseed"], json.dumps(t["env"], sort_keys=True), trace_sig(res)), sample={"files": sorted(project), "trial": t})
            st.count("hashseed:%s" % t["hashseed"])
            st.count("clock:%s" % t["env"]["clock"]["mode"])
            st.count("encoding:%s" % t["env"].get("encoding"))
            tag = "trial %d (hash seed %s, at %s, working directory %s, listing order %s, encoding %s, clock %s)" % (i, t["hashseed"], t["at"], t["cwd"], t["knobs"].get("order"), t["env"].get("encoding"), t["env"]["clock"]["mode"])
            if g["exc"] or res["exc"]:
                if (g["exc"] is None) != (res["exc"] is None):
                    out.append("%s: ends with %s %s, the reference run with %s" % (tag, res["exc"] or "success", res.get("msg", ""), g["exc"] or "success"))
                continue
            for m in compare_trees(want, out_files(w, spec), project, extra_ok=False)[:3]:
                out.append("%s: %s" % (tag, m))
            if res["ret"] != g["ret"]:
                out.append("%s: counts %s instead of %s" % (tag, res["ret"], g["ret"]))
        return out


# ---------------------------------------------------------------------------------------------------------------- C06
def history_step(rng, projects, dest):
    """A conversion of one of the projects, possibly failing."""
    i = rng.randrange(len(projects))
    s = {"proj": i, "opts": gen.reports(rng, gen.options(rng, fmt=0.08)), "dest": rng.choice(dest)}
    if rng.random() < 0.35:
        s["single"] = True
    if rng.random() < 0.2:
        s["exclude"] = rng.choice(["\\.py$", "pkg,a\\.py", "models", "setup", "^/nothing$"])
    k = rng.random()
    if k < 0.30:
        s["fault"] = gen.fault(rng)
    elif k < 0.45:
        s["interrupt"] = round(rng.random(), 4)
    elif k < 0.55:
        s["fault"] = {"cls": "any", "frac": round(rng.random(), 4), "kind": "interrupt"}
    elif k < 0.62:
        s["bad_source"] = True
    return s


def make_step(s, i, projects, traces=None, probe=False):
    """Concrete conversion step of a history step description."""
    st = {"opts": s["opts"], "in": "@/p%d" % s["proj"], "out": "@/%s" % s["dest"]}
    if s.get("exclude"):
        st["exclude"] = s["exclude"]
    if s.get("single"):
        c = py_files(projects[s["proj"]])
        if c:
            st["in"] += "/" + c[0]
            st["out"] += ".py" if not s.get("into_dir") else ""
    return st


class C06:
    id = "C06"

    def gen(self, rng, tier):
        c = gen.corpus()
        projects = []
        k = rng.random()
        if k < 0.3:
            return self.gen_sweep(rng)
        if k < 0.45:
            return self.gen_edits(rng)
        if k < 0.55:
            return self.gen_retry(rng)
        if k < 0.57:
            return self.gen_long(rng)
        k = rng.random()
        for _ in range(rng.choice([2, 2, 3])):
            if k < 0.5:  # same APIs meet
                g = c["groups"][rng.choice(c["gnames"])] if not projects or rng.random() < 0.5 else group
                group = g
                p = {}
                for i in range(rng.choice([1, 3, 5])):
                    p["%s%s.py" % (rng.choice(["", "pkg/", "models/"]), "abcdefg"[i])] = {"t": rng.choice(g) if rng.random() < 0.7 else gen.snippet(rng)}
                projects.append(gen.drop_conflicts(p))
            else:
                group = None
                projects.append(any_project(rng, p_custom=0.3, n=rng.choice([1, 2, 3]), tags=rng.choice([None, ["h"], ["h", "t"], ["u"]]), hidden=False))
                group = c["groups"][rng.choice(c["gnames"])]
        dest = ["o0", "o1", "same"]
        if rng.random() < 0.3:
            q = projects[0]
            projects[1] = gen.drop_conflicts({r: {"t": gen.adversary(rng, src_text(q, r))} if r.endswith(".py") and selected_rel(r) and "t" in q[r] else e for r, e in q.items()})
        for p in projects:
            if rng.random() < 0.06:
                p["deepn.py"] = {"t": gen.deep(rng)}
        trials = []
        for _ in range(rng.choice([3, 4])):
            h = [history_step(rng, projects, dest) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
            probe = {"proj": rng.randrange(len(projects)), "opts": gen.options(rng, fmt=0.1), "dest": rng.choice(["o9", "o9", "same"])}
            if rng.random() < 0.3:
                probe["single"] = True
            trials.append({"history": h, "probe": probe, "keep": rng.random() < 0.5})
        return {"projects": projects, "trials": trials}

    def gen_sweep(self, rng):
        """Two projects that use the same many APIs in different ways, converted one after the other."""
        items = gen.sweep(rng, rng.choice([6, 12, 16]), 6)
        a, b = {}, {}
        for i, (g, code) in enumerate(items):
            x = rng.random()
            if x < 0.65:
                a["a%03d.py" % i] = {"t": code}
            if x > 0.35:
                b["b%03d.py" % i] = {"t": code}
        a = a or {"a.py": {"t": items[0][1]}}
        b = b or {"b.py": {"t": items[-1][1]}}
        o = gen.options(rng, fmt=0.0)
        trials = []
        for first in (0, 1):
            h = [{"proj": first, "opts": gen.options(rng, fmt=0.0), "dest": "o0"}]
            if rng.random() < 0.3:
                h[0]["interrupt"] = round(rng.random(), 4)
            trials.append({"history": h, "probe": {"proj": 1 - first, "opts": o, "dest": "o9"}, "keep": rng.random() < 0.3})
        return {"projects": [a, b], "trials": trials}

    def gen_edits(self, rng):
        """The same paths converted again after their files changed."""
        names = ["a.py", "pkg/b.py", "c.py"]
        texts = lambda: rng.choice([gen.HAND["alias"], gen.HAND["shadow_t"], gen.HAND["local_pkg"], gen.HAND["star"], gen.HAND["many_imports"], gen.HAND["no_torch"], gen.HAND["transformers"], gen.SETUP_EXT, gen.EXT_FUNC, gen.EXT_USE, gen.snippet(rng), gen.snippet(rng)])  # noqa: E731
        p = {n: {"t": texts()} for n in names}
        for n in rng.sample(gen.SHADOWS, 2):
            if rng.random() < 0.5:
                p[rng.choice(["", "pkg/"]) + n] = {"t": "def abs(x):\n    return x\n"}
        if rng.random() < 0.3:
            p["setup.py"] = {"t": gen.SETUP_EXT}
        p = gen.drop_conflicts(p)
        trials = []
        for _ in range(3):
            h = [{"proj": 0, "opts": gen.options(rng, fmt=0.05), "dest": rng.choice(["o0", "same"]), "single": rng.random() < 0.2} for _ in range(rng.choice([1, 1, 2]))]
            edits = []
            for _ in range(rng.choice([1, 2, 4])):
                x = rng.random()
                if x < 0.4:
                    e = [rng.choice(names), texts()]
                    if rng.random() < 0.4:
                        e[1] = gen.adversary(rng, p[e[0]]["t"])
                elif x < 0.7:
                    e = [rng.choice(["", "pkg/"]) + rng.choice(gen.SHADOWS), "def abs(x):\n    return x\n"]
                elif x < 0.85:
                    e = [rng.choice([n for n in sorted(p) if n not in names[:2]] or ["none.py"]), None]
                else:
                    e = ["setup.py", rng.choice([gen.SETUP_PLAIN, gen.SETUP_EXT])]
                edits.append({"before": rng.randrange(1, len(h) + 1), "rel": e[0], "text": e[1]})
            trials.append({"history": h, "edits": edits, "probe": {"proj": 0, "opts": gen.options(rng, fmt=0.05), "dest": rng.choice(["o9", "same"]), "single": rng.random() < 0.2}, "keep": rng.random() < 0.5})
        return {"projects": [p], "trials": trials}

    def gen_long(self, rng):
        """A process that has converted many small things."""
        projects = [{"%s%d.py" % (rng.choice(["", "pkg/"]), j): {"t": gen.snippet(rng)} for j in range(rng.choice([1, 2]))} for _ in range(5)]
        h = [{"proj": rng.randrange(5), "opts": gen.options(rng, fmt=0.0), "dest": rng.choice(["o0", "same"]), "single": rng.random() < 0.5} for _ in range(rng.choice([20, 40, 80]))]
        return {"projects": projects, "trials": [{"history": h, "probe": {"proj": i, "opts": gen.options(rng, fmt=0.0), "dest": "o9"}, "keep": rng.random() < 0.5} for i in (0, 1)]}

    def gen_retry(self, rng):
        """A conversion that fails half-way, some edits, and another attempt into the same place."""
        p = {n: {"t": gen.snippet(rng, ["h"]) if rng.random() < 0.7 else gen.snippet(rng)} for n in rng.sample(["a.py", "b.py", "pkg/c.py", "d.py"], rng.choice([1, 2, 3]))}
        if rng.random() < 0.2:
            p["setup.py"] = {"t": gen.SETUP_EXT}
        bad = rng.choice(["zz.py", "m.py", "pkg/zz.py"])
        p[bad] = {"t": rng.choice(["import torch\nx = (\n", "import torch\n  x = 1\n", "import torch\nx = torch.max(a, b)\nprint 1\n"])}
        single = rng.random() < 0.25
        trials = []
        for _ in range(3):
            o = gen.options(rng, fmt=0.05)
            h = [{"proj": 0, "opts": o, "dest": "same", "single": single} for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.3:
                h[-1]["fault"] = gen.fault(rng)
            if rng.random() < 0.3:
                h[-1]["interrupt"] = round(rng.random(), 4)
            edits = [{"before": len(h), "rel": bad, "text": None if rng.random() < 0.5 else gen.snippet(rng)}]
            for n in sorted(p):
                if n != bad and rng.random() < 0.6:
                    edits.append({"before": len(h), "rel": n, "text": rng.choice([gen.snippet(rng), gen.HAND["no_torch"], gen.HAND["alias"]])})
            probe = {"proj": 0, "opts": o if rng.random() < 0.7 else gen.options(rng, fmt=0.05), "dest": "same" if rng.random() < 0.85 else "o9", "single": single}
            trials.append({"history": h, "edits": edits, "probe": probe, "keep": rng.random() < 0.5})
        return {"projects": [p], "trials": trials}

    def disk(self, w, spec):
        w.wipe()
        w.put("cwd/a/b", {"keep": {"t": "x"}})
        for i, p in enumerate(spec["projects"]):
            w.put("p%d" % i, p)
        w.put("pbad", {"a.py": {"t": gen.SETUP_EXT}, "b.py": {"t": "import torch\nx = torch.max(a, b)\ny = torch.rfft(x)\n"}, "c.py": {"t": "import torch\nx = (\n"}})

    def run(self, w, spec, st):
        out = []
        for i, t in enumerate(spec["trials"]):
            # the probe alone
            self.disk(w, spec)
            probe = make_step(t["probe"], 0, spec["projects"])
            dest = probe["out"][2:]
            edits = [(min(e["before"], len(t["history"])), ["put", "p0/" + e["rel"], e["text"].encode()] if e["text"] is not None else ["del", "p0/" + e["rel"], None]) for e in t.get("edits", ())]
            final = dict(spec["projects"][t["probe"]["proj"]])
            if edits:
                from .zygote import apply_edit

                for e in sorted(t["edits"], key=lambda e: e["before"]):
                    if e["text"] is None:
                        final.pop(e["rel"], None)
                    else:
                        final[e["rel"]] = {"t": e["text"]}
                for _, e in sorted(edits, key=lambda x: x[0]):
                    apply_edit(w.root, [e])
            r0 = w.process([dict(probe, lines=True)], env={"cwd": "@/cwd/a/b"})
            if bad_end(r0):
                out.append("trial %d: %s" % (i, bad_end(r0)))
                continue
            g = r0["steps"][0]
            want = {k: (v[0], w.text(v[1])) for k, v in files(w.snapshot(dest)).items()}
            self.disk(w, spec)
            steps = []
            for h in t["history"]:
                s = make_step(h, 0, spec["projects"])
                if h.get("bad_source"):
                    s["in"], s["out"] = "@/pbad", "@/%s" % h["dest"]
                if h.get("fault"):
                    # placed in the trace of the probe: histories are similar enough for a fraction
                    s["faults"] = gen.resolve([h["fault"]], g["ops"])
                if h.get("interrupt") is not None:
                    s["inject"] = {"line": 1 + int(h["interrupt"] * max(1, g.get("lines") or 1)), "exc": "KeyboardInterrupt"}
                if t.get("keep"):
                    s["keep"] = True
                steps.append(s)
            steps.append(dict(probe, snap=True))
            for j, s in enumerate(steps):
                s["pre"] = [e for b, e in edits if b == j]
            r = w.process(steps, env={"cwd": "@/cwd/a/b"})
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][-1]
            snap = r["steps"][-2]["snap"]
            log = [x.get("exc") or "ok" for x in r["steps"][:-2]]
            after = w.snapshot()
            st.trial((tuple(pid(p) for p in spec["projects"]), json.dumps(t, sort_keys=True)), sample={"history": log, "probe": t["probe"]})
            for x in log:
                st.count("history:" + x)
            tag = "trial %d (history: %s)" % (i, ", ".join(log))
            if (g["exc"], g["exc"] and g.get("msg")) != (res["exc"], res["exc"] and res.get("msg")):
                out.append("%s: the probe ends with %s %s, in a fresh process with %s %s" % (tag, res["exc"] or "success", res.get("msg", ""), g["exc"] or "success", g.get("msg", "")))
                continue
            if g["ret"] != res["ret"]:
                out.append("%s: the probe's counts are %s, in a fresh process %s" % (tag, res["ret"], g["ret"]))
            got = {k: (v[0], w.text(v[1])) for k, v in files({k[len(dest) + 1:]: v for k, v in after.items() if k.startswith(dest + "/")} if dest not in after or after[dest][0] == "d" else {"": after[dest]}).items()}
            project = final
            if "" in want:
                project = {"": {"t": src_text(project, (py_files(spec["projects"][t["probe"]["proj"]]) or [""])[0])}}
            for m in compare_trees(want, got, project, exact=False)[:3]:
                out.append("%s: %s" % (tag, m))
            for k in sorted(set(snap) | set(after)):
                if k == dest or k.startswith(dest + "/"):
                    if not (k in snap and k not in after):
                        inside = k[len(dest) + 1:]
                        if k in snap and inside not in want and snap[k] != after.get(k) and snap[k][0] == "f":
                            out.append("%s: the probe touched %s of an earlier conversion" % (tag, k))
                        elif k not in snap and inside and inside not in want and after[k][0] == "f":
                            out.append("%s: the probe wrote %s, which it does not in a fresh process" % (tag, k))
                        continue
                if snap.get(k) != after.get(k):
                    out.append("%s: the probe touched %s of an earlier conversion" % (tag, k))
                    break
        return out


# ---------------------------------------------------------------------------------------------------------------- C07
class C07:
    id = "C07"

    def gen(self, rng, tier):
        projects = []
        c = gen.corpus()
        n = rng.choice([2, 2, 2, 3])
        g = None
        shared = gen.sweep(rng, 4, 2) if rng.random() < 0.3 else None
        for _ in range(n):
            if shared:
                projects.append({"s%02d.py" % i: {"t": code} for i, (_, code) in enumerate(shared) if rng.random() < 0.7} or {"s.py": {"t": shared[0][1]}})
            elif rng.random() < 0.4:
                if g is None or rng.random() < 0.3:
                    g = c["groups"][rng.choice(c["gnames"])]
                projects.append({"%s.py" % "abcd"[i]: {"t": rng.choice(g) if rng.random() < 0.7 else gen.snippet(rng)} for i in range(rng.choice([1, 2, 3]))})
            else:
                projects.append(any_project(rng, p_custom=0.25, n=rng.choice([1, 2, 3]), tags=rng.choice([None, ["h"], ["h", "t"], ["t"], ["u"]]), hidden=False))
        if rng.random() < 0.2:
            q = projects[0]
            projects[1] = gen.drop_conflicts({r: {"t": gen.adversary(rng, src_text(q, r))} if r.endswith(".py") and selected_rel(r) and "t" in q[r] else e for r, e in q.items()})
        jobs = [{"opts": gen.reports(rng, gen.options(rng, fmt=0.1)), "single": rng.random() < 0.3} for _ in range(n)]
        trials = []
        for _ in range(rng.choice([4, 6])):
            s = {"seed": rng.randrange(10**9), "p": rng.choice([0.002, 0.01, 0.05, 0.2, 0.5])}
            if rng.random() < 0.4:  # only at some code locations
                s["site_mod"] = rng.choice([5, 20, 60])
                s["site_k"] = rng.randrange(s["site_mod"])
                s["p"] = rng.choice([0.3, 0.8, 1.0])
            t = {"sched": s}
            if rng.random() < 0.25:
                t["victim"] = {"job": rng.randrange(n), "on": rng.choice(["open_w", "write", "read", "listdir"]), "nth": rng.choice([0, 1, 2])}
            trials.append(t)
        return {"projects": projects, "jobs": jobs, "trials": trials}

    def disk(self, w, spec, only=None):
        w.wipe()
        w.put("cwd/a/b", {"keep": {"t": "x"}})
        for i, p in enumerate(spec["projects"]):
            w.put(self.AT[i] + "p%d" % i, p)

    AT = ["", "x/", "x/y/z/"]  # relative paths mean different things from different places

    def job(self, spec, i):
        s = {"in": "@/%sp%d" % (self.AT[i], i), "out": "@/o%d" % i, "opts": spec["jobs"][i]["opts"]}
        c = py_files(spec["projects"][i])
        if spec["jobs"][i].get("single") and c:
            s["in"] += "/" + c[0]
            s["out"] = "@/o%d.py" % i
        return s

    def tree(self, w, s):
        return {k: (v[0], w.text(v[1])) for k, v in files(w.snapshot(s["out"][2:])).items()}

    def run(self, w, spec, st):
        out = []
        n = len(spec["projects"])
        jobs = [self.job(spec, i) for i in range(n)]
        alone = []
        for i in range(n):
            self.disk(w, spec)
            r = w.process([jobs[i]], env={"cwd": "@/cwd/a/b"})
            if bad_end(r):
                return ["job %d alone: %s" % (i, bad_end(r))]
            alone.append((r["steps"][0], self.tree(w, jobs[i])))
        for k, t in enumerate(spec["trials"]):
            self.disk(w, spec)
            th = {"jobs": jobs, "sched": t["sched"], "budget": 400000}
            v = t.get("victim")
            if v is not None and v["job"] < n:
                path = ("o%d" if v["on"] in ("open_w", "write") else self.AT[v["job"]] + "p%d") % v["job"]
                th["faults"] = [{"on": [v["on"]], "path": path, "nth": v["nth"], "kind": "EIO"}]
            r = w.process(threads=th, env={"cwd": "@/cwd/a/b"})
            if "steps" not in r:
                out.append("trial %d: %s" % (k, bad_end(r)))
                continue
            st.trial((tuple(pid(p) for p in spec["projects"]), tuple(map(tuple, r["switches"]))), nontrivial=bool(r["switches"]), sample={"jobs": jobs, "switches": r["switches"][:10], "n_switches": len(r["switches"])})
            st.count("context switches", len(r["switches"]))
            st.count("scheduled lines", r["sched_steps"])
            for s in r["sites"]:
                st.count("site:" + s)
            if r["deadlock"]:
                out.append("trial %d: deadlock" % k)
                continue
            spec_trace = {"switches": r["switches"]}
            for i in range(n):
                res, (g, want) = r["steps"][i], alone[i]
                tag = "trial %d, thread %d of %d, %d switches" % (k, i, n, len(r["switches"]))
                if v is not None and v["job"] == i and r["steps"][0]["fired"]:
                    continue
                if (res["exc"], res["exc"] and res.get("msg")) != (g["exc"], g["exc"] and g.get("msg")):
                    out.append("%s: ends with %s %s, alone with %s %s" % (tag, res["exc"] or "success", res.get("msg", ""), g["exc"] or "success", g.get("msg", "")))
                    t["explicit"] = spec_trace
                    continue
                if res["ret"] != g["ret"]:
                    out.append("%s: counts %s, alone %s" % (tag, res["ret"], g["ret"]))
                    t["explicit"] = spec_trace
                project = spec["projects"][i]
                if "" in want:
                    project = {"": {"t": src_text(project, py_files(project)[0])}}
                if g["exc"]:
                    continue
                for m in compare_trees(want, self.tree(w, jobs[i]), project, exact=False, extra_ok=False)[:2]:
                    out.append("%s: %s" % (tag, m))
                    t["explicit"] = spec_trace
        return out


# ---------------------------------------------------------------------------------------------------------------- C08
class C08:
    id = "C08"

    def gen(self, rng, tier):
        c = gen.corpus()
        if rng.random() < 0.5:
            g = [c["groups"][rng.choice(c["gnames"])] for _ in range(2)]
            project = {"%s%s.py" % (rng.choice(["", "pkg/", "d/e/"]), "abcdefgh"[i]): {"t": rng.choice(rng.choice(g)) if rng.random() < 0.6 else gen.snippet(rng)} for i in range(rng.choice([2, 4, 8]))}
            if rng.random() < 0.3:
                project["mis.py"] = {"t": gen.HAND["misidentify"]}
            if rng.random() < 0.3:
                project["uns.py"] = {"t": gen.HAND["unsupported"]}
            if rng.random() < 0.2:
                project["many.py"] = {"t": gen.many_unsupported(rng)}
            if rng.random() < 0.3:
                project["places.py"] = {"t": gen.HAND[rng.choice(["unsup_places", "sup_places"])]}
            if rng.random() < 0.6:
                for i, (_, code) in enumerate(gen.sweep(rng, rng.choice([2, 6]), 2)):
                    project["w%02d.py" % i] = {"t": gen.wrap(rng, code)}
            if rng.random() < 0.2:
                rel = rng.choice(sorted(project))
                project["copy/" + os.path.basename(rel)] = project[rel]
            project = gen.drop_conflicts(project)
        else:
            project = any_project(rng, p_custom=0.2)
        spec = {"project": project, "opts": dict(gen.options(rng, fmt=0.1), log_level="INFO", show_all_api=True, show_unsupport_api=True)}
        trials = []
        for _ in range(3):
            t = {"knobs": gen.knobs(rng), "hashseed": rng.choice([0, 1])}
            k = rng.random()
            if k < 0.3:
                t["format"] = {"black": {"*": "RuntimeError"}, "isort": {"*": "ValueError"}}
            elif k < 0.5:
                t["bad_stderr"] = True
            elif k < 0.7:
                t["log_full"] = rng.randrange(6)
            elif k < 0.9:
                t["history"] = rng.randrange(1, 3)
            t["markdown"] = rng.random() < 0.3
            t["speed"] = rng.random() < 0.3
            if rng.random() < 0.3:  # other tables
                t["tables"] = rng.choice([["show_all_api"], ["show_unsupport_api"], ["show_unalign_api"], ["show_all_api", "show_unalign_api", "show_unsupport_api"], []])
            trials.append(t)
        spec["trials"] = trials
        if rng.random() < 0.25:  # the entries of the directory are projects of their own
            spec["separate"] = {"how": rng.choice(["each", "pairs"]), "markdown": rng.random() < 0.2, "knobs": gen.knobs(rng)}
        return spec

    def separate(self, w, spec, st):
        """Counts and rates of projects that are converted one after another by one command."""
        sep, tops = spec["separate"], {}
        for i, p in enumerate(py_files(spec["project"])[:6]):
            tops.setdefault("p%d" % (i if sep["how"] == "each" else i // 2), {})["m%d.py" % i] = spec["project"][p]
        if len(tops) < 2:
            return []
        opts = {k: v for k, v in spec["opts"].items() if k in ("mode", "no_format", "only_complete")}
        tree = gen.drop_conflicts({d + "/" + k: v for d, t in tops.items() for k, v in t.items()})
        alone = {}
        for d in tops:
            put_in(w, tree)
            r = w.process([{"in": "@/in/" + d, "out": "@/out", "opts": opts}], env={"cwd": "@/cwd"})
            if bad_end(r) or r["steps"][0]["exc"]:
                return []
            alone[d] = r["steps"][0]["ret"]
        put_in(w, tree)
        r = w.process([{"in": "@/in", "out": "@/out", "opts": dict(opts, _cli=True, separate_convert=True, log_markdown=sep["markdown"])}], env={"cwd": "@/cwd"}, disk=sep["knobs"])
        e = bad_end(r)
        if e:
            return [e]
        res = r["steps"][0]
        st.trial((pid(tree), "separate"), nontrivial=any(sum(x) for x in alone.values()))
        if res["exc"]:
            return ["the projects convert one by one, together the run fails: %s %s" % (res["exc"], res.get("msg"))]
        out = []
        want = [alone[d] for d in sorted(tops)]
        if res.get("rets") != want:
            out.append("counts of the projects together %s, alone %s" % (res.get("rets"), want))
        rate = {d: alone[d][0] / sum(alone[d]) if sum(alone[d]) else 0.0 for d in tops}
        part = res["out"].split("Convert rate of each project is:", 1)[-1]
        for d in sorted(tops):
            m = re.search(r"(?m)^\s*%s: ([\d.]+)%%" % d, part)
            if not m or m.group(1) != "%.2f" % (100 * rate[d]):
                out.append("convert rate of %s printed as %s, %.2f%% expected" % (d, m and m.group(1), 100 * rate[d]))
        m = re.search(r"there are (\d+) Pytorch Projects:\D*(\d+)\(.*?100%\D*(\d+)\(.*?>=95%\D*(\d+)\(", part, re.S)
        nums = [len(tops), sum(x == 1 for x in rate.values()), sum(x >= 0.95 for x in rate.values()), sum(x >= 0.9 for x in rate.values())]
        if not m or [int(x) for x in m.groups()] != nums:
            out.append("the summary of the projects says %s instead of %s" % (m and [int(x) for x in m.groups()], nums))
        return out

    def run(self, w, spec, st):
        out = []
        g, _ = golden(w, spec)
        if g["exc"]:
            st.trial(None, False)
            return out
        out += ["plain run: " + m for m in self.sums(g, spec["opts"])]
        st.trial((pid(spec["project"]), "sums"), nontrivial=sum(g["ret"]) > 0, sample={"files": sorted(spec["project"]), "ret": g["ret"]})
        # additivity
        pys = py_files(spec["project"])
        custom = any("cpp_extension" in src_text(spec["project"], p) or "my_ext" in src_text(spec["project"], p) for p in pys)
        if not custom and 1 < len(pys) <= 24:
            tot = [0, 0]
            for p in pys:
                others = [q for q in pys if q != p]
                put_in(w, spec["project"])
                r = w.process([dict(step_for(spec), exclude=only_regex(p, others))], env={"cwd": "@/cwd"})
                if bad_end(r) or r["steps"][0]["exc"]:
                    out.append("file %s alone: %s" % (p, bad_end(r) or r["steps"][0]["exc"]))
                    continue
                x = r["steps"][0]["ret"]
                tot = [tot[0] + x[0], tot[1] + x[1]]
            st.trial((pid(spec["project"]), "add"), nontrivial=sum(tot) > 0)
            if not out and tot != g["ret"]:
                out.append("the files alone have %s APIs (converted, unsupported) in sum, the project %s" % (tot, g["ret"]))
        if spec.get("separate") and not custom:
            out += ["separate projects: " + m for m in self.separate(w, spec, st)]
        for i, t in enumerate(spec["trials"]):
            put_in(w, spec["project"])
            step = step_for(spec)
            step["opts"] = dict(step["opts"], log_markdown=bool(t.get("markdown")), calculate_speed=bool(t.get("speed")))
            if t.get("tables") is not None:
                step["opts"].update({k: k in t["tables"] for k in ("show_all_api", "show_unalign_api", "show_unsupport_api")})
            for k in ("format", "bad_stderr"):
                if t.get(k):
                    step[k] = t[k]
            if t.get("log_full") is not None:
                step["opts"]["log_dir"] = "@/cwd/x.log"
                step["faults"] = [{"on": ["write"], "path": "cwd/x.log", "nth": t["log_full"], "kind": "ENOSPC", "sticky": True}]
            steps = [step]
            if t.get("history"):
                steps = [dict(step_for(spec), out="@/h%d" % j) for j in range(t["history"])] + [step]
            r = w.process(steps, env={"cwd": "@/cwd"}, disk=t["knobs"], hashseed=t["hashseed"])
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][-1]
            st.trial((pid(spec["project"]), json.dumps(t, sort_keys=True)), nontrivial=sum(g["ret"]) > 0)
            tag = "trial %d (%s)" % (i, short(t, 150))
            if res["exc"]:
                out.append("%s: the run fails: %s %s" % (tag, res["exc"], res.get("msg")))
                continue
            if res["ret"] != g["ret"]:
                out.append("%s: counts %s instead of %s" % (tag, res["ret"], g["ret"]))
            if not t.get("bad_stderr") and t.get("log_full") is None:
                out += ["%s: %s" % (tag, m) for m in self.sums(res, step["opts"])]
        return out

    def sums(self, res, opts):
        ok, bad = res["ret"]
        out = []
        if ok < 0 or bad < 0:
            out.append("negative counts %s" % res["ret"])
        log = res["log"]
        if opts.get("log_markdown"):
            m = re.search(r"总计有 (\d+) 行.*?([\d.]+)%.*?\* (\d+) 行.*?\* (\d+) 行", log, re.S)
            nums = m and (int(m.group(1)), int(m.group(3)), int(m.group(4)), m.group(2))
        else:
            m = re.search(r"There are (\d+) Pytorch APIs.*?(\d+)\s+Pytorch APIs have been converted.*?(\d+)\s+Pytorch APIs are not supported.*?Convert Rate is: ([\d.]+)%", log, re.S)
            nums = m and (int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4))
        if not nums:
            out.append("no summary was printed")
        else:
            if nums[0] != ok + bad or nums[1] != ok or nums[2] != bad:
                out.append("the summary says found %d, converted %d, unsupported %d, the run returned %s" % (nums[0], nums[1], nums[2], res["ret"]))
            rate = "%.2f" % (100.0 * ok / (ok + bad)) if ok + bad else "0.00"
            if nums[3] != rate:
                out.append("convert rate %s%% printed, %s%% expected" % (nums[3], rate))
        tables = dict(res["excel"])
        all_rows = tables.get("all_api_map.xlsx", [])
        uns_rows = tables.get("unsupport_api_map.xlsx", [])
        if opts.get("show_all_api") and sum(r[-1] for r in all_rows) != ok + bad:
            out.append("the table of all APIs adds up to %d, found %d" % (sum(r[-1] for r in all_rows), ok + bad))
        if opts.get("show_unsupport_api") and sum(r[-1] for r in uns_rows) != bad:
            out.append("the table of unsupported APIs adds up to %d, reported %d" % (sum(r[-1] for r in uns_rows), bad))
        for rows, name in ((all_rows, "all"), (uns_rows, "unsupported")):
            if len(set(r[0] for r in rows)) != len(rows) or any(r[-1] <= 0 for r in rows):
                out.append("the table of %s APIs has duplicate or empty rows" % name)
        # the printed tables are the exported ones
        for rows, title in ((all_rows, "ALL API List:"), (uns_rows, "Not Support API List:")):
            if rows:
                names = {str(r[0]): r for r in rows}
                part = log.split(title, 1)[-1].split("Convert Summary")[0].split("转换总结")[0].split("API List:")[0]
                got = {}
                for line in part.split("\n"):
                    words = line.split()
                    if words and words[0] in names and re.search(r"(\d+)\s*$", line):
                        row = names[words[0]]
                        rest = line.strip()[len(words[0]):].strip()
                        if len(row) == 3 and rest.startswith(str(row[1])):
                            rest = rest[len(str(row[1])):].strip()
                        if rest.isdigit():
                            got[words[0]] = got.get(words[0], 0) + int(rest)
                for r in rows:
                    if got.get(r[0]) != r[-1]:
                        out.append("%s: %s is printed with %s, exported with %s" % (title, r[0], got.get(r[0]), r[-1]))
                        break
        return out[:4]


def only_regex(p, others):
    """Exclude patterns that leave only p of the Python files."""
    return "/in/(%s)$" % "|".join(re.escape(q).replace(",", ".") for q in others)


# ---------------------------------------------------------------------------------------------------------------- C09
class C09:
    id = "C09"
    EXCLUDES = [None, None, "tests", "\\.md$,\\.bin$", "pkg/sub", "model", "a\\.b/", "^nomatch$,zz\\.py", "[0-9]+\\.py$", "deep/er", "(eval|train)\\.py", "data set", "requirements", "__init__", "tests, model", "zeta|MAIN", "PKG", "\\bmodel\\b", "model/", "pkg/", "/tests$", "noext/", "in/[a-m]", "\\.[a-z]+$"]

    def gen(self, rng, tier):
        project = any_project(rng, n=rng.choice([2, 4, 6, 9]), hidden=True)
        for _ in range(rng.choice([0, 1, 3])):
            name, e = gen.other_file(rng)
            project[rng.choice(gen.DIRS) + name] = e
        for rel in rng.sample(["tests/conftest.py", ".venv/lib/t.py", "pkg/.x/y/z.py", "__pycache__/q.py", "pkg/__pycache__/r.pyc", "..data.py", "x/.gitignore", "my__pycache__dir/f.py", "UPPER.PY", "noext", "pkg/.py", "dir.py/inner.py", "a.pyx", "torch_req/requirements.txt"], 5):
            project[rel] = {"t": rng.choice(["import torch\nx = torch.ones(2)\n", "torch\n", "torch >= 1\nfoo\n"])} if rel != "pkg/.py" else {"t": "not python at ( all"}
        if rng.random() < 0.3:
            project["big.bin"] = rng.choice([gen.blob(rng, 200000), {"z": [rng.choice([1048577, 4194305, 9000001]), rng.randrange(1000)]}])
        if rng.random() < 0.02:
            project["pkg/huge.py"] = {"t": "import torch\n" + "".join("# %d %s\n" % (i, "torch " * 6) for i in range(rng.choice([9000, 40000]))) + "x = torch.abs(y)\nz = torch.fake_end(x)\n"}
        if rng.random() < 0.3:
            project["lnk.txt"] = {"l": "noext" if "noext" in project else "nowhere"}
        if rng.random() < 0.2:
            project["dangling.py"] = {"l": "no/such/file"}
        if rng.random() < 0.2:
            project["pkg_l"] = {"l": "pkg"}
        project = gen.drop_conflicts(project)
        if rng.random() < 0.25:  # several names of a file
            for rel in rng.sample(sorted(k for k, v in project.items() if "l" not in v and "d" not in v), 2):
                project[rng.choice(["zzz_hl/", "zzz_"]) + os.path.basename(rel)] = {"h": "@/in/" + rel}
            project = gen.drop_conflicts(project)
        trials = [{"exclude": rng.choice(self.EXCLUDES), "knobs": gen.knobs(rng), "form": rng.choice(["abs", "abs", "rel", "slash", "dot"]), "out": rng.choice(["new", "deep", "empty", "default", "in_paddle", "i", "in.out"]), "damaged": rng.choice([None, None, "EACCES", "EIO", "locked"])} for _ in range(rng.choice([3, 4]))]
        alone = [{"file": rng.randrange(1000), "exclude": rng.choice(self.EXCLUDES + ["\\.py", "in/"]), "out": rng.choice(["dir", "new", "default"])} for _ in range(rng.choice([0, 1, 3]))]
        return {"project": project, "opts": gen.options(rng, fmt=0.05), "trials": trials, "alone": alone}

    def unselected(self, w, exclude):
        """Files and directories that are hidden or excluded themselves (what lies below is not listed again)."""
        pats = (exclude.split(",") if exclude else []) + ["__pycache__"]
        res, base = [], w.root + "/in"
        used = self.used
        for d, dirs, fs in os.walk(base):
            for name in sorted(dirs) + sorted(fs):
                q = os.path.join(d, name)
                if (name.startswith(".") or any(re.search(x, q) for x in pats)) and not os.path.islink(q) and (os.path.isdir(q) or os.stat(q).st_nlink == 1):
                    real = os.path.realpath(q)
                    if not any(u == real or u.startswith(real + "/") for u in used):  # by another name it may be selected
                        res.append(q[len(base) + 1:])
            dirs[:] = [x for x in dirs if os.path.relpath(os.path.join(d, x), base) not in res]
        return res

    def model(self, w, exclude):
        """Independent model of the selection: {relative path: bytes}, plus the unselected files."""
        pats = (exclude.split(",") if exclude else []) + ["__pycache__"]
        sel, base = {}, w.root + "/in"
        self.used = set()  # the real paths of what is selected

        def walk(d, rel, seen):
            for name in sorted(os.listdir(d)):
                p, r = d + "/" + name, (rel + "/" + name if rel else name)
                if name.startswith("."):
                    continue
                if any(re.search(x, p) for x in pats):
                    continue
                if os.path.isdir(p):
                    q = os.path.realpath(p)
                    if q not in seen:
                        self.used.add(q)
                        walk(p, r, seen + [q])
                elif os.path.isfile(p):
                    self.used.add(os.path.realpath(p))
                    with open(p, "rb") as f:
                        sel[r] = f.read()

        walk(base, "", [os.path.realpath(base)])
        allf = {}
        for d, _, fs in os.walk(base):
            for f in fs:
                q = os.path.join(d, f)
                if not os.path.islink(q):
                    allf[q[len(base) + 1:]] = 1
        return sel, set(allf) - set(sel)

    def run(self, w, spec, st):
        out, control = [], None
        for i, t in enumerate(spec["trials"]):
            put_in(w, spec["project"])
            sel, unsel = self.model(w, t["exclude"])
            step = step_for(spec, exclude=t["exclude"])
            env = {"cwd": "@/cwd"}
            outdir = "out"
            if t["form"] == "rel":
                step["in"], step["out"] = "../in", "../out"
            elif t["form"] == "slash":
                step["in"], step["out"] = "@/in/", "@/out/"
            elif t["form"] == "dot":
                step["in"], env["cwd"] = ".", "@/in"
            if t["out"] == "deep":
                step["out"], outdir = "@/n/e/w", "n/e/w"
            elif t["out"] in ("in_paddle", "i", "in.out"):  # a name that starts like the input's
                step["out"], outdir = "@/" + t["out"], t["out"]
            elif t["out"] == "empty":
                os.makedirs(w.root + "/out")
            elif t["out"] == "default" and t["form"] != "dot":
                step["out"], outdir = None, "cwd/paddle_project"
            if t.get("damaged") == "locked":
                # a process without privileges, which may not read what is not selected
                for q in self.unselected(w, t["exclude"]):
                    os.chmod(w.root + "/in/" + q, 0)
            elif t.get("damaged"):
                # whatever is not selected cannot be read
                step["faults"] = [{"on": ["listdir", "open_r", "read"], "path": "in/" + q, "exact": True, "nth": 0, "kind": t["damaged"], "sticky": True} for q in self.unselected(w, t["exclude"])]
            r = w.process([step], env=env, disk=dict(t["knobs"], perm=t.get("damaged") == "locked"))
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][0]
            tag = "trial %d (exclude %r, %s, %s%s)" % (i, t["exclude"], t["form"], t["out"], ", unselected entries give " + t["damaged"] if t.get("damaged") else "")
            for k, kind, q in [f[:3] for f in res["fired"] if f[1] != "perm_stat"][:1]:
                out.append("%s: the unselected entry %s was touched (%s)" % (tag, q, kind))
            if res["exc"]:
                if control is None:
                    put_in(w, spec["project"])
                    control = w.process([step_for(spec)], env={"cwd": "@/cwd"})
                if not bad_end(control) and control["steps"][0]["exc"] == res["exc"] and "[Errno" not in res.get("msg", "") and self.hopeless(w, spec, sel, res["exc"]):
                    st.trial(None, False)  # some file cannot be converted at all
                elif self.parsable(sel):
                    out.append("%s: the run fails: %s %s" % (tag, res["exc"], res.get("msg")))
                else:
                    st.trial(None, False)
                continue
            got = {k: (v[0], w.text(v[1])) for k, v in files(w.snapshot(outdir)).items()}
            st.trial((pid(spec["project"]), json.dumps(t, sort_keys=True)), sample={"files": sorted(spec["project"]), "exclude": t["exclude"], "selected": sorted(sel)})
            st.count("files selected", len(sel))
            st.count("files not selected", len(unsel))
            for k in sorted(set(sel) - set(got)):
                out.append("%s: selected file %s has no output" % (tag, k))
            for k in sorted(set(got) - set(sel) - {"paddle_utils.py"}):
                out.append("%s: output %s corresponds to no selected file" % (tag, k))
            if "paddle_utils.py" in got and "paddle_utils.py" not in sel and not any(b"paddle_utils" in got[k][1] for k in got if k.endswith(".py") and k != "paddle_utils.py" and got[k][0] == "f"):
                out.append("%s: there is a helper file though no output uses it" % tag)
            for k in sorted(set(sel) & set(got)):
                m = self.differs(w, k, sel[k], got[k], spec["opts"])
                if m:
                    out.append("%s: %s" % (tag, m))
            opened = set(p[3:] for kd, p in res["ops"] if kd == "open_r" and p.startswith("in/"))
            for k in sorted(opened & unsel):
                out.append("%s: the unselected file %s was opened" % (tag, k))
        return out + (self.alone(w, spec, st) if spec.get("alone") else [])

    def alone(self, w, spec, st):
        """One file as the input: the exclude patterns select it or not."""
        out = []
        put_in(w, spec["project"])
        sel, _ = self.model(w, None)
        regular = sorted(k for k in sel if "t" in spec["project"].get(k, {}) or "b" in spec["project"].get(k, {}))
        for i, t in enumerate(spec["alone"]):
            if not regular:
                break
            k = regular[t["file"] % len(regular)]
            put_in(w, spec["project"])
            name = os.path.basename(k)
            if t["out"] == "dir":
                os.makedirs(w.root + "/sd")
                target, rel = "@/sd", "sd/" + name
            elif t["out"] == "new":
                target, rel = "@/sn/x/" + name, "sn/x/" + name
            else:
                target, rel = None, "cwd/paddle_project/" + name
            step = step_for(spec, exclude=t["exclude"])
            step["in"], step["out"] = "@/in/" + k, target
            r = w.process([step], env={"cwd": "@/cwd"})
            e = bad_end(r)
            tag = "%s alone (exclude %r, %s)" % (k, t["exclude"], t["out"])
            if e:
                out.append("%s: %s" % (tag, e))
                continue
            got = {}
            for top in ("sd", "sn", "cwd/paddle_project"):
                got.update({top + "/" + q: (v[0], w.text(v[1])) for q, v in files(w.snapshot(top)).items()})
            want = not any(re.search(x, w.root + "/in/" + k) for x in (t["exclude"].split(",") if t["exclude"] else []) + ["__pycache__"])
            st.trial((pid(spec["project"]), k, json.dumps(t, sort_keys=True)), sample={"file": k, "exclude": t["exclude"], "selected": want})
            st.count("single files selected" if want else "single files not selected", 1)
            if r["steps"][0]["exc"]:
                st.count("single files that cannot be converted")
                if not want:
                    out.append("%s: it is excluded, but the run fails: %s" % (tag, r["steps"][0]["exc"]))
                elif not k.endswith(".py") and self.parsable({k: sel[k]}):
                    out.append("%s: the run fails: %s %s" % (tag, r["steps"][0]["exc"], r["steps"][0].get("msg")))
                continue
            for q in sorted(got):
                if q != rel or not want:
                    out.append("%s: output %s corresponds to no selected file" % (tag, q))
            if want and rel not in got:
                out.append("%s: it has no output" % tag)
            elif want:
                m = self.differs(w, k, sel[k], got[rel], spec["opts"])
                if m:
                    out.append("%s: %s" % (tag, m))
        return out

    def differs(self, w, k, src, got, opts):
        """How the output of a selected file is not what it should be."""
        kind, data = got
        if kind != "f":
            return "output %s is no regular file" % k
        if k.endswith(".py"):
            m = self.converted(src, data, opts)
            return m and "%s %s" % (k, m)
        if os.path.basename(k) == "requirements.txt":
            want = src.decode().replace("\r\n", "\n").replace("\r", "\n").replace("torch", "paddlepaddle-gpu").encode()
            if data != want:
                return "%s is not the source with torch replaced: %s" % (k, diff_hint(want, data))
        elif not k.endswith("requirements.txt") and data != w.text(src):
            return "%s is no copy of the source: %s" % (k, diff_hint(src, data))

    def hopeless(self, w, spec, sel, exc):
        """Some selected Python file cannot be converted alone either."""
        put_in(w, {"%d.py" % i: {"b": base64.b64encode(sel[k]).decode()} for i, k in enumerate(sorted(sel)) if k.endswith(".py")})
        steps = [step_for(spec, **{"in": "@/in/%d.py" % i, "out": "@/out/%d.py" % i}) for i, k in enumerate(sorted(sel)) if k.endswith(".py")]
        r = w.process(steps, env={"cwd": "@/cwd"})
        return bool(bad_end(r)) or any(x["exc"] == exc for x in r["steps"])

    def parsable(self, sel):
        for k, v in sel.items():
            try:
                if k.endswith(".py"):
                    ast.parse(v.decode("utf-8"))
                elif k.endswith("requirements.txt"):
                    v.decode("utf-8")
            except (SyntaxError, ValueError):
                return False
        return True

    def converted(self, src, data, opts):
        if b"\nz = torch.fake_end(x)" in src and b"torch.fake_end(x)" not in data:
            return "lacks the end of its source"
        if opts.get("mode") == "min":
            return None
        try:
            tree = ast.parse(src.decode())
        except (SyntaxError, ValueError):
            return "was accepted though it is no Python"
        imports = set()
        for n in tree.body:
            if isinstance(n, ast.Import):
                imports |= set(a.name for a in n.names if a.asname is None)
        if imports == {"torch"} and re.search(rb"(?m)^import torch$", src) and re.search(rb"(?m)^import torch$", data):
            return "still imports torch: it was not converted"
        try:
            ast.parse(strip_marks(data.decode()))
        except ValueError:
            return "is no text"
        except SyntaxError:
            pass
        return None


# ---------------------------------------------------------------------------------------------------------------- C10
class C10:
    id = "C10"

    def gen(self, rng, tier):
        project = any_project(rng, n=rng.choice([1, 2, 3, 5]))
        shape = rng.choice(["nested_default", "nested_default", "nested_out", "nested_deep", "cycle_self", "cycle_parent", "cycle_two", "cycle_abs", "in_out_link", "scale", "scale", "scale_deep", "plain_repeat", "in_in_out", "file_repeat", "cycle_out", "stuck", "stuck", "stuck", "scale_data"])
        stuck = {"on": [rng.choice(["open_r", "open_w", "read", "write", "close_w", "listdir", "mkdir", "sendfile", "rename", "unlink"])], "nth": rng.choice([0, 0, 1, 3]), "path": rng.choice(["in", "out", "out", ""]), "prefix": rng.choice([0, 0, 0.5]), "sticky": True,
                 "kind": rng.choice(["EIO", "ENOSPC", "EACCES", "EDQUOT", "ETIMEDOUT", "EMFILE", "ENOENT", "EEXIST"])}
        return {"project": project, "stuck": stuck, "shape": shape, "opts": gen.options(rng, fmt=0.05), "runs": rng.choice([2, 3, 4]), "knobs": {"order": rng.randrange(10**6)}, "same_process": rng.random() < 0.3}

    def run(self, w, spec, st):
        out = []
        shape, project = spec["shape"], dict(spec["project"])
        if shape.startswith("scale"):
            return self.scale(w, spec, st)
        if shape == "stuck":
            return self.stuck(w, spec, st)
        # reference: the same project converted to a disjoint place
        ref, _ = golden(w, spec)
        if ref["exc"]:
            st.trial(None, False)
            return out
        if shape == "cycle_self":
            project["loop"] = {"l": "."}
        elif shape == "cycle_parent":
            project["pkg9/up"] = {"l": ".."}
        elif shape == "cycle_two":
            project["pa/lb"], project["pb/la"] = {"l": "../pb"}, {"l": "../pa"}
        elif shape == "cycle_abs":
            project["abs/loop"] = {"l": "@/in"}
        elif shape == "in_out_link":
            project["results"] = {"l": "@/out"}
        elif shape == "cycle_out":
            project["pa/root"] = {"l": "@/"}
        put_in(w, project)
        n_entries = self.unfolded(w, project)
        step, cwd, outdir = step_for(spec), "@/cwd", "out"
        if shape == "nested_default":
            step["in"], step["out"], cwd, outdir = ".", None, "@/in", "in/paddle_project"
        elif shape == "nested_out":
            step["out"], outdir = "@/in/out", "in/out"
        elif shape == "nested_deep":
            step["out"], outdir = "@/in/pkg/gen/out", "in/pkg/gen/out"
        elif shape == "in_in_out":
            step["out"], outdir = "@/", None
        elif shape == "file_repeat":
            c = py_files(project)
            if not c:
                return out
            step["in"], step["out"], outdir = "@/in/" + c[0], "@/out/m.py", "out"
        bound = 60 * n_entries + 3 * len(ref["ops"]) + 300
        step["budget"] = bound
        step["line_budget"] = 3000000
        sizes, seen = [], None
        n = spec["runs"]
        if spec.get("same_process"):
            procs = [[step] * n]
        else:
            procs = [[step]] * n
        k = 0
        for steps in procs:
            r = w.process(steps, env={"cwd": cwd}, disk=spec["knobs"])
            e = bad_end(r)
            if e:
                out.append("%s, run %d: %s (project of %d entries)" % (shape, k + 1, e, n_entries))
                break
            for res in r["steps"]:
                k += 1
                st.trial((pid(spec["project"]), shape, k, trace_sig(res)), sample={"shape": shape, "run": k, "ops": len(res["ops"]), "bound": bound})
                if res["exc"] and shape != "in_in_out":
                    out.append("%s, run %d: fails: %s %s" % (shape, k, res["exc"], res.get("msg")))
                sizes.append(len(res["ops"]))
            if outdir:
                snap = files(w.snapshot(outdir, times=False))
                if len(snap) > n_entries + 2:
                    out.append("%s, run %d: %d output entries for a project of %d entries" % (shape, k, len(snap), n_entries))
                if seen is not None and snap != seen:
                    diff = sorted(q for q in set(snap) | set(seen) if snap.get(q) != seen.get(q))
                    out.append("%s: run %d leaves other outputs than run %d: %s" % (shape, k, k - 1, short(diff, 150)))
                seen = snap
            if out:
                break
        if not out and len(sizes) > 1 and max(sizes) > 1.3 * sizes[0] + 20:
            out.append("%s: the work grows from run to run: %s operations" % (shape, sizes))
        return out

    def unfolded(self, w, project):
        n = 0
        base = w.root + "/in"

        def walk(d, seen):
            nonlocal n
            for name in os.listdir(d):
                p = d + "/" + name
                n += 1
                if os.path.isdir(p) and n < 3000:
                    q = os.path.realpath(p)
                    if q not in seen and q != w.root + "/out":
                        walk(p, seen + [q])

        walk(base, [os.path.realpath(base)])
        return n

    def stuck(self, w, spec, st):
        """An operation that keeps failing: the conversion ends, with or without an exception."""
        ref, _ = golden(w, spec)
        if ref["exc"]:
            st.trial(None, False)
            return []
        put_in(w, spec["project"])
        step = step_for(spec, faults=[spec["stuck"]], budget=4 * len(ref["ops"]) + 200, line_budget=3000000)
        r = w.process([step], env={"cwd": "@/cwd"}, disk=spec["knobs"])
        e = bad_end(r)
        tag = "%s on %s of %s fails with %s from the %d. time on" % ("every", "/".join(spec["stuck"]["on"]), spec["stuck"]["path"] or "anything", spec["stuck"]["kind"], spec["stuck"]["nth"] + 1)
        if e:
            return ["%s: %s" % (tag, e)]
        res = r["steps"][0]
        st.trial((pid(spec["project"]), json.dumps(spec["stuck"]), trace_sig(res)), nontrivial=bool(res["fired"]), sample={"stuck": spec["stuck"], "ended": res["exc"], "ops": len(res["ops"])})
        st.count("stuck:" + (res["exc"] or "ok"))
        return []

    def scale(self, w, spec, st):
        """Twice the project, twice the work."""
        out, pts = [], []
        src = [e for e in spec["project"].values() if "t" in e][:3] or [{"t": "import torch\n"}]
        sizes = (4, 8, 16, 32)
        if spec["shape"] == "scale_data":
            return self.scale_data(w, spec, st)
        for n in sizes:
            if spec["shape"] == "scale_deep":
                project = {"d/" * (i % 8) + "f%d.py" % i: src[i % len(src)] for i in range(n)}
            else:
                project = {"f%d.%s" % (i, "py" if i % 4 else "txt"): src[i % len(src)] for i in range(n)}
            r, snap = golden(w, spec, project=project)
            if r["exc"]:
                return ["project of %d copies: %s %s" % (n, r["exc"], r.get("msg"))] if r["exc"] == "BadEnd" else []
            pts.append((n, len(r["ops"]), len(snap)))
        st.trial((pid(spec["project"]), spec["shape"], tuple(pts)), sample={"shape": spec["shape"], "points (files, operations, outputs)": pts})
        a = (pts[1][1] - pts[0][1]) / 4.0
        b = (pts[3][1] - pts[2][1]) / 16.0
        if b > 1.6 * a + 3:
            out.append("operations grow faster than the project: (files, operations, outputs) = %s" % pts)
        if pts[3][2] > 33:
            out.append("more outputs than sources: %s" % pts)
        return out


    def scale_data(self, w, spec, st):
        """Small files, many of them: the lines of PaConvert executed for each do not depend on their number."""
        pts = []
        for n in (16, 32, 64, 128):
            project = {"%s%d.%s" % ("d/" if i % 3 else "", i, "txt" if i % 2 else "py"): {"t": "x\n"} for i in range(n)}
            put_in(w, project)
            r = w.process([step_for(spec, lines=True)], env={"cwd": "@/cwd"})
            if bad_end(r) or r["steps"][0]["exc"]:
                return ["project of %d small files: %s" % (n, bad_end(r) or r["steps"][0]["exc"])]
            pts.append((n, len(r["steps"][0]["ops"]), r["steps"][0]["lines"]))
        st.trial((spec["shape"], json.dumps(spec["opts"], sort_keys=True), tuple(pts)), sample={"shape": spec["shape"], "points (files, operations, lines)": pts})
        out = []
        for j, what in ((1, "operations"), (2, "executed lines")):
            a = (pts[1][j] - pts[0][j]) / 16.0
            b = (pts[3][j] - pts[2][j]) / 64.0
            if b > 1.6 * a + 3:
                out.append("%s grow faster than the project: (files, operations, lines) = %s" % (what, pts))
        return out


# ---------------------------------------------------------------------------------------------------------------- C11
def helper_defs(text):
    """Top-level definitions of helper text: {name: [dump, ...]} and the other statements."""
    defs, rest = {}, []
    for n in ast.parse(text).body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            defs.setdefault(n.name, []).append(ast.dump(n))
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            pass
        else:
            rest.append(ast.dump(n))
    return defs, rest


def helper_block(text):
    """The generated part of a file converted on its own."""
    lines = text.split("\n")
    a = [i for i, s in enumerate(lines) if s.startswith("####") and s.rstrip("# ").endswith("如下")]
    b = [i for i, s in enumerate(lines) if s.startswith("####") and s.rstrip("# ").endswith("如上")]
    if not a or not b:
        return None
    return "\n".join(lines[a[0] + 1: b[-1]])


def bag(text):
    """The helper statements of a text, whatever their order."""
    try:
        return sorted(ast.dump(n) for n in ast.parse(text).body if not isinstance(n, (ast.Import, ast.ImportFrom)))
    except SyntaxError:
        return None


def search_paths(text):
    """What the program adds to the module search path."""
    out = []
    try:
        tree = ast.parse(strip_marks(text))
    except (SyntaxError, ValueError):
        # the program as a whole is no Python: look at the lines that are
        for m in re.finditer(r"(?m)^\s*sys\.path\.(?:append|insert)\([\s\S]*?\)[ \t]*$", text):
            try:
                out += [n.value for n in ast.walk(ast.parse(m.group(0).strip())) if isinstance(n, ast.Constant) and isinstance(n.value, str)]
            except (SyntaxError, ValueError):
                pass
        return out
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("sys.path.append", "sys.path.insert") and n.args and isinstance(n.args[-1], ast.Constant) and isinstance(n.args[-1].value, str):
            out.append(n.args[-1].value)
    return out


def relied_on(text, source):
    """What converted code calls or derives from by a bare name that neither its source has nor it defines
    itself, and the private tensor methods it calls: (names, methods)."""
    try:
        t = ast.parse(strip_marks(text))
    except (SyntaxError, ValueError):
        return set(), set()  # the conversion is no Python: not about helpers
    known = set(dir(builtins)) | {"paddle", "Logic"} | set(re.findall(r"\w+", source))
    used, methods = set(), set()
    for n in ast.walk(t):
        if isinstance(n, ast.Name):
            if not isinstance(n.ctx, ast.Load):
                known.add(n.id)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                used.add(n.func.id)
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("_max", "_min"):
                methods.add(n.func.attr)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            known.add(n.name)
            used |= {b.id for b in getattr(n, "bases", ()) if isinstance(b, ast.Name)}
        elif isinstance(n, ast.arg):
            known.add(n.arg)
        elif isinstance(n, ast.alias):
            known.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            known.add(n.name)
    return used - known, {m for m in methods if m not in source and not adds_method(t, m)}


def adds_method(tree, name):
    """Does the program give a class the method?"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and ast.unparse(n.func) == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
            return True
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == name for x in n.targets):
            return True
    return False


LONG_IMPORTS = ["from collections.abc import (Mapping, MutableMapping, Sequence, MutableSequence, Iterable, Iterator, Generator)\n", "import os, sys, re, json, logging, collections, itertools, functools, operator, contextlib, importlib\n",
                "from os.path import join as path_join_function, exists as path_exists_function, dirname as path_dirname_function\n\nCONST = 1\nfrom os import sep\n", "import os\nfrom os import (  # what (is needed\n    path,\n    sep,  # )\n)\n", "#!/usr/bin/env python\n# from x import (\n\nimport os\n",
                "import os; import sys\n", "try:\n    import numpy\nexcept ImportError:\n    numpy = None\nimport os\n", '"""A (docstring\nfrom nowhere import (\n"""\nimport os\n', "import os as \\\n    o_s\nfrom os import sep, \\\n    path\n"]


class C11:
    id = "C11"

    def gen(self, rng, tier):
        if rng.random() < 0.4:
            project = gen.helpers_project(rng)
        else:
            project = gen.project(rng, n=rng.choice([1, 2, 4, 6]), tags=["h", "h", "h", "u", "t"], hidden=False)
        if rng.random() < 0.2:
            project["paddle_utils.py"] = {"t": rng.choice(["import torch\n\n\ndef my_own(x):\n    return torch.abs(x)\n\n\nCONST = 3\n", "def my_own(x):\n    return x\n\n\nCONST = 3\n", rng.choice(gen.corpus()["h"])])}
        if rng.random() < 0.15:
            project["pkg/paddle_utils.py"] = {"t": "import torch\n\n\ndef inner(x):\n    return torch.abs(x)\n"}
        for k in sorted(project):
            if "t" in project[k] and k.endswith(".py") and rng.random() < 0.2 and "__future__" not in project[k]["t"]:
                project[k] = {"t": rng.choice(LONG_IMPORTS) + project[k]["t"]}
        project = gen.drop_conflicts(project)
        trials = [{"knobs": gen.knobs(rng), "history": rng.choice([0, 0, 1, 2]), "hashseed": rng.choice([0, 1]), "stale": rng.random() < 0.3, "no_format": rng.random() < 0.7, "place": rng.choice(["out"] * 6 + ["it's", 'q"q', "back\\slash\\", "x', 'y", "{0}%s", "tab\there", "out.d/e", "名 ü", "#x"]),
                   "history_fault": gen.fault(rng) if rng.random() < 0.4 else None, "rel": rng.random() < 0.25} for _ in range(2)]
        return {"project": project, "opts": {"log_level": "WARNING"}, "trials": trials, "twice": rng.random() < 0.5, "formatted": rng.random() < 0.25}

    def run(self, w, spec, st):
        out = []
        pys = py_files(spec["project"])
        needs, single, blocks = {}, {}, []
        # each file on its own: its helpers must be in it
        for p in pys:
            put_in(w, spec["project"])
            step = {"in": "@/in/" + p, "out": "@/out/m.py", "opts": dict(spec["opts"], no_format=not spec.get("formatted"))}
            r = w.process([step], env={"cwd": "@/cwd"})
            if bad_end(r) or r["steps"][0]["exc"]:
                st.trial(None, False)
                return out
            data = w.snapshot("out").get("m.py")
            if data is None:
                out.append("%s on its own: no output" % p)
                return out
            text = data[1].decode()
            single[p] = text
            block = helper_block(text)
            needs[p] = helper_defs(block) if block else ({}, [])
            if block and block.strip() not in blocks:
                blocks.append(block.strip())
            if "paddle_utils" in text and "paddle_utils" not in src_text(spec["project"], p):
                out.append("%s on its own relies on a helper module" % p)
            for m in sorted(set().union(*relied_on(text, src_text(spec["project"], p)))):
                out.append("%s on its own: calls %s, which nothing defines" % (p, m))
            for m in self.single_ok(text, src_text(spec["project"], p)):
                out.append("%s on its own: %s" % (p, m))
            st.trial((hashlib.md5(text.encode()).hexdigest(), "single"), nontrivial=bool(block))
            if block and spec.get("twice"):
                # asking for the same helpers again must add nothing
                src = src_text(spec["project"], p)
                put_in(w, {p: {"t": src.replace("\r", "") + "\n" + src.replace("\r", "")}})
                r = w.process([step], env={"cwd": "@/cwd"})
                two = w.snapshot("out").get("m.py")
                if not bad_end(r) and not r["steps"][0]["exc"] and two:
                    b2 = helper_block(two[1].decode())
                    if b2 is None or bag(b2) != bag(block):
                        out.append("%s on its own: its code twice in a file gives other helpers than once: %s" % (p, diff_hint(block.encode(), b2 and b2.encode())))
        union, rest = {}, []
        for p in pys:
            for k, v in needs[p][0].items():
                union.setdefault(k, set()).update(v)
            rest += [x for x in needs[p][1] if x not in rest]
        # different helper texts may define the same function: how often can a name or statement occur at most?
        most, most_rest = {}, {}
        for b in blocks:
            if not any(b != c and b in c for c in blocks):
                d, r = helper_defs(b)
                for k, v in d.items():
                    most[k] = most.get(k, 0) + len(v)
                for x in r:
                    most_rest[x] = most_rest.get(x, 0) + 1
        if spec.get("twice") and union and "paddle_utils.py" not in pys:
            bags = []
            for project in (spec["project"], dict(spec["project"], **{p[:-3] + "_again.py": spec["project"][p] for p in pys})):
                r, tree = golden(w, spec, project=project, step={"in": "@/in", "out": "@/out", "opts": dict(spec["opts"], no_format=True)})
                u = tree.get("paddle_utils.py")
                bags.append(None if r["exc"] or u is None else bag(u[1].decode()))
            st.trial((pid(spec["project"]), "copies"))
            if bags[0] != bags[1]:
                out.append("a second copy of every file changes the helper module")
        for i, t in enumerate(spec["trials"]):
            put_in(w, spec["project"])
            place = t.get("place", "out")
            if t.get("stale"):
                w.put(place, {"paddle_utils.py": {"t": "def stale_helper():\n    pass\n"}})
            step = {"in": "@/in", "out": ("../" if t.get("rel") else "@/") + place, "opts": dict(spec["opts"], no_format=t["no_format"])}
            steps = []
            for j in range(t.get("history", 0)):
                h = dict(step, out="@/h%d" % j)
                if t.get("history_fault"):
                    h["faults"] = [{"on": [t["history_fault"]["cls"]], "path": "", "nth": j + 1, "kind": t["history_fault"]["kind"], "prefix": 0}]
                steps.append(h)
            r = w.process(steps + [step], env={"cwd": "@/cwd"}, disk=t["knobs"], hashseed=t["hashseed"])
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][-1]
            if res["exc"]:
                out.append("trial %d: fails: %s %s" % (i, res["exc"], res.get("msg")))
                continue
            snap = w.snapshot(place)
            st.trial((pid(spec["project"]), json.dumps(t, sort_keys=True)), nontrivial=bool(union), sample={"files": sorted(spec["project"]), "helpers": sorted(union)})
            st.count("helpers needed", len(union))
            tag = "trial %d" % i
            own = "paddle_utils.py" in pys
            util = snap.get("paddle_utils.py")
            if union or rest:
                if util is None:
                    out.append("%s: helpers %s are needed but there is no helper module" % (tag, sorted(union)))
                    continue
                try:
                    defs, got_rest = helper_defs(strip_marks(util[1].decode()))
                except (SyntaxError, ValueError) as ex:
                    out.append("%s: the helper module is no Python: %s" % (tag, ex))
                    continue
                for k in sorted(union):
                    c = defs.get(k, [])
                    if not c:
                        out.append("%s: helper %s is missing in the helper module" % (tag, k))
                    elif len(c) > most[k] and not own:
                        out.append("%s: helper %s is defined %d times in the helper module, %d times would do" % (tag, k, len(c), most[k]))
                    elif not (set(c) >= union[k]):
                        out.append("%s: helper %s has another text in the helper module" % (tag, k))
                if not own:
                    for k in sorted(set(defs) - set(union)):
                        out.append("%s: the helper module defines %s, which no file needs" % (tag, k))
                for x in rest:
                    if x not in got_rest:
                        out.append("%s: helper statement %s is missing in the helper module" % (tag, short(x, 80)))
                    elif got_rest.count(x) > most_rest[x] and not own:
                        out.append("%s: helper statement %s is repeated" % (tag, short(x, 80)))
                if not t.get("stale") and not own and b"stale" in util[1]:
                    out.append("%s: stale helper code" % tag)
            # and whatever the files on their own say: what a converted file relies on is in the helper module
            try:
                helper = util and ast.parse(strip_marks(util[1].decode()))
            except (SyntaxError, ValueError):
                helper = None
            for p in pys:
                text, src = snap[p][1].decode() if p in snap else "", src_text(spec["project"], p)
                names, methods = relied_on(text, src)
                st.count("files that rely on the helper module", bool(names or methods))
                if re.search(r"(?m)^\s*(from|import) paddle_utils\b", strip_marks(text)) and "paddle_utils" not in src and util is None:
                    out.append("%s: %s imports a helper module that is not there" % (tag, p))
                elif names or methods:
                    have = set() if helper is None else {n.name for n in helper.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
                    for k in sorted(names - have) + sorted(m for m in methods if helper is None or not adds_method(helper, m)):
                        out.append("%s: %s calls %s, which nothing defines" % (tag, p, k))
            if own:
                out += ["%s: %s" % (tag, m) for m in self.own_kept(src_text(spec["project"], "paddle_utils.py"), util)]
            for p in pys:
                if not needs[p][0] and not needs[p][1] or p == "paddle_utils.py":
                    continue
                text = snap[p][1].decode() if p in snap else ""
                if not re.search(r"(?m)^\s*from paddle_utils import \*", strip_marks(text)):
                    out.append("%s: %s relies on helpers but does not import the helper module" % (tag, p))
                paths = search_paths(text)
                if os.path.realpath(w.root + "/" + place) not in [os.path.realpath(x) for x in paths]:
                    out.append("%s: %s cannot reach the helper module (search path %s)" % (tag, p, [x.replace(w.root, "@") for x in paths]))
        return out

    def single_ok(self, text, source):
        try:
            t = ast.parse(strip_marks(text))
        except SyntaxError:
            try:
                blk = helper_block(text)
                if blk is None:
                    return []
                # does it parse without the helpers?
                ast.parse(strip_marks(text.replace(blk, "")))
            except SyntaxError:
                return []  # the conversion itself is no Python: not about helpers
            return ["the inserted helper code breaks the file"]
        block = helper_block(text)
        if block is None:
            return []
        if text.count("相关utils函数，如下") != 1 + source.count("相关utils函数，如下"):
            return ["the helper code was inserted %d times" % text.count("相关utils函数，如下")]
        names = helper_defs(block)[0]
        out = []
        top = [n.name for n in t.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
        src_top = [n.name for n in ast.parse(source).body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
        for k in names:
            want = len(names[k])
            if top.count(k) - src_top.count(k) != want:
                out.append("helper %s is defined %d times" % (k, top.count(k) - src_top.count(k)))
        first = text.split("相关utils函数，如下")[0].count("\n") + 1
        for n in t.body:
            # what runs before the helpers exist cannot use them
            if n.end_lineno < first and not isinstance(n, (ast.Import, ast.ImportFrom)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                out.append("the helper code comes after line %d, which may need it" % n.lineno)
                break
        return out

    def own_kept(self, source, util):
        if util is None:
            return ["the project's own paddle_utils.py has no output"]
        try:
            got = ast.parse(strip_marks(util[1].decode()))
        except (SyntaxError, ValueError):
            return ["the merged paddle_utils.py is no Python"]
        names = [n.name for n in ast.walk(got) if isinstance(n, (ast.FunctionDef, ast.ClassDef))] + [t.id for n in ast.walk(got) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)]
        out = []
        for n in ast.parse(source).body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name not in names:
                out.append("the project's own paddle_utils.py lost %s" % n.name)
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in names:
                out.append("the project's own paddle_utils.py lost %s" % n.targets[0].id)
        return out


# ---------------------------------------------------------------------------------------------------------------- C12
# files of a project with a C++ extension that do not use it
BYSTANDERS = {
    "by_class": "import torch\n\n\nclass MyFunc(torch.nn.Module):\n    def forward(self, x):\n        return torch.abs(x)\n\n\nclass LoadFunc(torch.autograd.Function):\n    @staticmethod\n    def forward(ctx, x):\n        return torch.sin(x)\n",
    "by_func": "import torch\nfrom torch.autograd import Function\n\n\nclass MyFunc(Function):\n    @staticmethod\n    def forward(ctx, x):\n        return x.exp()\n\n    @staticmethod\n    def backward(ctx, g):\n        return g.abs()\n",
    "by_plain": "import torch\nx = torch.ones(2).view(-1)\ny = obj.forward(x)\nz = obj.apply(x)\n",
    "by_attr": "import torch\n\n\ndef forward(x):\n    return torch.max(x, 0)\n\n\ndef backward(g):\n    return forward(g)\n",
}


class C12:
    id = "C12"

    def gen(self, rng, tier):
        c = gen.corpus()
        n = rng.choice([3, 8, 16, 24])
        if rng.random() < 0.15:
            project, sibs = gen.imports_project(rng)
            return {"project": project, "siblings": sibs, "opts": gen.options(rng, fmt=0.1), "trials": []}
        if rng.random() < 0.1:
            project, sibs = gen.shadows_elsewhere(rng)
            return {"project": project, "siblings": sibs, "far": True, "opts": gen.options(rng, fmt=0.1), "trials": []}
        if rng.random() < 0.2:
            project = gen.custom_op_project(rng)
            for i, k in enumerate(rng.sample(sorted(BYSTANDERS), 2)):
                project["%s%s.py" % (rng.choice(["", "sub/", "zz_"]), k)] = {"t": BYSTANDERS[k]}
            return {"project": gen.drop_conflicts(project), "opts": gen.options(rng, fmt=0.03), "trials": [], "check": 4}
        if rng.random() < 0.3:
            items = gen.sweep(rng, rng.choice([6, 10]), 4)
            project = {"%sw%03d.py" % (rng.choice(["", "qa/"]), i): {"t": code} for i, (_, code) in enumerate(items)}
            return {"project": project, "opts": gen.options(rng, fmt=0.0), "trials": [{"rename": rng.randrange(10**6), "knobs": gen.knobs(rng)}], "check": 4, "orders": True}
        groups = [c["groups"][rng.choice(c["gnames"])] for _ in range(rng.choice([1, 2, 4]))]
        project = {}
        for i in range(n):
            k = rng.random()
            code = rng.choice(rng.choice(groups)) if k < 0.55 else gen.snippet(rng)
            project["%sq%02d.py" % (rng.choice(["", "", "qa/", "qb/qc/"]), i)] = {"t": code}
        for i, rel in enumerate(rng.sample(sorted(project), min(len(project), rng.choice([0, 1, 2, 3])))):
            project["%s/%s%d.py" % (os.path.dirname(rel), rng.choice(["p", "q00z", "r"]), i) if "/" in rel else "p%d.py" % i] = {"t": gen.adversary(rng, project[rel]["t"])}
        opts = gen.options(rng, fmt=0.03)
        return {"project": project, "opts": opts, "trials": [{"rename": rng.randrange(10**6), "knobs": gen.knobs(rng)}], "check": rng.choice([4, 8])}

    def run(self, w, spec, st):
        import random

        out = []
        pys = py_files(spec["project"])
        solo = {}
        custom = any("my_ext" in src_text(spec["project"], p) or "cpp_extension" in src_text(spec["project"], p) for p in pys)
        g, want = golden(w, spec)
        if spec.get("siblings"):
            # modules that are imported exist or not
            r, got = golden(w, spec, project=dict(spec["project"], **spec["siblings"]))
            st.trial((pid(spec["project"]), pid(spec["siblings"])), sample={"siblings": sorted(spec["siblings"])})
            if (g["exc"] is None) != (r["exc"] is None) or g["ret"] != r["ret"] and not spec.get("far"):
                out.append("without the siblings %s the run gives %s %s, with them %s %s" % (sorted(spec["siblings"]), g["exc"], g["ret"], r["exc"], r["ret"]))
            for p in pys:
                if not g["exc"] and not r["exc"] and not same_text(want[p][1], got[p][1], src_text(spec["project"], p)):
                    out.append("%s without / with the siblings %s: %s" % (p, sorted(spec["siblings"]), diff_hint(want[p][1], got[p][1])))
            return out
        if g["exc"]:
            # some file alone must fail the same way
            for p in pys:
                put_in(w, spec["project"])
                r = w.process([dict(step_for(spec), exclude=only_regex(p, [q for q in pys if q != p]))], env={"cwd": "@/cwd"})
                if bad_end(r) or r["steps"][0]["exc"]:
                    st.trial(None, False)
                    return out
            return ["the project fails (%s %s) though every file alone converts" % (g["exc"], g.get("msg"))]
        tot = [0, 0]
        alone = pys
        if custom:  # files that have nothing to do with the extension
            alone = [p for p in pys if not re.search(r"my_ext|cpp_extension|ext_func|load_it|\bops\b", src_text(spec["project"], p))]
        if spec.get("orders"):
            alone = []
        for p in alone:
            put_in(w, spec["project"])
            step = dict(step_for(spec), exclude=only_regex(p, [q for q in pys if q != p])) if len(pys) > 1 else step_for(spec)
            r = w.process([step], env={"cwd": "@/cwd"})
            if bad_end(r) or r["steps"][0]["exc"]:
                out.append("%s alone fails: %s" % (p, bad_end(r) or (r["steps"][0]["exc"] + " " + r["steps"][0].get("msg", ""))))
                continue
            got = out_files(w, spec).get(p)
            tot = [a + b for a, b in zip(tot, r["steps"][0]["ret"])]
            solo[p] = (got, r["steps"][0]["ret"])
            st.trial((hashlib.md5(src_text(spec["project"], p).encode()).hexdigest(), pid(spec["project"])), sample={"file": p, "siblings": len(pys) - 1, "ret": r["steps"][0]["ret"]})
            if got is None or p not in want:
                out.append("%s: %s" % (p, diff_hint(got and got[1], want.get(p) and want[p][1])))
            elif not same_text(got[1], want[p][1], src_text(spec["project"], p)):
                out.append("%s alone / among %d siblings: %s" % (p, len(pys) - 1, diff_hint(got[1], want[p][1])))
        if not out and tot != g["ret"] and alone == pys and not custom:
            out.append("counts of the files alone add up to %s, of the project %s" % (tot, g["ret"]))
        if out:
            return out
        for i, t in enumerate(spec["trials"]):
            # another order of processing: other names
            rng = random.Random("rename:%s" % t["rename"])
            dirs = {}
            for p in pys:
                dirs.setdefault(os.path.dirname(p), []).append(p)
            names = {}
            for d, ps in dirs.items():
                perm = ps[:]
                rng.shuffle(perm)
                names.update(zip(ps, perm))
            project = {names[p]: spec["project"][p] for p in pys}
            r, got = golden(w, spec, project=project)
            if r["exc"]:
                out.append("trial %d: fails in another order: %s %s" % (i, r["exc"], r.get("msg")))
                continue
            st.trial((pid(project), "order"))
            if r["ret"] != g["ret"]:
                out.append("trial %d: counts %s in another order, %s before" % (i, r["ret"], g["ret"]))
            for p in pys:
                a, b = want[p][1], got.get(names[p], (None, b""))[1]
                if not same_text(a, b, src_text(spec["project"], p)):
                    out.append("trial %d: %s in another order: %s" % (i, p, diff_hint(a, b)))
        return out


# ---------------------------------------------------------------------------------------------------------------- C13
class C13:
    id = "C13"
    EXC = ["ValueError", "RuntimeError", "RecursionError", "MemoryError", "OSError", "KeyError", "AssertionError", "UnicodeDecodeError", "ImportError", "StopIteration", "SyntaxError", "TypeError", "AttributeError", "IndexError", "NotImplementedError",
           "EOFError", "ZeroDivisionError", "TimeoutError", "Exception", "FormatterCrash", "InvalidInput",
           "ValueError()", "AssertionError()", "RecursionError()", "OSError()", "ValueError{}", "FormatterCrash{}", "KeyError{}"]

    def gen(self, rng, tier):
        project = any_project(rng, n=rng.choice([1, 2, 3, 4]))
        spec = {"project": project, "opts": {"log_level": rng.choice(["INFO", "WARNING"])}}
        if rng.random() < 0.3:
            spec["single"] = pick_single(rng, project)
        trials = []
        for _ in range(rng.choice([4, 5])):
            k = rng.random()
            if k < 0.35:
                plan = {"black": {"*": rng.choice(self.EXC)}, "isort": {"*": rng.choice(self.EXC)}}
            elif k < 0.5:
                plan = {"black": {"*": rng.choice(self.EXC)}}
            elif k < 0.65:
                plan = {"isort": {"*": rng.choice(self.EXC)}}
            else:
                plan = {"black": {str(rng.randrange(5)): rng.choice(self.EXC)}, "isort": {str(rng.randrange(6)): rng.choice(self.EXC)}}
            trials.append({"plan": plan, "knobs": gen.knobs(rng)})
        spec["trials"] = trials
        return spec

    def run(self, w, spec, st):
        out = []
        g, want = golden(w, spec)
        if g["exc"]:
            st.trial(None, False)
            return out
        nf = dict(spec, opts=dict(spec["opts"], no_format=True))
        ng, nwant = golden(w, nf)
        for i, t in enumerate(spec["trials"]):
            put_in(w, spec["project"])
            r = w.process([dict(step_for(spec), format=t["plan"])], env={"cwd": "@/cwd"}, disk=t["knobs"])
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][0]
            tag = "trial %d (failures %s)" % (i, short(t["plan"], 120))
            st.trial((pid(spec["project"]), json.dumps(t["plan"], sort_keys=True)), nontrivial=bool(res["fmt_fired"]), sample={"files": sorted(spec["project"]), "plan": t["plan"], "fired": res["fmt_fired"]})
            if res["exc"]:
                out.append("%s: the run fails: %s %s" % (tag, res["exc"], res.get("msg")))
                continue
            if res["ret"] != g["ret"]:
                out.append("%s: counts %s instead of %s" % (tag, res["ret"], g["ret"]))
            got = out_files(w, spec)
            differ = [k for k in want if want[k] != got.get(k)]
            if len(differ) > len(res["fmt_fired"]):
                out.append("%s: %d formatter calls failed, but %d outputs differ from those with working formatters: %s" % (tag, len(res["fmt_fired"]), len(differ), differ[:4]))
            both = t["plan"].get("black", {}).get("*") and t["plan"].get("isort", {}).get("*")
            for k in sorted(set(want) | set(got)):
                a, b = want.get(k), got.get(k)
                if a is None or b is None:
                    out.append("%s: %s is %s" % (tag, k, "missing" if b is None else "unexpected"))
                    continue
                if a == b:
                    continue
                isp = k.endswith(".py") or k == ""
                if not isp:
                    out.append("%s: %s differs" % (tag, k))
                elif both:
                    helperized = k == "paddle_utils.py" or spec.get("single")
                    x = nwant.get(k)
                    if x is None or (x[1] != b[1] and not (helperized and same_program(x[1], b[1]))):
                        out.append("%s: %s is not the unformatted conversion: %s" % (tag, k, diff_hint(x and x[1], b[1])))
                elif not same_program(a[1], b[1]):
                    out.append("%s: %s is another program: %s" % (tag, k, diff_hint(a[1], b[1])))
        return out


def same_program(a, b):
    """Same syntax tree, whatever the formatting and the order of imports."""
    return canon(a) == canon(b)


def canon(data):
    text = data.decode("utf-8", "replace")
    try:
        t = ast.parse(strip_marks(text))
    except (SyntaxError, ValueError):
        # marks inside brackets or strings: compare without layout
        return re.sub(r"[\s()\\,'\"]+|>>>>>>", "", "".join(sorted(text.split())))
    imports = set()

    class Strip(ast.NodeTransformer):
        def visit_Import(self, n):
            for a in n.names:
                imports.add(("i", a.name, a.asname))
            return None

        def visit_ImportFrom(self, n):
            for a in n.names:
                imports.add(("f", n.level, n.module, a.name, a.asname))
            return None

        def visit_Expr(self, n):
            # docstrings may be re-indented, annotations are kept
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                n.value.value = " ".join(n.value.value.split())
            return self.generic_visit(n)

    t = Strip().visit(t)
    return ast.dump(t), sorted(imports, key=repr)


# ---------------------------------------------------------------------------------------------------------------- C14
class C14:
    id = "C14"

    def gen(self, rng, tier):
        project = any_project(rng, n=rng.choice([1, 2, 3]), p_custom=0.15, tags=rng.choice([None, ["h"], ["u", "h"], ["t"]]))
        probe = any_project(rng, n=rng.choice([1, 2]), p_custom=0.1, tags=rng.choice([None, ["h"], ["t"]]), hidden=False)
        spec = {"projects": [project, probe], "opts": gen.options(rng, fmt=0.1)}
        spec["single"] = rng.random() < 0.25
        for k in ("log_markdown", "show_all_api", "show_unalign_api", "show_unsupport_api", "calculate_speed"):
            if rng.random() < 0.15:
                spec["opts"][k] = True
        both = dict(project, **probe)
        fits = spec["single"] or gen.drop_conflicts(both) == both  # the second project may go where the first one went
        trials = []
        for _ in range(rng.choice([10, 14])):
            k = rng.random()
            t = {"exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "KeyboardInterrupt", "SystemExit"]), "probe": rng.choice([0, 0, 1, 2] if fits else [0, 0, 1])}
            if k < 0.35:
                t["frac"] = round(rng.random(), 5)
            elif k < 0.72:
                t["site"] = round(rng.random(), 5)  # any line of the code that is executed, however rarely
            elif k < 0.77:
                t["tail"] = round(rng.random(), 5)  # when the files are written
            elif k < 0.92:
                t["op"] = {"cls": "any", "frac": round(rng.random(), 4), "kind": "interrupt"}
            else:
                t["fmt"] = rng.choice(["black", "isort"])
            trials.append(t)
        spec["trials"] = trials
        return spec

    def disk(self, w, spec):
        w.wipe()
        w.put("cwd/a/b", {"keep": {"t": "x"}})
        for i, p in enumerate(spec["projects"]):
            w.put("p%d" % i, p)

    def run(self, w, spec, st):
        out = []
        steps, gold = [], []
        for i in (0, 1, 2) if any(t["probe"] == 2 for t in spec["trials"]) else (0, 1):
            c = py_files(spec["projects"][min(i, 1)])
            s = {"in": "@/p%d" % min(i, 1), "out": "@/o%d" % (i % 2), "opts": spec["opts"]}
            if spec.get("single") and c:
                s["in"] += "/" + c[0]
                s["out"] += ".py"
            steps.append(s)
            self.disk(w, spec)
            r = w.process([dict(s, lines=True, sites=i == 0)], env={"cwd": "@/cwd/a/b"})
            if bad_end(r) or r["steps"][0]["exc"]:
                st.trial(None, False)
                return out
            gold.append((r["steps"][0], {k: (v[0], w.text(v[1])) for k, v in files(w.snapshot(s["out"][2:])).items()}))
        n = gold[0][0]["lines"]
        sites = gold[0][0]["sites"]
        for i, t in enumerate(spec["trials"]):
            self.disk(w, spec)
            first = dict(steps[0])
            exp = t["exc"]
            if "tail" in t:
                first["inject"] = {"line": max(1, n - int(t["tail"] * 150)), "exc": t["exc"]}
            elif "site" in t:
                first["inject"] = {"line": sites[int(t["site"] * len(sites))], "exc": t["exc"]}
            elif "frac" in t:
                first["inject"] = {"line": 1 + int(t["frac"] * n), "exc": t["exc"]}
            elif "op" in t:
                first["faults"] = gen.resolve([t["op"]], gold[0][0]["ops"][: gold[0][0]["n_ops_run"]])
                exp = "KeyboardInterrupt"
            else:
                first["format"] = {t["fmt"]: {"*": t["exc"]}}
            pr = t["probe"]
            src0 = {k: v for k, v in w.snapshot().items() if k.startswith(("p0", "p1"))}
            r = w.process([first, steps[pr]], env={"cwd": "@/cwd/a/b"})
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            a, b = r["steps"]
            hit = bool(a.get("where") or a["fired"] or a["fmt_fired"])
            where = a.get("where") or (a["fired"] and "%s %s" % tuple(a["fired"][0][1:3])) or "formatter"
            st.trial((pid(spec["projects"][0]), where, pr), nontrivial=hit, sample={"interrupt": where, "ended": a["exc"]})
            if hit:
                st.count("interrupted at " + re.sub(r":[^:]*$", "", where) if "+" in where else "interrupted at I/O")
            tag = "trial %d (interrupt at %s)" % (i, where)
            if hit and a["exc"] != exp and not (a.get("where") or "").endswith("__del__"):
                if not in_del(a.get("where")):
                    out.append("%s: the interrupt was swallowed, the run ended with %s" % (tag, a["exc"] or "success"))
            src1 = {k: v for k, v in w.snapshot().items() if k.startswith(("p0", "p1"))}
            if src0 != src1:
                out.append("%s: sources changed" % tag)
            g, want = gold[pr]
            got = {k: (v[0], w.text(v[1])) for k, v in files(w.snapshot(steps[pr]["out"][2:])).items()}
            if b["exc"]:
                out.append("%s: the next conversion fails: %s %s" % (tag, b["exc"], b.get("msg")))
                continue
            if b["ret"] != g["ret"]:
                out.append("%s: the next conversion has counts %s, in a fresh process %s" % (tag, b["ret"], g["ret"]))
            project = spec["projects"][min(pr, 1)]
            if "" in want:
                project = {"": {"t": src_text(project, py_files(project)[0])}}
            for m in compare_trees(want, got, project, exact=False)[:2]:
                out.append("%s: the next conversion: %s" % (tag, m))
        return out


def in_del(where):
    return bool(where) and "__del__" in where


# ---------------------------------------------------------------------------------------------------------------- C15
class C15:
    id = "C15"

    def gen(self, rng, tier):
        n = rng.choice([2, 3, 4])
        versions = []
        names = ["a.py", "pkg/b.py", "c.py", "requirements.txt", "data.bin", "zz.py", "pkg/notes.txt"]
        rng.shuffle(names)
        names = names[: n + 2]
        heads = {nm: rng.choice(["VERSION = %d  # %d\n", "#!/opt/v%d/python\nVERSION = %d\n", '"""Version %d."""\nVERSION = %d\n', "# -*- coding: utf-8 -*-\n# v%d\nVERSION = %d\n", "from __future__ import annotations\nA, VERSION = %d, %d\n"]) for nm in names}
        for v in range(3):
            t = {}
            for nm in names:
                if nm.endswith(".py"):
                    code = gen.module(rng).replace("\r", "")
                    while re.search(r"(?m)^\s*(import|from)\s.*\b(a|b|c|zz|aa|added|pkg)\b", code):
                        code = gen.module(rng).replace("\r", "")  # whether a module of the project exists may matter
                    if rng.random() < 0.15:
                        code = rng.choice(["", gen.HAND["no_torch"], "x = 1\n" * 500])
                    t[nm] = {"t": heads[nm] % (v, v) + code}
                elif nm == "requirements.txt":
                    t[nm] = {"t": rng.choice(["torch==%d.0\n", "torch==%d.0\n", "numpy==%d.0\n", "x%d\n" * 400 + "torch\n"]).replace("%d", str(v)) + "x\n" * rng.choice([0, 1, 900])}
                else:
                    t[nm] = {"t": ("v%d torch\n" % v) * rng.choice([1, 50, 2000])}
            versions.append(t)
        trials = []
        for _ in range(rng.choice([5, 7])):
            edits = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.random()
                nm = rng.choice(names)
                if k < 0.75:
                    e = ["put", nm, rng.choice([1, 2])]
                elif k < 0.87:
                    e = ["del", nm, None]
                else:
                    e = ["new", rng.choice(["added.py", "pkg/added.txt", "aa.py"]), 1]
                edits.append({"frac": round(rng.random(), 4), "edit": e})
                if rng.random() < 0.6:
                    edits[-1]["after"] = rng.choice([0, 1, 1, 2, 3])
            trials.append({"edits": edits, "knobs": gen.knobs(rng)})
        spec = {"versions": versions, "opts": gen.options(rng, fmt=0.08), "trials": trials}
        if rng.random() < 0.15:  # one of the files alone
            spec["single"] = rng.choice(names)
            spec["single_out"] = "@/out/" + spec["single"]
            for t in trials:
                for e in t["edits"]:
                    e["edit"] = ["put", spec["single"], rng.choice([1, 2])]
        return spec

    def run(self, w, spec, st):
        out = []
        conv = []
        g = None
        for v in spec["versions"]:
            r, o = golden(w, spec, project=v)
            if r["exc"]:
                st.trial(None, False)
                return out
            g = g or r
            conv.append(o)
        for i, t in enumerate(spec["trials"]):
            put_in(w, spec["versions"][0])
            edits, hist, gone = [], {k: {0} for k in spec["versions"][0]}, set()
            new = set()
            for e in sorted(t["edits"], key=lambda e: e["frac"]):
                verb, nm, v = e["edit"]
                op = int(e["frac"] * len(g["ops"]))
                near = [k for k, (_, q) in enumerate(g["ops"]) if q in ("in/" + nm, "out/" + nm)] if "after" in e else []
                if near:
                    op = near[int(e["frac"] * len(near))] + e["after"]
                if verb == "put" and nm in spec["versions"][v]:
                    edits.append({"op": op, "edit": [["put", "in/" + nm, content(spec["versions"][v][nm])]]})
                    hist[nm].add(v)
                elif verb == "del" and nm in hist:
                    edits.append({"op": op, "edit": [["del", "in/" + nm, None]]})
                    gone.add(nm)
                elif verb == "new":
                    edits.append({"op": op, "edit": [["put", "in/" + nm, b"import torch\nx = torch.abs(y)\n"]]})
                    new.add(nm)
            r = w.process([dict(step_for(spec), edits=edits)], env={"cwd": "@/cwd"}, disk=t["knobs"])
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][0]
            got = out_files(w, spec)
            st.trial((pid(spec["versions"][0]), json.dumps(t["edits"], sort_keys=True), trace_sig(res)), nontrivial=bool(res["fired"]), sample={"edits": t["edits"], "ended": res["exc"]})
            st.count("ended:" + (res["exc"] or "ok"))
            tag = "trial %d (edits %s)" % (i, short([x["edit"] for x in t["edits"]], 120))
            if res["exc"]:
                if not gone:
                    out.append("%s: the run fails: %s %s" % (tag, res["exc"], res.get("msg")))
                continue
            for nm in sorted(hist):
                if nm not in got:
                    if nm not in gone and spec.get("single", nm) == nm:
                        out.append("%s: %s, which existed throughout, has no output" % (tag, nm))
                    continue
                if not any(same_text(conv[v][nm][1], got[nm][1], src_text(spec["versions"][v], nm)) for v in hist[nm]):
                    out.append("%s: output %s is the conversion of none of its versions %s: %s" % (tag, nm, sorted(hist[nm]), diff_hint(conv[0][nm][1], got[nm][1])))
            for nm in sorted(set(got) - set(hist) - new - {"paddle_utils.py"}):
                out.append("%s: unexpected output %s" % (tag, nm))
        return out


# ---------------------------------------------------------------------------------------------------------------- C16
class C16:
    id = "C16"

    def gen(self, rng, tier):
        project = any_project(rng, p_custom=0.12)
        base = gen.options(rng, fmt=0.15)
        base.pop("log_level")
        cli = base.get("_cli")
        spec = {"project": project, "opts": base}
        if cli and rng.random() < 0.25:
            spec["project"] = {"one/" + k: v for k, v in project.items()}
            base["separate_convert"] = True
        elif rng.random() < 0.2:
            spec["single"] = pick_single(rng, project)
        trials = []
        for _ in range(rng.choice([6, 8])):
            o = {"log_level": rng.choice(["DEBUG", "INFO", "WARNING"] if cli else ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"])}
            d = rng.choice([None, None, "disable", "@/cwd/run.log", "@/cwd/run.log"])
            if d:
                o["log_dir"] = d
            for k in ("log_markdown", "show_all_api", "show_unalign_api", "show_unsupport_api", "calculate_speed"):
                if rng.random() < 0.5:
                    o[k] = True
            t = {"opts": o, "clock": {"mode": rng.choice(["normal", "frozen", "back", "jump", "coarse"]), "seed": rng.randrange(10**6), "start": rng.choice([None, None, 0, 2**31 + 5, 2.5e11])}, "pandas": rng.choice(["ok", "ok", "fail", "missing"])}
            if d and d.startswith("@") and rng.random() < 0.7:
                t["faults"] = [{"on": rng.choice([["write"], ["write"], ["close_w"]]), "path": "cwd/run.log", "nth": rng.choice([0, 1, 2, 5, 20]), "kind": rng.choice(["ENOSPC", "EIO"]), "prefix": rng.choice([0, 0.5]), "sticky": rng.random() < 0.6}]
            if d is None and rng.random() < 0.3:
                t["bad_stderr"] = True
            if rng.random() < 0.3:
                t["encoding"] = rng.choice(["ascii", "latin-1"])
            trials.append(t)
        spec["trials"] = trials
        return spec

    def run(self, w, spec, st):
        out = []
        g, want = golden(w, spec, step=step_for(spec, opts=dict(spec["opts"], log_level="WARNING" if spec["opts"].get("_cli") else "CRITICAL")))
        for i, t in enumerate(spec["trials"]):
            put_in(w, spec["project"])
            step = step_for(spec, opts=dict(spec["opts"], **t["opts"]), faults=t.get("faults") or [], bad_stderr=t.get("bad_stderr"))
            r = w.process([step], env={"cwd": "@/cwd", "clock": t["clock"], "pandas": t["pandas"], "encoding": t.get("encoding")})
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            res = r["steps"][0]
            st.trial((pid(spec["project"]), json.dumps(t, sort_keys=True)), sample={"files": sorted(spec["project"]), "trial": t})
            for k in sorted(t["opts"]):
                st.count("option:%s=%s" % (k, t["opts"][k]))
            st.count("clock:" + t["clock"]["mode"])
            tag = "trial %d (%s)" % (i, short(t, 220))
            if (res["exc"] is None) != (g["exc"] is None):
                out.append("%s: ends with %s %s, without diagnostics with %s" % (tag, res["exc"] or "success", res.get("msg", ""), g["exc"] or "success"))
                continue
            if g["exc"]:
                continue
            if res["ret"] != g["ret"]:
                out.append("%s: counts %s, without diagnostics %s" % (tag, res["ret"], g["ret"]))
            for m in compare_trees(want, out_files(w, spec), spec["project"], extra_ok=False)[:2]:
                out.append("%s: %s" % (tag, m))
        return out


# ---------------------------------------------------------------------------------------------------------------- C17
class C17:
    id = "C17"

    def gen(self, rng, tier):
        project = any_project(rng, n=rng.choice([1, 2, 3, 5]))
        spec = {"project": project, "opts": gen.options(rng, fmt=0.1)}
        if rng.random() < 0.25:
            spec["single"] = pick_single(rng, project)
        if rng.random() < 0.5:
            spec["opts"]["log_dir"] = "@/cwd/x.log"
        if rng.random() < 0.3:
            spec["opts"]["show_all_api"] = True
        trials = []
        for _ in range(rng.choice([8, 10])):
            k = rng.random()
            t = {"faults": [] if k < 0.1 else [gen.fault(rng) for _ in range(rng.choice([1, 1, 2]))], "repeat": rng.choice([1, 1, 3, 6]), "knobs": gen.knobs(rng)}
            if k > 0.85:
                t["damage"] = rng.choice(sorted(C03.DAMAGE))
            if rng.random() < 0.3:
                t["log"] = {"on": rng.choice([["write"], ["write"], ["close_w"], ["write", "close_w"]]), "nth": rng.choice([0, 1, 3, 10, 30]), "kind": rng.choice(["ENOSPC", "EIO"]), "prefix": 0, "sticky": rng.random() < 0.7}
            trials.append(t)
        spec["trials"] = trials
        return spec

    def run(self, w, spec, st):
        import base64

        out = []
        g, want = golden(w, spec)
        for i, t in enumerate(spec["trials"]):
            project = spec["project"]
            if t.get("damage") and not spec.get("single"):
                project = dict(project, **{"mm_damage.py": {"b": base64.b64encode(C03.DAMAGE[t["damage"]]).decode()}})
            put_in(w, project)
            faults = gen.resolve(t["faults"], g["ops"], keep=lambda p: not p.startswith("cwd/x.log"))
            if t.get("log") and spec["opts"].get("log_dir"):
                faults.append(dict(t["log"], path="cwd/x.log"))
            steps = [dict(step_for(spec), faults=faults) for _ in range(t["repeat"])]
            r = w.process(steps, env={"cwd": "@/cwd"}, disk=t["knobs"])
            e = bad_end(r)
            if e:
                out.append("trial %d: %s" % (i, e))
                continue
            for j, res in enumerate(r["steps"]):
                st.trial((pid(project), j, trace_sig(res)), sample={"files": sorted(project), "faults": faults, "ended": res["exc"]})
                st.count("ended:" + (res["exc"] or "ok"))
                tag = "trial %d, conversion %d (%s, ended with %s)" % (i, j + 1, short(faults or "no fault", 100), res["exc"] or "success")
                still = [p for p in res["open_at_exit"] if p != "cwd/x.log"]
                if still:
                    out.append("%s: project files are still open: %s" % (tag, still))
                if res["open_after"]:
                    out.append("%s: files are open after the converter was discarded: %s" % (tag, res["open_after"]))
                leak = [f for f in res["fds"] if "pipe:" not in f[1]]
                if leak:
                    out.append("%s: leaked descriptors: %s" % (tag, [f[1].replace(w.root, "@") for f in leak][:3]))
        return out


ALL = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17)}
