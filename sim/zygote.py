"""A pristine interpreter with PaConvert imported, from which every simulated process is forked.

Started as `python -m sim.zygote` with the hash seed in the environment. Reads pickled requests from stdin and writes
pickled results to stdout. One request is one simulated process: the child activates the seams, executes the steps of
the request (conversions, one after the other, or in scheduled threads) and reports what happened.
"""
import gc
import io
import os
import pickle
import signal
import struct
import sys
import time

REPO = os.environ.get("SIM_REPO", "/repo")


def _send(fd, obj):
    data = pickle.dumps(obj, 4)
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[_W(fd, data):]


def _recv(fd):
    head = _read_n(fd, 8)
    if head is None:
        return None
    return pickle.loads(_read_n(fd, struct.unpack("<Q", head)[0]))


def _read_n(fd, n):
    out = []
    while n:
        b = _R(fd, min(n, 1 << 20))
        if not b:
            return None
        out.append(b)
        n -= len(b)
    return b"".join(out)


_W, _R = os.write, os.read


class BadStream(io.StringIO):
    """A standard error stream whose disk is full."""

    def write(self, s):
        raise OSError(28, "No space left on device")

    def flush(self):
        raise OSError(28, "No space left on device")


def _stub_pandas(mode, record):
    import types

    if mode == "missing":
        sys.modules["pandas"] = None  # import pandas raises ImportError
        return
    m = types.ModuleType("pandas")

    class DataFrame:
        def __init__(self, data=None, columns=None, **k):
            self.data, self.columns = data, columns

        @classmethod
        def from_dict(cls, d, **k):
            return cls(list(d.items()))

        def to_excel(self, file, **k):
            if mode == "fail":
                raise OSError(28, "No space left on device", file)
            record.append((str(file), [tuple(r) for r in self.data]))
            with open(file, "wb") as f:
                f.write(repr([tuple(r) for r in self.data]).encode("utf-8", "replace"))

    m.DataFrame = DataFrame
    sys.modules["pandas"] = m


START = None  # working directory of the simulated process


class Child:
    def __init__(self, req, out_fd):
        self.req, self.out_fd = req, out_fd
        self.root = req["root"].rstrip("/")
        self.results = []
        self.kept = []
        self.cur = None
        self.excel = []

    def path(self, p):
        if p is None:
            return None
        return self.root + p[1:] if p.startswith("@") else p

    def finish(self, extra=None):
        r = {"steps": self.results, "clock": self.clock.simulated, "clock_reads": self.clock.reads}
        r.update(extra or {})
        _send(self.out_fd, r)
        os._exit(0)

    def crash(self):
        self.cur["crashed"] = True
        self._collect(self.cur, self.disk)
        self.finish({"crashed": True})

    @staticmethod
    def _collect(res, disk):
        res["ops"], res["fired"], res["legal"], res["writes"] = disk.ops, disk.fired, disk.legal, disk.writes
        res["written"] = sorted(set(disk.rel(p) for p in disk.written))

    def run(self):
        from . import sched, seams

        req, env = self.req, self.req.get("env") or {}
        sys.addaudithook(seams.audit)
        c = env.get("clock") or {}
        self.clock = seams.CLOCK = seams.Clock(c.get("mode", "normal"), c.get("seed", 0), c.get("start"))
        seams.ENCODING = env.get("encoding")
        for k, v in (env.get("environ") or {}).items():
            os.environ[k] = v
        if "TZ" in (env.get("environ") or {}):
            time.tzset()
        if env.get("encoding"):
            import locale

            locale.getpreferredencoding = lambda *a: env["encoding"]
            locale.getencoding = lambda: env["encoding"]
        import random

        random.seed(env.get("random", 0))
        seams.ENTROPY = random.Random("entropy:%s" % env.get("random", 0))
        seams.IDENTITY.update({"pid": 4242, "host": "sim", "cpus": 4}, **(env.get("identity") or {}))
        if env.get("umask") is not None:
            os.umask(env["umask"])
        _stub_pandas(env.get("pandas", "ok"), self.excel)
        os.chdir(self.path(env.get("cwd", "@")))
        global START
        START = os.getcwd()
        if "threads" in req:
            self.threads(sched, seams)
        else:
            for i, step in enumerate(req["steps"]):
                if step.get("pre"):  # what other programs did to the files since the last conversion
                    apply_edit(self.root, step["pre"])
                if step.get("snap"):
                    self.results.append({"snap": snapshot(self.root)})
                self.step(step, sched, seams)
        seams.DISK = None
        self.finish()

    def make_disk(self, seams, step):
        d = seams.Disk(self.root, dict(self.req.get("disk") or {}), step.get("faults") or (), [], step.get("budget", 100000))
        for e in step.get("edits") or ():
            d.edits.setdefault(e["op"], []).append({"do": lambda e=e: apply_edit(self.root, e["edit"])})
        d.on_crash = self.crash
        return d

    def step(self, step, sched, seams):
        res = self.cur = {"ret": None, "exc": None}
        self.results.append(res)
        gc.collect()
        fds0 = _fds()
        seams.DISK = None
        self.disk = disk = self.make_disk(seams, step)
        fmt = seams.FORMAT = seams.FormatPlan(step.get("format") or {})
        n_excel = len(self.excel)
        out, err = io.StringIO(), (BadStream() if step.get("bad_stderr") else io.StringIO())
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        inj = step.get("inject")
        lines = None
        if inj or step.get("lines") or step.get("line_budget"):
            exc = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit}
            lines = sched.Lines(at=inj["line"] if inj else None, exc=exc[inj["exc"]]("injected") if inj else None, budget=step.get("line_budget"), sites=step.get("sites"))
        conv = None
        seams.DISK = disk
        try:
            try:
                if lines:
                    sched.start(lines)
                conv, res["ret"] = convert(step, self.path, res)
            finally:
                if lines:
                    sched.stop()
        except BaseException as e:  # noqa: B902
            res["exc"], res["msg"] = type(e).__name__, str(e)[:300].replace(self.root, "@")
            res["open_at_exit"] = sorted(set(disk.rel(p) for p in disk.handles.values()) | set(disk.rel(p) for p, _ in disk.fds.values()))
            e = None
        else:
            res["open_at_exit"] = sorted(set(disk.rel(p) for p in disk.handles.values()) | set(disk.rel(p) for p, _ in disk.fds.values()))
        sys.stdout, sys.stderr = so, se
        res["n_ops_run"] = len(disk.ops)
        if step.get("keep"):
            self.kept.append(conv)
        conv = None  # noqa: F841 - the converter is discarded
        del conv
        gc.collect()
        res["open_after"] = sorted(disk.rel(p) for p in disk.handles.values()) + sorted(disk.rel(p) for p, _ in disk.fds.values())
        seams.DISK = None
        seams.FORMAT = None
        res["fds"] = [f for f in _fds() if f not in fds0]
        res["out"], res["log"] = out.getvalue().replace(self.root, "@"), err.getvalue().replace(self.root, "@")
        res["fmt_calls"], res["fmt_fired"] = dict(fmt.calls), fmt.fired
        res["excel"] = self.excel[n_excel:]
        if lines:
            res["lines"], res["where"] = lines.n, lines.where
            if lines.sites is not None:
                res["sites"] = sorted(lines.sites.values())
        self._collect(res, disk)

    def threads(self, sched, seams):
        t = self.req["threads"]
        self.cur = {}
        self.disk = disk = self.make_disk(seams, t)
        seams.FORMAT = seams.FormatPlan({})
        out, err = io.StringIO(), io.StringIO()
        so, se = sys.stdout, sys.stderr
        results = [{"ret": None, "exc": None} for _ in t["jobs"]]

        def body(i):
            def f():
                try:
                    conv, results[i]["ret"] = convert(t["jobs"][i], self.path, results[i], True)
                except sched.SimDeadlock:
                    raise
                except BaseException as e:
                    results[i]["exc"], results[i]["msg"] = type(e).__name__, str(e)[:300].replace(self.root, "@")
                return None

            return f

        s = sched.Sched([body(i) for i in range(len(t["jobs"]))], t["sched"])
        sys.stdout, sys.stderr = out, err
        seams.DISK = disk
        for k, r in enumerate(s.run()):
            if r:
                results[k].update(r)
        seams.DISK = None
        sys.stdout, sys.stderr = so, se
        self.results = results
        for r in results:
            self._collect(r, disk)
        self.finish({"switches": s.switches, "sites": sorted(s.sites), "sched_steps": s.step, "deadlock": s.deadlock})


def convert(step, path, res, threaded=False):
    """One conversion. Returns the converter (to keep it alive) and its counts."""
    from paconvert.converter import Converter

    opts = dict(step.get("opts") or {})
    cli = opts.pop("_cli", False)
    if opts.pop("_rel", False):
        # the user names everything relative to the directory the process was started in
        real = path
        path = lambda p: os.path.relpath(real(p), START) if p is not None and p.startswith("@") else real(p)  # noqa: E731
    if isinstance(opts.get("log_dir"), str) and opts["log_dir"] != "disable":
        opts["log_dir"] = path(opts["log_dir"])
    if step.get("entry") == "cli":
        return None, main([path(a) for a in step["argv"]], Converter, res)
    if cli and not threaded:
        return None, main(argv(step, opts, path), Converter, res)
    conv = Converter(**opts)
    res["constructed"] = True
    ret = conv.run(path(step["in"]), path(step.get("out")), step.get("exclude"))
    res["rate"] = getattr(conv, "convert_rate", None)
    return conv, list(ret)


def argv(step, opts, path):
    a = ["--in_dir=" + path(step["in"])]
    if step.get("out") is not None:
        a.append("--out_dir=" + path(step["out"]))
    if step.get("exclude"):
        a.append("--exclude=" + step["exclude"])
    for k, v in sorted(opts.items()):
        if v is True:
            a.append("--" + k)
        elif v not in (False, None):
            a.append("--%s=%s" % (k, v))
    return a


def main(args, Converter, res):
    """The command line entry point. What the converters of the run return is recorded on the way."""
    import paconvert.main as m

    real, rets = Converter.run, []

    def run(self, *a, **k):
        res["constructed"] = True
        r = real(self, *a, **k)
        rets.append(list(r))
        res["rate"] = getattr(self, "convert_rate", None)
        return r

    old, sys.argv = sys.argv, ["paconvert"] + args
    Converter.run = run
    try:
        m.main()
    finally:
        Converter.run = real
        sys.argv = old
    if len(rets) > 1:
        res["rets"] = rets
    return rets[0] if len(rets) == 1 else None


def _fds():
    out = []
    for f in _LISTDIR("/proc/self/fd"):
        try:
            out.append((f, _READLINK("/proc/self/fd/" + f)))
        except OSError:
            pass
    return out


_LISTDIR, _READLINK, _SCANDIR, _OPEN, _REPLACE, _UNLINK, _MAKEDIRS = os.listdir, os.readlink, os.scandir, io.open, os.replace, os.unlink, os.makedirs


def snapshot(root, times=True):
    """{relative path: (kind, content, mode, mtime)} read with the real file system functions."""
    out = {}
    stack = [root]
    while stack:
        d = stack.pop()
        with _SCANDIR(d) as it:
            for e in it:
                rel = e.path[len(root) + 1:]
                st = e.stat(follow_symlinks=False)
                if e.is_symlink():
                    out[rel] = ("l", _READLINK(e.path), 0, 0)
                elif e.is_dir(follow_symlinks=False):
                    out[rel] = ("d", None, st.st_mode & 0o7777, 0)
                    stack.append(e.path)
                elif e.is_file(follow_symlinks=False):
                    with _OPEN(e.path, "rb") as f:
                        out[rel] = ("f", f.read(), st.st_mode & 0o7777, st.st_mtime_ns if times else 0)
                else:
                    out[rel] = ("o", None, st.st_mode, 0)
    return out


def apply_edit(root, edit):
    """What another program does to the files, atomically. edit: list of [verb, path, data]"""
    from . import seams

    saved, seams.DISK = seams.DISK, None
    try:
        for verb, rel, data in edit:
            p = root + "/" + rel
            if verb == "put":
                tmp = root + "/.edit-tmp"
                _MAKEDIRS(os.path.dirname(p), exist_ok=True)
                with _OPEN(tmp, "wb") as f:
                    f.write(data)
                _REPLACE(tmp, p)
            elif verb == "del":
                try:
                    _UNLINK(p)
                except FileNotFoundError:
                    pass
            elif verb == "mv":
                _REPLACE(p, root + "/" + data)
    finally:
        seams.DISK = saved


def serve():
    # stdin/stdout carry the protocol; nothing else may use them
    rfd, wfd = os.dup(0), os.dup(1)
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    from . import sched, seams

    seams.install(REPO + "/paconvert")
    sys.path.insert(0, REPO)
    import paconvert.converter
    import paconvert.main  # noqa: F401

    assert os.path.realpath(paconvert.converter.__file__).startswith(os.path.realpath(REPO) + "/"), paconvert.converter.__file__
    _warm()
    sched.package_codes()
    gc.collect()
    gc.freeze()
    _send(wfd, {"ready": True})
    while True:
        req = _recv(rfd)
        if req is None:
            return
        _send(wfd, serve_one(req))


def _warm():
    """Imports that the libraries do lazily; no PaConvert code runs here."""
    import ast

    import astor
    import black
    import isort

    src = "import os\nfrom a import (b,\n c)\nx = f'{1}'\n@d\nclass A(B):\n    def f(self, *a, **k):\n        return [i for i in a if not i]\n"
    black.format_str(astor.to_source(ast.parse(src)), mode=black.Mode())
    isort.code(src)


def serve_one(req):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            import resource

            resource.setrlimit(resource.RLIMIT_CPU, (req.get("cpu", 25), req.get("cpu", 25) + 5))
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            Child(req, w).run()
        except BaseException:  # noqa: B902 - harness error
            import traceback

            try:
                _send(w, {"harness_error": traceback.format_exc()})
            finally:
                os._exit(3)
        os._exit(4)
    os.close(w)
    limit = req.get("timeout", 120)
    import select

    chunks, deadline, timed_out = [], time.monotonic() + limit, False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        if not select.select([r], [], [], left)[0]:
            continue
        b = _R(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
    status = os.waitpid(pid, 0)[1]
    data = b"".join(chunks)
    if timed_out:
        return {"timeout": limit}
    if len(data) < 8:
        return {"died": status}
    return pickle.loads(data[8:])


if __name__ == "__main__":
    serve()
