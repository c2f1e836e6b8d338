"""The simulated machine: a scratch disk, and simulated processes on it."""
import ast
import base64
import os
import pickle
import random
import re
import shutil
import signal
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get("SIM_PYTHON") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
MTIME = 1600000000123456789  # not representable as a float


CPU = 25  # seconds of processor time a simulated process may use; the largest needs about one


class HarnessError(Exception):
    pass


class Hang(Exception):
    """A simulated process does not end."""


def scratch_base():
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp/shm"


class Zygote:
    def __init__(self, hashseed, cwd):
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "SIM_REPO", "TMPDIR")}
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, PYTHONUTF8="1")
        self.p = subprocess.Popen([PYTHON, "-W", "ignore", "-m", "sim.zygote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  cwd=cwd, env=env, stderr=None)
        r = self._recv()
        if not r or not r.get("ready"):
            raise HarnessError("simulator process did not start")

    def _recv(self):
        head = self.p.stdout.read(8)
        if len(head) < 8:
            return None
        return pickle.loads(self.p.stdout.read(struct.unpack("<Q", head)[0]))

    def call(self, req):
        data = pickle.dumps(req, 4)
        self.p.stdin.write(struct.pack("<Q", len(data)) + data)
        self.p.stdin.flush()
        r = self._recv()
        if r is None:
            raise HarnessError("simulator process died")
        if "harness_error" in r:
            raise HarnessError(r["harness_error"])
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


class World:
    """All simulated processes of a run see the same absolute paths: the disk is wiped and rebuilt between them."""

    def __init__(self, slot):
        # the fixed length keeps line lengths in the outputs independent of the process id
        self.base = "%s/Z9QX%08d-%02d" % (scratch_base(), os.getpid() % 10**8, slot)
        self.root = self.base + "/R"
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base + "/Z")
        self.zygotes = {}
        self.processes = 0
        self.ops = 0
        self.fired = {}
        self.legal = {}
        self.sim_seconds = 0.0
        self.traces = set()  # hashes of distinct sequences of I/O operations and faults

    def close(self):
        for z in self.zygotes.values():
            z.close()
        shutil.rmtree(self.base, ignore_errors=True)

    def zygote(self, hashseed):
        if hashseed not in self.zygotes:
            # libraries look at the working directory when they are imported: one process starts in the input project
            cwd = self.root + "/in" if hashseed == 2 else self.base + "/Z"
            os.makedirs(cwd, exist_ok=True)
            self.zygotes[hashseed] = Zygote(hashseed, cwd)
        return self.zygotes[hashseed]

    # ------------------------------------------------------------------ disk
    def wipe(self):
        rmtree(self.root)
        os.makedirs(self.root)

    def put(self, at, tree, mtime=MTIME, scramble=None):
        """tree: {relative path: entry}; see gen.py for the entries. scramble: seed of the order of creation and the times."""
        base = self.root + ("/" + at if at else "")
        if len(tree) == 1 and "" in tree:  # a single file
            os.makedirs(os.path.dirname(base), exist_ok=True)
            self._put1(base, tree[""], mtime)
            return
        os.makedirs(base, exist_ok=True)
        rels = sorted(tree)
        rng = random.Random("put:%s" % scramble)
        if scramble is not None:
            rng.shuffle(rels)
        for rel in rels:
            p = base + "/" + rel
            os.makedirs(os.path.dirname(p), exist_ok=True)
            self._put1(p, tree[rel], mtime + (rng.randrange(10**15) if scramble is not None else 0))

    def _put1(self, p, e, mtime):
        if "l" in e:
            t = e["l"]
            os.symlink(self.root + t[1:] if t.startswith("@") else t, p)
            return
        if "d" in e:
            os.makedirs(p, exist_ok=True)
            if "m" in e:
                os.chmod(p, e["m"])
            return
        if "h" in e:  # hard link to another file of the disk
            if os.path.lexists(self.root + e["h"][1:]):
                os.link(self.root + e["h"][1:], p)
            return
        if "fifo" in e:
            os.mkfifo(p)
            return
        with open(p, "wb") as f:
            f.write(content(e))
        if "m" in e:
            os.chmod(p, e["m"])
        m = e.get("mt", mtime)
        os.utime(p, ns=(m, m))

    def snapshot(self, at="", times=True):
        from . import zygote

        p = self.root + ("/" + at if at else "")
        if os.path.isdir(p):
            return zygote.snapshot(p, times)
        if os.path.lexists(p):
            with open(p, "rb") as f:
                return {"": ("f", f.read(), 0, 0)}
        return {}

    # ------------------------------------------------------------------ processes
    def process(self, steps=None, env=None, disk=None, hashseed=0, threads=None, timeout=90):
        req = {"root": self.root, "env": env or {}, "disk": disk or {}, "timeout": timeout, "cpu": CPU}
        if threads is not None:
            req["threads"] = threads
        else:
            req["steps"] = steps
        r = self.zygote(hashseed).call(req)
        self.processes += 1
        if "timeout" in r or os.WIFSIGNALED(r.get("died", 0)) and os.WTERMSIG(r["died"]) == signal.SIGXCPU:
            raise Hang("a conversion hangs: it used more than %d s of processor time or %d s in all" % (CPU, timeout))
        if "steps" in r:
            self.sim_seconds += r.get("clock", 0.0)
            seen = r["steps"][:1] if threads is not None else r["steps"]
            for s in seen:
                self.ops += len(s.get("ops", ()))
                if s.get("ops"):
                    self.traces.add(hash((tuple(map(tuple, s["ops"])), tuple(map(tuple, s["fired"])))))
                for f in s.get("fired", ()):
                    k = "%s@%s" % (f[0], f[1])
                    self.fired[k] = self.fired.get(k, 0) + 1
                for k, v in (s.get("legal") or {}).items():
                    if v:
                        self.legal[k] = self.legal.get(k, 0) + v
                for w, name in s.get("fmt_fired", ()):
                    k = "%s:%s" % (w, name)
                    self.fired[k] = self.fired.get(k, 0) + 1
                if s.get("where"):
                    self.fired["interrupt@line"] = self.fired.get("interrupt@line", 0) + 1
        return r

    def text(self, data):
        """File content with the scratch root replaced."""
        return data.replace(self.root.encode(), b"@") if isinstance(data, bytes) else data


def rmtree(path):
    if not os.path.lexists(path):
        return
    shutil.rmtree(path, ignore_errors=True)
    if os.path.lexists(path):  # very deep trees
        subprocess.run(["rm", "-rf", "--", path], check=False)


def content(e):
    if "t" in e:
        return e["t"].encode("utf-8", "surrogatepass")
    if "z" in e:  # a large file: [size, seed]
        return random.Random("z%d" % e["z"][1]).randbytes(e["z"][0])
    return base64.b64decode(e["b"])


def files(snap):
    """Only the files and links of a snapshot, without times."""
    return {k: v[:2] for k, v in snap.items() if v[0] != "d"}


# ------------------------------------------------------------------ normalisation of generated temporary names
_NAME = re.compile(r"\b([A-Za-z_][A-Za-z_0-9]*?)_(\d+)\b")


def norm_temps(code, source):
    """Renumbers generated names (key_N that do not occur in the source) by first appearance."""
    m = {}

    def r(x):
        n = x.group(0)
        if n in source_names:
            return n
        if n not in m:
            m[n] = "%s#%d" % (x.group(1), len(m))
        return m[n]

    source_names = set(x.group(0) for x in _NAME.finditer(source))
    return _NAME.sub(r, code)


def strip_marks(code):
    return re.sub(r"(?m)^>>>>>>", "", code)


def same_text(a, b, source):
    """a and b are the same conversion of source, up to the numbering of generated temporary variables."""
    if a == b:
        return True
    try:
        a, b, source = (x.decode() if isinstance(x, bytes) else x for x in (a, b, source))
    except UnicodeDecodeError:
        return False
    na, nb = norm_temps(a, source), norm_temps(b, source)
    if na == nb:
        return True
    # different name lengths may wrap lines differently
    if na.count(">>>>>>") != nb.count(">>>>>>"):
        return False
    try:
        ta, tb = ast.parse(strip_marks(a)), ast.parse(strip_marks(b))
    except (SyntaxError, ValueError):
        # no Python: the same but for what wrapping adds and takes away
        na, nb = (re.sub(r"[\s()\\'\"]+", "", strip_marks(x)) for x in (na, nb))
        return na == nb
    return norm_temps(ast.dump(ta), source) == norm_temps(ast.dump(tb), source) and comments(na) == comments(nb)


def comments(text):
    """The lines that the syntax tree does not hold."""
    return [x.strip() for x in text.split("\n") if x.lstrip().startswith("#")]


def short(x, n=200):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def diff_hint(a, b):
    """First difference of two byte strings, for messages."""
    if a is None or b is None:
        return "%s / %s" % ("missing" if a is None else "present", "missing" if b is None else "present")
    if not isinstance(a, bytes) or not isinstance(b, bytes):
        return "%s / %s" % (short(a, 80), short(b, 80))
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    lo = max(0, i - 20)
    return "at byte %d: %r / %r (sizes %d / %d)" % (i, a[lo: i + 40], b[lo: i + 40], len(a), len(b))
