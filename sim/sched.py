"""Deterministic control of Python execution inside a simulated process.

Every line of PaConvert code is an instrumented point (sys.monitoring LINE events, local to PaConvert's code objects).
Lines        counts the lines of a single-threaded run and can raise an exception at line k (interrupts, failing
             allocations) or stop a run that exceeds its step budget.
Sched        runs several real threads of which exactly one holds the baton; at an instrumented point the scheduler
             (seeded, or an explicit list of switches) decides who continues. Who runs is never left to the OS.
"""
import ast
import gc
import random
import sys
import threading
import types
import zlib

from . import seams

TOOL = 3
_codes = None
_active = None  # object with .line(code, lineno)


def _walk(co, out):
    if id(co) in out:
        return
    out[id(co)] = co
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out)


def package_codes():
    """All code objects of the package under test (call in the pristine interpreter, after the imports)."""
    global _codes
    if _codes is None:
        out = {}
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(seams.PKG):
                _walk(o.__code__, out)
        _codes = list(out.values())
        for co in _codes:
            _uninterruptible(co.co_filename)
    return _codes


_skip = {}  # file name -> lines at which no interrupt is delivered


def _uninterruptible(filename):
    """CPython delivers no interrupt between the end of a with block and __exit__, nor before the first instruction of a
    try statement or its cleanup; the line events there do not stand for instants at which a Ctrl-C can arrive."""
    if filename in _skip:
        return
    lines = _skip[filename] = set()
    try:
        with open(filename, encoding="utf-8") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            lines.update(range(n.lineno, max(n.lineno + 1, n.body[0].lineno)))
        elif isinstance(n, ast.Try):
            lines.add(n.lineno)
            for x in n.finalbody:
                lines.update(range(x.lineno, x.end_lineno + 1))


def _on_line(code, line):
    a = _active
    if a is not None:
        a.line(code, line)


def start(obj):
    global _active
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "sim")
        m.register_callback(TOOL, m.events.LINE, _on_line)
        for c in package_codes():
            m.set_local_events(TOOL, c, m.events.LINE)
    _active = obj


def stop():
    global _active
    _active = None


def in_destructor():
    """Is the running code called from where Python ignores every exception?"""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_name == "__del__" or f.f_code.co_filename.endswith("/weakref.py"):
            return True
        f = f.f_back
    return False


class Lines:
    def __init__(self, at=None, exc=None, budget=None, sites=False):
        self.sites = {} if sites else None  # the first time each line of the code is executed
        self.n, self.at, self.exc, self.budget, self.where = 0, at, exc, budget, None
        self.thread = threading.get_ident()

    def line(self, code, line):
        if threading.get_ident() != self.thread:
            return
        self.n += 1
        if self.sites is not None:
            self.sites.setdefault((code.co_filename, line), self.n)
        if self.n == self.at and (line in _skip.get(code.co_filename, ()) or in_destructor()):
            self.at += 1
        elif self.n == self.at:
            self.where = "%s:%s+%d" % (code.co_filename.rsplit("/", 1)[-1], code.co_qualname, line - code.co_firstlineno)
            raise self.exc
        if self.budget is not None and self.n > self.budget:
            raise seams.SimRunaway("more than %d lines of code" % self.budget)


class SimDeadlock(BaseException):
    pass


class Sched:
    def __init__(self, bodies, spec):
        """spec: {"seed", "p", "site_mod", "site_k"} or {"switches": [[step, thread], ...]}; bodies: callables."""
        self.bodies, self.spec = bodies, spec
        # explicit switches: [step, thread, kind, thread switched from]; kind l: at a line, b: at a lock, e: at the end of a thread
        self.explicit = {(s, k, me): t for s, t, k, me in spec["switches"]} if "switches" in spec else None
        self.rng = random.Random("sched:%s" % spec.get("seed"))
        self.p, self.mod, self.k = spec.get("p", 0.05), spec.get("site_mod", 0), spec.get("site_k", 0)
        self.step, self.switches, self.sites = 0, [], set()
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.waiting = [None] * n
        self.cur = 0
        self.results = [None] * n
        self.idx = {}
        self.all_done = threading.Semaphore(0)
        self.deadlock = False
        self.max_steps = 3000000

    def runnable(self):
        return [i for i in range(len(self.bodies)) if not self.done[i] and (self.waiting[i] is None or not self.waiting[i].locked())]

    def _switch(self, to, kind):
        me = self.cur
        self.switches.append([self.step, to, kind, me])
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()
        if self.deadlock:
            raise SimDeadlock()

    def line(self, code, line):
        i = self.idx.get(threading.get_ident())
        if i is None or i != self.cur:
            return
        self.step += 1
        if self.step > self.max_steps:
            raise seams.SimRunaway("step budget")
        if self.explicit is not None:
            to = self.explicit.get((self.step, "l", i))
            if to is not None and to != i and to in self.runnable():
                self._switch(to, "l")
            return
        if self.mod:
            if zlib.crc32(("%s:%d" % (code.co_qualname, line - code.co_firstlineno)).encode()) % self.mod != self.k:
                return
        if self.rng.random() < self.p:
            r = [t for t in self.runnable() if t != i]
            if r:
                to = self.rng.choice(r)
                self.sites.add("%s:%d" % (code.co_qualname, line - code.co_firstlineno))
                self._switch(to, "l")

    def _pick(self, r, kind, i):
        if self.explicit is None:
            return self.rng.choice(r)
        to = self.explicit.get((self.step, kind, i))
        return to if to in r else r[0]

    def blocked(self, lock):
        i = self.idx.get(threading.get_ident())
        if i is None:
            raise RuntimeError("lock used by an unscheduled thread")
        self.waiting[i] = lock
        r = [t for t in self.runnable() if t != i]
        if not r:
            self.deadlock = True
            for t in range(len(self.bodies)):
                if t != i and not self.done[t]:
                    self.sems[t].release()
            raise SimDeadlock()
        self._switch(self._pick(r, "b", i), "b")
        self.waiting[i] = None
        return True

    def _run(self, i):
        self.idx[threading.get_ident()] = i
        self.sems[i].acquire()
        try:
            if not self.deadlock:
                self.results[i] = self.bodies[i]()
        except SimDeadlock:
            self.results[i] = {"exc": "SimDeadlock", "msg": "deadlock"}
        finally:
            self.done[i] = True
            if not self.deadlock:
                r = self.runnable()
                if r:
                    self.cur = self._pick(r, "e", i)
                    self.switches.append([self.step, self.cur, "e", i])
                    self.sems[self.cur].release()
                elif not all(self.done):
                    self.deadlock = True
                    for t in range(len(self.bodies)):
                        if not self.done[t]:
                            self.sems[t].release()
            self.all_done.release()

    def run(self):
        seams.SCHED = self
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        start(self)
        self.cur = 0
        self.sems[0].release()
        for _ in ts:
            self.all_done.acquire()
        stop()
        seams.SCHED = None
        for t in ts:
            t.join()
        return self.results
