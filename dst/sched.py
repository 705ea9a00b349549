"""Cooperative scheduler for real threads, and crash injection, both on ``sys.settrace``.

Caller threads are real Python threads, but only one of them ever runs: at every traced event
(source line or bytecode instruction) inside bfit the running thread asks the scheduler whether
to hand over.  The decision is a pure function of the scenario: either a list of recorded
switches ``[step, thread]`` (replay) or a seeded strategy, which records such a list.
"""
import ast
import os
import sys
import threading

from .seams import PKG, SIM, Real

_PREFIX = PKG + os.sep


_BUDGET_LOG = os.environ.get("DST_BUDGET_LOG")


class Hang(BaseException):
    """The code under test used up its step budget."""


class Deadlock(BaseException):
    """All simulated threads wait for each other."""


_FILES = {}
_TEST = _PREFIX + "test" + os.sep


def in_scope(code):
    """Whether the code object belongs to the package under test."""
    name = code.co_filename
    hit = _FILES.get(name)
    if hit is None:
        # names like "<string>" are no files (and the working directory may be gone)
        real = os.path.realpath(name) if os.path.isabs(name) else name
        hit = _FILES[name] = real.startswith(_PREFIX) and not real.startswith(_TEST)
    return hit


_UNSAFE = {}


def unsafe_lines(filename):
    """Lines at which an asynchronous exception cannot be expected to be handled.

    These are the headers of ``with`` statements (the context manager may be entered or left at
    that very moment), and the bodies of ``finally`` and ``except`` clauses, i.e. the clean-up
    code itself.
    """
    if filename in _UNSAFE:
        return _UNSAFE[filename]
    out = set()
    try:
        with Real.open(filename, encoding="utf8") as handle:
            tree = ast.parse(handle.read())
    except (OSError, SyntaxError):
        _UNSAFE[filename] = out
        return out
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, node.body[0].lineno))
            out.add(node.lineno)
        elif isinstance(node, ast.Try):
            out.add(node.lineno)
            for part in node.finalbody + [s for h in node.handlers for s in h.body]:
                out.update(range(part.lineno, (part.end_lineno or part.lineno) + 1))
            for handler in node.handlers:
                out.add(handler.lineno)
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # hand-written context managers and finalizers are clean-up code too
            if node.name in ("__exit__", "__enter__", "__del__", "__aexit__", "__aenter__") or any(
                    "contextmanager" in ast.dump(d) for d in node.decorator_list):
                out.update(range(node.lineno, (node.end_lineno or node.lineno) + 1))
    _UNSAFE[filename] = out
    return out


def short(filename):
    return filename[len(_PREFIX):] if filename.startswith(_PREFIX) else os.path.basename(filename)


class Budget:
    """Count traced lines of bfit on this thread; raise Hang beyond the limit."""

    def __init__(self, limit):
        self.limit = limit
        self.n = 0

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n > self.limit:
                raise Hang(f"no end after {self.limit} executed lines")
        return self._local

    def _global(self, frame, event, arg):
        return self._local if in_scope(frame.f_code) else None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *_):
        sys.settrace(None)
        if _BUDGET_LOG and self.n > self.limit // 20:
            with open(_BUDGET_LOG, "a") as handle:
                handle.write(f"{self.n / self.limit:.3f} {sys._getframe(1).f_code}\n")


class CrashTracer:
    """Count eligible points in bfit, optionally raising an exception at one of them.

    Parameters
    ----------
    at : int or None
        Index of the eligible event at which to raise.
    where : [file, line, k] or None
        Alternatively: the k-th execution of the given source line.
    """

    def __init__(self, exc=None, at=None, opcodes=False, limit=None):
        self.exc = exc
        self.at = at
        self.opcodes = opcodes
        self.n = 0
        self.lines = {}           # (file, line) -> [indices of eligible events], bounded
        self.fired_at = None
        self.limit = limit

    def _hit(self, frame):
        filename, line = frame.f_code.co_filename, frame.f_lineno
        if line in unsafe_lines(filename):
            return
        index = self.n
        self.n += 1
        if self.exc is None:
            key = (short(filename), line)
            seen = self.lines.setdefault(key, [])
            if len(seen) < 64:
                seen.append(index)
        elif index == self.at:
            self.fired_at = (short(filename), line)
            exc, self.exc = self.exc, None
            sys.settrace(None)
            raise exc
        if self.limit is not None and self.n > self.limit:
            raise Hang(f"no end after {self.limit} events")

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self._hit(frame)
        return self._local

    def _global(self, frame, event, arg):
        if not in_scope(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *_):
        sys.settrace(None)


class Scheduler:
    """Run callables in threads of which only one is ever running."""

    def __init__(self, plan, rng=None, opcodes=False, limit=3_000_000):
        self.plan = plan                   # {"k": "replay", "sw": [[step, tid]..]} | strategy
        self.rng = rng
        self.opcodes = opcodes
        self.limit = limit
        self.step = 0
        self.current = 0
        self.switches = []
        self.trace_hash = 0
        self.sites = set()
        self.done = []
        self.blocked = {}
        self.sems = []
        self.idents = {}
        self.error = None
        self.main = Real.Lock()
        self._replay = {}
        if plan["k"] == "replay":
            for step, tid in plan["sw"]:
                self._replay[step] = tid
        elif plan["k"] == "pct":
            # d change points in an estimated number of steps
            self._changes = set(int(u * plan["len"]) for u in plan["u"])

    # -- called from simulated threads ---------------------------------------------------------
    def managed(self):
        return threading.get_ident() in self.idents

    def tid(self):
        return self.idents.get(threading.get_ident())

    def _runnable(self):
        return [t for t in range(len(self.sems)) if not self.done[t] and t not in self.blocked]

    def _choose(self, me):
        """Thread to run next."""
        kind = self.plan["k"]
        if kind == "replay":
            nxt = self._replay.get(self.step)
            if nxt is None or nxt >= len(self.sems) or self.done[nxt] or nxt in self.blocked:
                return me
            return nxt
        others = [t for t in self._runnable() if t != me]
        if not others:
            return me
        if kind == "random":
            if self.rng.random() < self.plan["p"]:
                return self.rng.choice(others)
        elif kind == "pct":
            if self.step in self._changes:
                return self.rng.choice(others)
        elif kind == "burst":
            # long quiet stretches, then several switches in a row
            if self.rng.random() < (0.6 if self.step % self.plan["period"] < self.plan["width"]
                                    else 0.002):
                return self.rng.choice(others)
        return me

    def point(self, frame=None):
        """A possible preemption point."""
        me = self.current
        self.step += 1
        if self.step > self.limit:
            raise Hang(f"no end after {self.limit} scheduling points")
        nxt = self._choose(me)
        if nxt != me:
            site = (short(frame.f_code.co_filename), frame.f_lineno) if frame else ("seam", 0)
            self._switch(me, nxt, site)

    def _switch(self, me, nxt, site):
        self.switches.append([self.step, nxt])
        self.sites.add(site)
        self.trace_hash = hash((self.trace_hash, self.step, nxt, site[1])) & 0xFFFFFFFFFFFFFFFF
        self.current = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()
        if self.error is not None:
            raise self.error

    def block(self, lock):
        """The running thread cannot get `lock`: run another one."""
        me = self.current
        self.blocked[me] = lock
        cands = []
        for t in range(len(self.sems)):
            if self.done[t]:
                continue
            held = self.blocked.get(t)
            if held is None or held._owner is None or (held._reentrant and held._owner == t):
                cands.append(t)
        cands = [t for t in cands if t != me]
        if not cands:
            self.blocked.pop(me, None)
            raise Deadlock("every simulated thread waits for a lock")
        nxt = cands[0]
        self.blocked.pop(nxt, None)
        self.step += 1
        self._switch(me, nxt, ("lock", 0))
        self.blocked.pop(me, None)

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point(frame)
        return self._local

    def _global(self, frame, event, arg):
        if not in_scope(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _body(self, tid, fn):
        self.idents[threading.get_ident()] = tid
        self.sems[tid].acquire()
        if self.error is None:
            sys.settrace(self._global)
            try:
                fn()
            except (Hang, Deadlock) as exc:
                self.error = self.error or exc
            finally:
                sys.settrace(None)
        self.done[tid] = True
        rest = [t for t in range(len(self.sems)) if not self.done[t]]
        if not rest:
            self.main.release()
            return
        if self.error is not None:
            nxt = rest[0]
        else:
            free = [t for t in rest if t not in self.blocked or self.blocked[t]._owner is None]
            if not free:
                self.error = Deadlock("a lock was never released")
                free = rest
            want = self._replay.get(-1 - tid)
            nxt = want if want in free else (
                self.rng.choice(free) if self.rng is not None else free[0])
            self.switches.append([-1 - tid, nxt])
        self.blocked.pop(nxt, None)
        self.current = nxt
        self.sems[nxt].release()

    def run(self, fns, first=0):
        """Run the callables to completion under the plan."""
        self.sems = [Real.Lock() for _ in fns]
        self.done = [False] * len(fns)
        for sem in self.sems:
            sem.acquire()
        self.main.acquire()
        self.current = first % len(fns)
        SIM.sched = self
        threads = [threading.Thread(target=self._body, args=(i, fn), daemon=True)
                   for i, fn in enumerate(fns)]
        for thread in threads:
            thread.start()
        self.sems[self.current].release()
        self.main.acquire()
        for thread in threads:
            thread.join(10)
        SIM.sched = None
        if self.error is not None:
            raise self.error
