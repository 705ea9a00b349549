"""Seeded search over scenarios: worker pool, forked execution, minimisation, evidence."""
import collections
import ctypes
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import traceback

from . import seams
from .seams import SIM, Real

_FORKS = 0
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILD_WALL = float(os.environ.get("DST_CHILD_WALL", "60"))


class HarnessError(Exception):
    """The machinery itself failed: never reported as a violation, never as success."""


class ChildTimeout(Exception):
    """A forked child did not finish in (real) time."""


_LIBC = ctypes.CDLL(None, use_errno=True)


def die_with_parent(parent):
    """Have the kernel end this process when its parent ends (it may be stuck by then)."""
    _LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)          # PR_SET_PDEATHSIG
    if os.getppid() != parent:
        os._exit(4)


def rng_for(*parts):
    """The pseudo-random generator of a scenario: a function of its name only."""
    return random.Random(":".join(str(p) for p in parts))


# --------------------------------------------------------------------------------------------
# forked execution
# --------------------------------------------------------------------------------------------
def fork_run(fn, *args, wall=None, reset=True):
    """Run ``fn(*args)`` in a forked copy of this pristine process and return its result."""
    wall = CHILD_WALL if wall is None else wall
    global _FORKS            # pylint: disable=global-statement
    _FORKS += 1
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    parent = os.getpid()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            die_with_parent(parent)
            os.close(rfd)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            if reset:
                _activate()
            try:
                payload = ("ok", fn(*args))
            except BaseException as exc:    # pylint: disable=broad-except
                payload = ("err", type(exc).__name__, traceback.format_exc())
            sys.settrace(None)
            try:
                blob = pickle.dumps(payload, protocol=5)
            except Exception:               # pylint: disable=broad-except
                blob = pickle.dumps(("err", "PickleError", traceback.format_exc()))
            view = memoryview(blob)
            while view:
                view = view[os.write(wfd, view[:1 << 16]):]
        except BaseException:               # pylint: disable=broad-except
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    deadline = Real.monotonic() + wall
    try:
        while True:
            left = deadline - Real.monotonic()
            if left <= 0:
                raise ChildTimeout(f"child exceeded {wall} s")
            ready, _, _ = select.select([rfd], [], [], left)
            if not ready:
                raise ChildTimeout(f"child exceeded {wall} s")
            data = os.read(rfd, 1 << 20)
            if not data:
                break
            chunks.append(data)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(rfd)
        os.waitpid(pid, 0)
    if not chunks:
        raise HarnessError("a child died without an answer")
    payload = pickle.loads(b"".join(chunks))
    if payload[0] == "err":
        raise HarnessError(f"child failed: {payload[1]}\n{payload[2]}")
    return payload[1]


def _activate():
    """Start the simulation in this process."""
    import numpy as np

    from .simio import SimStdout
    from .world import quiet
    quiet()
    SIM.active = True
    SIM.clock = seams.SimClock()
    SIM.counts = {}
    SIM.probes = {}
    SIM.sched = None
    SIM.fs = None
    SIM.optimizer = None
    SIM.rng = None
    # every process gets other bits from the operating system, the same ones in every replay
    SIM.entropy = random.Random(f"entropy {_FORKS}")
    np.random.seed(12345)
    random.seed(12345)
    sys.stdout = SimStdout(keep=False)


# --------------------------------------------------------------------------------------------
# outcomes
# --------------------------------------------------------------------------------------------
class Outcome:
    """What one simulated run showed."""

    def __init__(self):
        self.violations = []          # (kind, detail)
        self.counts = collections.Counter()   # faults fired
        self.probes = collections.Counter()   # rare conditions reached
        self.keys = set()             # distinct states/interleavings touched
        self.nontrivial = False
        self.simtime = 0.0
        self.steps = 0
        self.runs = 1
        self.digest = hashlib.sha256()
        self.concrete = None          # explicit form of the scenario, for replay

    def violate(self, kind, detail):
        self.violations.append((kind, str(detail)[:1500]))

    def note(self, *parts):
        """Add to the event log (its digest only)."""
        from .world import digest_canon
        for part in parts:
            digest_canon(part, self.digest)

    def merge_child(self, info):
        """Add fault counters and simulated time reported by a child."""
        self.counts.update(info.get("counts", {}))
        self.probes.update(info.get("probes", {}))
        self.simtime += info.get("simtime", 0.0)
        self.steps += info.get("steps", 0)

    def pack(self):
        return {
            "violations": self.violations, "counts": dict(self.counts),
            "probes": dict(self.probes), "keys": self.keys, "nontrivial": self.nontrivial,
            "simtime": self.simtime, "steps": self.steps, "runs": self.runs,
            "digest": self.digest.hexdigest(), "concrete": self.concrete,
        }


def child_info(steps=0):
    """Counters of this child, to be merged by `Outcome.merge_child`."""
    return {"counts": dict(SIM.counts), "probes": dict(SIM.probes), "simtime": SIM.clock.mono - SIM.clock.mono0,
            "steps": steps}


def load_prop(pid):
    return importlib.import_module(f".props.{pid.lower()}", __package__)


def execute(prop, scn):
    """Execute a scenario (in a pristine worker), returning the packed outcome."""
    global _FORKS            # pylint: disable=global-statement
    _FORKS = 0
    out = Outcome()
    try:
        prop.execute(scn, out)
    except ChildTimeout as exc:
        out = _more_time(prop, scn)
        if out is None:
            if not getattr(prop, "HANG_IS_VIOLATION", True):
                raise HarnessError(f"timeout: {exc}") from exc
            out = Outcome()
            out.violate("hang", "the call does not end: " + str(exc))
    return out.pack()


def _more_time(prop, scn):
    """A second attempt with twice the time, to tell a hang (None) from a slow machine."""
    global CHILD_WALL, _FORKS        # pylint: disable=global-statement
    old = CHILD_WALL
    CHILD_WALL = 2 * old
    _FORKS = 0
    out = Outcome()
    try:
        prop.execute(scn, out)
    except ChildTimeout:
        return None
    finally:
        CHILD_WALL = old
    return out


def minimise(prop, scn, kind, budget_s=45.0, max_runs=300):
    """Greedy shrinking while the same kind of violation persists."""
    start = Real.monotonic()
    runs = 0
    best = scn
    improved = True
    while improved and runs < max_runs:
        improved = False
        for cand in prop.shrink(best):
            if runs >= max_runs or Real.monotonic() - start > budget_s:
                return best, runs
            runs += 1
            try:
                packed = execute(prop, cand)
            except HarnessError:
                continue
            if any(k == kind for k, _ in packed["violations"]):
                best = packed["concrete"] or cand
                improved = True
                break
    return best, runs


def worker(pid, seed, tier, todo, results):
    """Body of a worker process: reads scenario numbers, writes outcomes."""
    die_with_parent(os.getppid())
    prop = load_prop(pid)
    seams.install()
    if hasattr(prop, "prepare"):
        prop.prepare()
    gc.collect()
    gc.freeze()
    while True:
        line = todo.readline()
        if not line:
            break
        msg = json.loads(line)
        try:
            if "replay" in msg:
                scn = msg["replay"]
            else:
                scn = prop.generate(rng_for(seed, pid, msg["i"]), tier, msg["i"])
            packed = execute(prop, scn)
            packed["i"] = msg.get("i")
            packed["scn"] = scn
            if packed["violations"] and "replay" not in msg:
                packed = confirm(prop, scn, packed)
            answer = ("ok", packed)
        except HarnessError as exc:
            answer = ("harness", msg.get("i"), str(exc))
        except BaseException:           # pylint: disable=broad-except
            answer = ("harness", msg.get("i"), traceback.format_exc())
        blob = pickle.dumps(answer, protocol=5)
        results.write(len(blob).to_bytes(8, "little") + blob)
        results.flush()


def confirm(prop, scn, packed):
    """Run a violating scenario again, then minimise it."""
    kind = packed["violations"][0][0]
    base = packed["concrete"] or scn
    ok = False
    for cand in (base, scn, base):
        try:
            again = execute(prop, cand)
        except HarnessError:
            continue
        if any(k == kind for k, _ in again["violations"]):
            ok = True
            base = again["concrete"] or cand
            break
    packed["confirmed"] = ok
    if not ok:
        return packed
    small, runs = minimise(prop, base, kind)
    final = execute(prop, small)
    detail = [d for k, d in final["violations"] if k == kind]
    packed["minimised"] = small
    packed["min_runs"] = runs
    packed["min_detail"] = detail[0] if detail else packed["violations"][0][1]
    packed["kind"] = kind
    return packed


class Pool:
    """Worker processes, each a pristine interpreter with the seams installed."""

    def __init__(self, pid, seed, tier, n):
        self.procs = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
        env.setdefault("PYTHONHASHSEED", "0")
        env.pop("PYTHONPATH", None)
        for _ in range(n):
            proc = subprocess.Popen(
                [sys.executable, "-m", "dst.main", "--worker", pid, str(seed), tier],
                cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
            self.procs.append(proc)

    def send(self, k, msg):
        self.procs[k].stdin.write(json.dumps(msg).encode() + b"\n")
        self.procs[k].stdin.flush()

    def recv(self, k):
        head = self.procs[k].stdout.read(8)
        if len(head) < 8:
            raise HarnessError("a worker died")
        size = int.from_bytes(head, "little")
        return pickle.loads(self.procs[k].stdout.read(size))

    def close(self):
        for proc in self.procs:
            try:
                proc.stdin.close()
            except OSError:
                pass
        for proc in self.procs:
            try:
                proc.wait(5)
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait()

    def kill(self):
        for proc in self.procs:
            proc.kill()
            proc.wait()


def run_many(pid, seed, tier, indices, nproc, on_result, wall=None, stop=None):
    """Distribute scenario numbers over workers; `on_result` sees every answer."""
    indices = list(indices)
    pool = Pool(pid, seed, tier, min(nproc, max(1, len(indices))))
    start = Real.monotonic()
    busy = {}
    pos = 0
    truncated = False
    try:
        fds = {proc.stdout.fileno(): k for k, proc in enumerate(pool.procs)}
        for k in range(len(pool.procs)):
            if pos < len(indices):
                pool.send(k, {"i": indices[pos]})
                busy[k] = indices[pos]
                pos += 1
        while busy:
            ready, _, _ = select.select([fd for fd, k in fds.items() if k in busy], [], [], 300)
            if not ready:
                raise HarnessError(f"no answer from workers for 300 s: {busy}")
            for fd in ready:
                k = fds[fd]
                on_result(pool.recv(k))
                busy.pop(k, None)
                late = wall is not None and Real.monotonic() - start > wall
                if pos < len(indices) and not late and not (stop and stop()):
                    pool.send(k, {"i": indices[pos]})
                    busy[k] = indices[pos]
                    pos += 1
                elif late:
                    truncated = True
            if stop and stop():
                break
    except BaseException:
        pool.kill()
        raise
    if stop and stop():
        pool.kill()
    else:
        pool.close()
    return pos, truncated
