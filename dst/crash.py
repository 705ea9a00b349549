"""Calls that are cut short: by an asynchronous exception anywhere, or by a failing seam."""
import sys

from .common import guarded, use_stream
from .engine import child_info, fork_run
from .sched import CrashTracer
from .seams import SIM
from .simio import SimFS, SimStdout
from .world import EXCS, World, canon, exc_canon

ASYNC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit"]
SYNC = ["PluginError", "MemoryError", "OSError", "FloatingPointError", "KeyboardInterrupt",
        "ValueError"]


def gen_how(r, call, specs, wrap):
    """How a call is to be cut short; the position is a fraction of the call's length."""
    kinds = ["trace", "trace", "trace"]
    if wrap:
        kinds += ["integrate", "integrate", "measure", "model"]
    if call.get("kw", {}).get("disp"):
        kinds += ["stdout", "stdout", "stdout"]
    if call["f"] in ("load_slater", "ugbs") or (
            call["f"] == "build" and call["spec"]["k"] == "slater"):
        kinds += ["io", "io"]
    kind = r.choice(kinds)
    how = {"k": kind, "u": round(r.random(), 5)}
    if kind == "trace":
        how["exc"] = r.choice(ASYNC)
        how["pick"] = r.choice(["line", "line", "event", "last", "first"])
        how["opcodes"] = r.random() < 0.25
        how["v"] = round(r.random(), 5)
    elif kind == "io":
        how["exc"] = r.choice(["eio", "estale"])
    elif kind == "stdout":
        how["exc"] = r.choice(["EPIPE", "ENOSPC", "interrupt"])
    else:
        how["exc"] = r.choice(SYNC)
    return how


def dry_run(specs, call, salt, opcodes, wrap):
    """Length of a call in terms of every place where it can be cut short."""
    def body():
        world = World(specs, wrap=wrap, only=[])
        roots(world, call)
        counts = {}
        if wrap:
            before = {k: s.n for k, s in world.wrap.items()}
        SIM.fs = SimFS()
        out = SimStdout(keep=False)
        sys.stdout = out
        tracer = CrashTracer(None, None, opcodes, limit=20_000_000)
        use_stream(salt)
        with tracer:
            try:
                world.call(call)
            except Exception:            # pylint: disable=broad-except
                pass
        if wrap:
            counts = {k: s.n - before[k] for k, s in world.wrap.items()}
        counts["stdout"] = out.writes
        counts["io"] = SIM.fs.reads
        return {"n": tracer.n, "lines": sorted((k[0], k[1], v) for k, v in tracer.lines.items()),
                "counts": counts}
    return fork_run(body)


def roots(world, call):
    """Build the objects of a call before it is traced."""
    from .common import call_roots
    for i in call_roots(call):
        world.obj(i)


def place(how, dry):
    """Turn the fraction of a `how` into a concrete position. None if there is none."""
    how = dict(how)
    if how["k"] == "trace":
        if "at" in how:
            return how
        if dry["n"] == 0:
            return None
        if how["pick"] == "line":
            _, _, seen = dry["lines"][int(how["u"] * len(dry["lines"]))]
            how["at"] = seen[int(how["v"] * len(seen))]
        elif how["pick"] == "last":
            how["at"] = max(0, dry["n"] - 1 - int(how["u"] * min(40, dry["n"])))
        elif how["pick"] == "first":
            how["at"] = min(dry["n"] - 1, int(how["u"] * 40))
        else:
            how["at"] = int(how["u"] * dry["n"])
        for key in ("u", "v", "pick"):
            how.pop(key, None)
        return how
    if "at" in how:
        return how
    n = dry["counts"].get(how["k"], 0)
    if n == 0:
        return None
    how["at"] = 1 + int(how["u"] * n)
    how.pop("u")
    return how


def cut_short(world, call, how, salt):
    """Make the call with the fault in place. Returns (canonical result, site or None).

    The site is where the fault fired: a source line, or the seam and the number of its call.
    """
    tracer = None
    before = sum(n for name, n in SIM.counts.items() if name.startswith(how["k"] + "."))
    use_stream(salt)
    kind = how["k"]
    saved = sys.stdout
    site = None
    try:
        if kind == "trace":
            tracer = CrashTracer(EXCS[how["exc"]]("injected"), how["at"], how["opcodes"])
            with tracer:
                res = canon(world.call(call))
        elif kind == "stdout":
            sys.stdout = SimStdout({"at": how["at"], "err": how["exc"]}, keep=False)
            res = canon(world.call(call))
        elif kind == "io":
            SIM.fs = SimFS({"*": {str(how["at"]): how["exc"]}})
            res = canon(world.call(call))
        else:
            script = world.wrap[kind]
            script.n = 0
            script.spec = {str(how["at"]): ["raise", how["exc"]]}
            res = canon(world.call(call))
    except BaseException as exc:        # pylint: disable=broad-except
        res = exc_canon(exc)
        chain, seen = exc, []
        while chain is not None and chain not in seen:
            seen.append(chain)
            chain = chain.__cause__ or chain.__context__
        res = res + ([type(e).__name__ for e in seen],)
        exc = chain = seen = None
    finally:
        sys.settrace(None)
        sys.stdout = saved
        SIM.fs = None
        if world.wrap:
            for script in world.wrap.values():
                script.spec = {}
    if tracer is not None and tracer.fired_at:
        site = tracer.fired_at
        SIM.fired("crash." + how["exc"])
    elif tracer is None and before < sum(
            n for name, n in SIM.counts.items() if name.startswith(how["k"] + ".")):
        site = (how["k"], how["at"])
    return res, site


EXPECTED = {"eio": "OSError", "estale": "OSError", "EPIPE": "BrokenPipeError",
            "ENOSPC": "OSError", "interrupt": "KeyboardInterrupt"}


def expected(how):
    return EXPECTED.get(how["exc"], how["exc"])
