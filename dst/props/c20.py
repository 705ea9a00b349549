"""C20: a process that makes calls for ever does not grow."""
import copy
import gc
import os
import sys
import threading
import types

import numpy as np

from ..common import (call_roots, drop_each, fork_run, guarded, label, needed, simpler_calls,
                      simpler_specs)
from ..crash import SYNC
from ..engine import child_info
from ..gen import shared_world
from ..props.c01 import build_call
from ..sched import Budget, CrashTracer, Hang
from ..seams import SIM
from ..simio import SimFS, SimStdout
from ..world import EXCS, World

LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 6000}
WARM, WINDOW, WINDOWS = 150, 25, 3
RULE = (f"One run = {WARM} + {WINDOWS} x {WINDOW} rounds of the same 1-4 calls (finished, refused, "
        "cut short at seeded lines, failing plugins, disk and stdout) with other numbers in every round, in one "
        "process. After the first rounds (in which bounded caches may fill) the memory that the "
        "package and the caller's objects hold, the objects that garbage collection knows, open files and threads "
        "must not grow in every window, and the first call must not take more "
        "executed lines than at first. Non-trivial: all rounds were made. distinct_nontrivial counts distinct "
        "(call kinds, faults).")
MEASURE = "(call kinds, kinds of faults)"
REAL = ["all of bfit", "numpy", "scipy.optimize"]
STUB = ["clock", "stdout", "disk", "asynchronous exceptions", "user plugins", "random stream"]
ASSUMPTIONS = [f"caches of up to {WARM} entries are no growth", "memory is what can be reached from the "
               "package and the caller's objects after garbage collection"]
MUST_FIRE = ["rounds", "crash", "io", "refused"]


def generate(r, tier, i):
    greedy = r.random() < 0.07
    g, targets = shared_world(r, greedy=0.0)
    wrap = r.random() < 0.3
    if greedy:
        return _greedy(r, g, wrap)
    hot = r.choice(targets)
    steps = []
    for _ in range(r.choice([1, 2, 3, 4])):
        roll = r.random()
        if roll < 0.12:
            call = g.loader()
        elif roll < 0.18:
            call = g.helper()
        elif roll < 0.34:
            call = build_call(g, r, targets)
        elif roll < 0.42:
            call = g.bad_call(r.choice(targets)) or g.loader()
        else:
            call = g.call(hot if r.random() < 0.6 else r.choice(targets)) or g.loader()
        kw = call.get("kw", {})
        if call["f"] == "run":
            if g.objs[call["o"]].get("method") == "trust-constr":
                kw["maxiter"] = 1
            else:
                kw["maxiter"] = min(kw.get("maxiter", 1), r.choice([1, 2, 3]))
        how = None
        if r.random() < 0.35:
            kinds = ["trace", "trace"]
            if wrap:
                kinds += ["integrate", "measure", "model"]
            if call["f"] in ("load_slater", "ugbs"):
                kinds += ["io", "io", "io"]
            if kw.get("disp"):
                kinds += ["stdout"]
            kind = r.choice(kinds)
            how = {"k": kind, "exc": r.choice(["KeyboardInterrupt", "MemoryError"]
                                              if kind == "trace" else SYNC),
                   "span": r.choice([3, 30, 300])}
        steps.append({"call": call, "how": how})
    return {"objs": g.objs, "wrap": wrap, "steps": steps, "salt": r.randrange(10 ** 6)}


def _greedy(r, g, wrap):
    """Many short greedy fits of one greedy object."""
    grid = g.add({"k": "uni", "n": r.randint(8, 16), "min": 0.0, "max": 6.0})
    hot = g.greedy(grid=grid, choice="pick-one")
    g.objs[hot]["kw"].update(l_maxiter=1, g_maxiter=r.randint(1, 2))
    g.objs[hot]["kw"].pop("method", None)
    call = g.greedy_run(hot)
    call["kw"]["max_numb_funcs"] = r.choice([2, 2, 3])
    how = None
    if r.random() < 0.3:
        how = {"k": "trace", "exc": r.choice(["KeyboardInterrupt", "MemoryError"]),
               "span": r.choice([300, 3000])}
    return {"objs": g.objs, "wrap": wrap, "steps": [{"call": call, "how": how}],
            "salt": r.randrange(10 ** 6)}


def _other(call, k):
    """The same call with other numbers, round k."""
    call = copy.deepcopy(call)
    factor = 1.0 + 1e-4 * k

    def change(value):
        if isinstance(value, list) and value and all(isinstance(x, float) for x in value):
            return [x * factor for x in value]
        if isinstance(value, dict) and "v" in value and isinstance(value["v"], list) \
                and "dt" not in value:
            value["v"] = change(value["v"])
        return value
    for key in ("a", "ta"):
        if key in call:
            call[key] = [change(v) for v in call[key]]
    for key in ("kw", "tkw"):
        if key in call:
            call[key] = {k: change(v) for k, v in call[key].items()}
    return call


def _once(world, scn, j, k):
    """Step j in round k."""
    step = scn["steps"][j]
    call, how = _other(step["call"], k), step["how"]
    salt = scn["salt"] + 13 * k + j
    if how is None:
        res = guarded(world, call, salt)
        if isinstance(res, tuple) and res and res[0] == "exc":
            SIM.fired("refused")
        return
    at = 1 + (k * 7 + j * 3) % how["span"]
    stdout = sys.stdout
    try:
        if how["k"] == "trace":
            tracer = CrashTracer(EXCS[how["exc"]]("injected"), at)
            with tracer:
                world.call(call)
        elif how["k"] == "io":
            SIM.fs = SimFS({"*": {str(1 + at % 3): "eio"}})
            world.call(call)
        elif how["k"] == "stdout":
            sys.stdout = SimStdout({"at": 1 + at % 4, "err": "EPIPE"}, keep=False)
            world.call(call)
        else:
            script = world.wrap[how["k"]]
            script.n = 0
            script.spec = {str(1 + at % 5): ["raise", how["exc"]]}
            world.call(call)
    except BaseException:                # pylint: disable=broad-except
        SIM.fired("crash." + how["k"])
        if how["k"] == "io":
            SIM.fired("io")
    finally:
        sys.settrace(None)
        sys.stdout = stdout
        SIM.fs = None
        for script in (world.wrap or {}).values():
            script.spec = {}


def _size(world):
    """(bytes held by the package and the caller's objects, objects, open files, threads)."""
    gc.collect()
    return (_reachable([m for n, m in sorted(sys.modules.items())
                        if n == "bfit" or n.startswith("bfit.")] + [world.pool]),
            len(gc.get_objects()), len(os.listdir("/proc/self/fd")), threading.active_count())


def _ours(name):
    return isinstance(name, str) and (name == "bfit" or name.startswith("bfit."))


def _reachable(roots):
    """Bytes of everything that can be reached, not going through other packages."""
    seen, todo, total = set(), list(roots), 0
    while todo:
        obj = todo.pop()
        if id(obj) in seen:
            continue
        seen.add(id(obj))
        if isinstance(obj, types.ModuleType):
            if _ours(obj.__name__):
                todo.append(obj.__dict__)
            continue
        if isinstance(obj, (type, types.FunctionType, types.BuiltinFunctionType)) and \
                not _ours(getattr(obj, "__module__", None)):
            continue
        if isinstance(obj, (types.CodeType, types.FrameType)) or obj is SIM:
            continue
        if isinstance(obj, np.ndarray):
            if obj.base is not None:
                todo.append(obj.base)
            elif obj.dtype.kind != "O":
                total += obj.nbytes
            if obj.dtype.kind == "O":
                todo.extend(obj.ravel().tolist())
            total += 100
            continue
        total += sys.getsizeof(obj, 64)
        todo.extend(gc.get_referents(obj))
    return total


def _cost(world, scn):
    """Executed lines of the first finished call, with the numbers of round 0."""
    for j, step in enumerate(scn["steps"]):
        if step["how"] is None:
            tracer = Budget(50_000_000)
            with tracer:
                guarded(world, step["call"], scn["salt"] + j)
            return tracer.n
    return 0


def _run(scn):
    world = World(scn["objs"], wrap=scn["wrap"], caller="forgets")
    sizes, costs = [], []
    try:
        with Budget(12_000_000):
            for j in range(len(scn["steps"])):
                guarded(world, scn["steps"][j]["call"], scn["salt"])
        costs = [_cost(world, scn), _cost(world, scn)]
        for k in range(WARM + WINDOW * WINDOWS):
            if k >= WARM and (k - WARM) % WINDOW == 0:
                sizes.append(_size(world))
            for j in range(len(scn["steps"])):
                _once(world, scn, j, k)
            SIM.fired("rounds")
        sizes.append(_size(world))
        costs.append(_cost(world, scn))
    except Hang as exc:
        return {"hang": str(exc), "info": child_info()}
    return {"sizes": sizes, "costs": costs, "info": child_info()}


def execute(scn, out):
    done = fork_run(_run, scn)
    out.merge_child(done["info"])
    if "hang" in done:
        out.violate("hang", done["hang"])
        return
    out.nontrivial = True
    names = [(label(s["call"], scn["objs"]), s["how"]["k"] if s["how"] else "")
             for s in scn["steps"]]
    out.keys.add(tuple(names))
    out.note(done["costs"], [s[2:] for s in done["sizes"]])
    what = f"{WINDOW} rounds of {names}"
    for place, (kind, least) in enumerate((("memory", 16 * WINDOW),
                                           ("objects", WINDOW // 2), ("files", 1),
                                           ("threads", 1))):
        grown = [b[place] - a[place] for a, b in zip(done["sizes"], done["sizes"][1:])]
        if all(x >= least for x in grown):
            out.violate(kind, f"after {WARM} rounds, {kind} grows by {grown} in each {what}")
            return
    first, last = max(done["costs"][:2]), done["costs"][-1]
    if last > 1.2 * first + 50:
        out.violate("work", f"{names[0][0]} took {first} executed lines at first and {last} after "
                    f"{WARM + WINDOWS * WINDOW} rounds of {names}")


def shrink(scn):
    if len(scn["steps"]) > 1:
        yield from drop_each(scn, "steps")
    for j, step in enumerate(scn["steps"]):
        if step["how"]:
            new = copy.deepcopy(scn)
            new["steps"][j]["how"] = None
            yield new
        for simple in simpler_calls(step["call"]):
            new = copy.deepcopy(scn)
            new["steps"][j]["call"] = simple
            yield new
    if scn["wrap"] and all(s["how"] is None or s["how"]["k"] in ("trace", "stdout", "io")
                           for s in scn["steps"]):
        yield dict(copy.deepcopy(scn), wrap=False)
    keep = needed(scn["objs"], [i for s in scn["steps"] for i in call_roots(s["call"])])
    if any(s["k"] != "unused" for i, s in enumerate(scn["objs"]) if i not in keep):
        new = copy.deepcopy(scn)
        new["objs"] = [s if i in keep else {"k": "unused"} for i, s in enumerate(scn["objs"])]
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
