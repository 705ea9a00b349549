"""C04: a fixed-point fit that is stopped, killed and restarted ends where it would have."""
import copy
import os

import numpy as np

from ..common import drop_each, simpler_specs
from ..engine import child_info, fork_run
from ..gen import Gen
from ..sched import Budget, CrashTracer
from ..world import EXCS, World, canon
from ..world import same as roughly_same

LEVEL = "fault_enumeration"
RUNS = {"quick": 1000, "thorough": 20000}
RULE = ("One run = one KL-FPI fit (random grid, density, model, start and option flags) of n "
        "iterations, executed once without interruption and once as a seeded schedule of segments: "
        "stopped and resumed on the same object, on a fresh object, in a fresh process, killed at "
        "a seeded source line and restarted from the last checkpoint, or interrupted by an "
        "exception and resumed on the surviving object. Only the checkpointed coefficients and "
        "exponents survive. Rows, parameters and the rows of runs with thresholds are compared. "
        "Non-trivial: at least two segments ran and all rows are finite. distinct_nontrivial "
        "counts distinct (flags, segment lengths and kinds).")
MEASURE = "(flags, sequence of (segment length, way of stopping))"
REAL = ["all of bfit", "numpy"]
STUB = ["process death (os._exit at a traced line)", "asynchronous exceptions", "clock", "stdout"]
ASSUMPTIONS = ["a checkpoint keeps coefficients and exponents exactly (bit for bit)"]
MUST_FIRE = ["kill", "interrupt", "fresh_process"]
OFF = {"c_threshold": -1.0, "e_threshold": -1.0, "d_threshold": -1.0}


def same(a, b):
    """Differences beyond the last digits: a continued fit does exactly the same arithmetic."""
    return roughly_same(a, b, 1e-12, 1e-15)


def generate(r, tier, i):
    g = Gen(r, small=True)
    grid = g.grid()
    dens = g.dens(grid, slater=0.15)
    model = g.model(grid, maxb=5)
    fit = g.fpi(grid, dens, model)
    n = g.nbasis(model)
    flags = r.choice([(True, True), (True, True), (True, False), (False, True)])
    total = r.randint(2, 14)
    segs, left = [], total
    while left:
        k = min(left, r.choice([1, 1, 2, 3, 5]))
        kind = r.choice(["same", "fresh_object", "fresh_process", "kill", "interrupt"])
        seg = {"n": k, "kind": kind, "disp": r.random() < 0.2}
        if kind in ("kill", "interrupt"):
            seg["u"] = round(r.random(), 5)
            seg["exc"] = r.choice(["KeyboardInterrupt", "MemoryError"])
        if r.random() < 0.25:
            seg["between"] = r.choice(["gof", "refused", "other_fit"])
        segs.append(seg)
        left -= k
    thr = [r.choice([1e-1, 1e-2, 1e-3, 1e-5, 0.0]) for _ in range(3)]
    return {"objs": g.objs, "fit": fit, "c": g.coeffs(n, False), "e": g.expons(n, False),
            "flags": flags, "segs": segs, "thr": thr, "cap": r.randint(1, total)}


def _run_one(world, scn, c, e, n, disp=False, thr=OFF):
    with Budget(12_000_000):
        return world.obj(scn["fit"]).run(
            np.array(c), np.array(e), opt_coeffs=scn["flags"][0], opt_expons=scn["flags"][1],
            maxiter=n, disp=disp, **thr)


def _reference(scn, n, thr=OFF):
    def body():
        world = World(scn["objs"], only=[])
        try:
            return canon(_run_one(world, scn, scn["c"], scn["e"], n, thr=thr))
        except Exception as exc:         # pylint: disable=broad-except
            return ("exc", type(exc).__name__, str(exc))
    return fork_run(body)


def _segment(world, scn, state, seg):
    """One segment on live objects: (new state, rows, fun)."""
    res = _run_one(world, scn, state[0], state[1], seg["n"], seg["disp"])
    return ((np.array(res["coeffs"]), np.array(res["exps"])), np.array(res["performance"]),
            np.array(res["fun"]))


def _killed(scn, state, seg):
    """The same segment in a process that dies on the way. Never returns a result."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            world = World(scn["objs"], only=[])
            world.obj(scn["fit"])
            tracer = CrashTracer()

            class Die(BaseException):
                pass

            # number of events is not known in advance: die at a fraction of a dry run
            with tracer:
                _segment_quiet(world, scn, state, seg)
            at = int(seg["u"] * tracer.n)
            world = World(scn["objs"], only=[])
            world.obj(scn["fit"])
            tracer = CrashTracer(Die(), at)
            try:
                with tracer:
                    _segment_quiet(world, scn, state, seg)
            except Die:
                os.write(wfd, b"1")
        finally:
            os._exit(9)
    os.close(wfd)
    died = os.read(rfd, 1)
    os.close(rfd)
    os.waitpid(pid, 0)
    return bool(died)


def _segment_quiet(world, scn, state, seg):
    world.obj(scn["fit"]).run(
        np.array(state[0]), np.array(state[1]), opt_coeffs=scn["flags"][0],
        opt_expons=scn["flags"][1], maxiter=seg["n"], disp=False, **OFF)


def _between(world, scn, what):
    fit = world.obj(scn["fit"])
    n = len(scn["c"])
    try:
        if what == "gof":
            fit.goodness_of_fit(np.full(n, 2.0), np.full(n, 0.7))
        elif what == "refused":
            fit.run(np.ones(n + 1), np.ones(n))
        else:
            fit.run(np.full(n, 3.0), np.linspace(0.5, 1.5, n), maxiter=2)
    except (ValueError, TypeError, AssertionError):
        pass


def _scheduled(scn):
    from ..seams import SIM
    world = World(scn["objs"], only=[])
    world.obj(scn["fit"])
    state = (np.array(scn["c"], dtype=float), np.array(scn["e"], dtype=float))
    rows, fun = [], []
    for seg in scn["segs"]:
        if seg.get("between"):
            _between(world, scn, seg["between"])
        kind = seg["kind"]
        if kind == "fresh_object":
            world = World(scn["objs"], only=[])
        elif kind == "fresh_process":
            SIM.fired("fresh_process")
            def body(state=state, seg=seg):
                return _segment(World(scn["objs"], only=[]), scn, state, seg)
            new, part, pfun = fork_run(body, reset=False)
            state = new
            rows.append(part)
            fun.append(pfun)
            continue
        elif kind == "kill":
            if _killed(scn, state, seg):
                SIM.fired("kill")
            world = World(scn["objs"], only=[])
        elif kind == "interrupt":
            tracer = CrashTracer()
            other = World(scn["objs"], only=[])
            other.obj(scn["fit"])
            with tracer:
                _segment_quiet(other, scn, state, seg)
            tracer = CrashTracer(EXCS[seg["exc"]]("injected"), int(seg["u"] * tracer.n))
            try:
                with tracer:
                    _segment_quiet(world, scn, state, seg)
            except (KeyboardInterrupt, MemoryError):
                SIM.fired("interrupt")
        state, part, pfun = _segment(world, scn, state, seg)
        rows.append(part)
        fun.append(pfun)
    # every iteration as its own run: the trajectory of the parameters
    path = [(np.array(scn["c"], dtype=float), np.array(scn["e"], dtype=float))]
    for _ in range(sum(s["n"] for s in scn["segs"])):
        new, _, _ = _segment(World(scn["objs"], only=[]), scn, path[-1], {"n": 1, "disp": False})
        path.append(new)
    return {"state": canon(list(state)), "rows": np.concatenate(rows), "fun": np.concatenate(fun),
            "path": path, "info": child_info()}


def execute(scn, out):
    total = sum(s["n"] for s in scn["segs"])
    ref = _reference(scn, total)
    out.note(ref)
    if ref[0] == "exc":
        out.probes["refused fit"] += 1
        return
    ref = ref[1]
    rows = ref["performance"][3]
    if len(rows) != total or not np.all(np.isfinite(rows)):
        out.probes["breakdown"] += 1
        return
    done = fork_run(_scheduled, scn)
    out.merge_child(done["info"])
    out.runs += 2 + sum(1 for s in scn["segs"] if s["kind"] in ("kill", "fresh_process"))
    out.note(done["state"], done["rows"])
    out.nontrivial = len(scn["segs"]) > 1
    out.keys.add((tuple(scn["flags"]), tuple((s["n"], s["kind"]) for s in scn["segs"])))
    diff = same(("arr", "f", rows.shape, rows), ("arr", "f", done["rows"].shape, done["rows"]))
    if diff:
        out.violate("rows", f"rows of the resumed fit differ from the uninterrupted one: {diff}")
        return
    fun = ref["fun"][3]
    diff = same(("arr", "f", fun.shape, fun), ("arr", "f", done["fun"].shape, done["fun"]))
    if diff:
        out.violate("fun", f"objectives of the resumed fit differ: {diff}")
        return
    diff = same(("seq", [ref["coeffs"], ref["exps"]]), done["state"])
    if diff:
        out.violate("params", f"parameters of the resumed fit differ: {diff}")
        return
    # runs with thresholds, and runs with a lower cap, are prefixes of the long one
    for name, cap, thr in (("thresholds", total, scn["thr"]), ("maxiter", scn["cap"], None)):
        opts = OFF if thr is None else dict(zip(("c_threshold", "e_threshold", "d_threshold"), thr))
        res = _reference(scn, cap, opts)
        out.runs += 1
        if res[0] == "exc":
            out.violate("prefix", f"{name}: raises {res[1:]} where the long run does not")
            return
        res = res[1]
        part = res["performance"][3]
        k = len(part)
        out.note(part)
        if k > cap or (thr is None and k != cap) or k < 1:
            out.violate("prefix", f"{name}: {k} rows with maxiter={cap}")
            return
        diff = same(("arr", "f", part.shape, rows[:k]), ("arr", "f", part.shape, part)) or same(
            canon(list(done["path"][k])), ("seq", [res["coeffs"], res["exps"]]))
        if diff:
            out.violate("prefix", f"{name}: a run of {k} iterations is not the beginning of the "
                        f"run of {total}: {diff}")
            return
        out.probes[f"prefix {name} {'short' if k < total else 'full'}"] += 1


def shrink(scn):
    if len(scn["segs"]) > 1:
        yield from drop_each(scn, "segs")
    for j, seg in enumerate(scn["segs"]):
        for change in ({"kind": "same"}, {"kind": "fresh_object"}, {"disp": False},
                       {"between": None}, {"n": 1}):
            key, val = next(iter(change.items()))
            if seg.get(key) != val and key in seg:
                new = copy.deepcopy(scn)
                new["segs"][j][key] = val
                yield new
    if scn["cap"] > 1:
        yield dict(copy.deepcopy(scn), cap=1)
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
