"""C09: showing the progress changes nothing, and a display that fails is not ignored."""
import copy
import sys

from ..common import drop_each, simpler_calls, simpler_specs, use_stream
from ..engine import child_info, fork_run
from ..gen import Gen
from ..seams import SIM
from ..simio import SimStdout
from ..world import World, canon, exc_canon, same

LEVEL = "fault_enumeration"
RUNS = {"quick": 900, "thorough": 30000}
RULE = ("One run = 1-3 consecutive fits (KL-FPI, ScipyFit with both methods, greedy with all "
        "choice functions) on the same objects, with progress display on, once per kind of "
        "standard output: working, failing at the n-th write (full disk, broken pipe, Ctrl-C; "
        "once or for good), missing (None), or ASCII only. Compared with the same fits without "
        "display. Non-trivial: the display was on. distinct_nontrivial counts distinct (fits, "
        "kind of output, position of the fault).")
MEASURE = "(kinds of fits, stdout fault, n-th write)"
REAL = ["all of bfit", "numpy", "scipy.optimize"]
STUB = ["standard output", "clock", "random stream (one per call)"]
ASSUMPTIONS = ["only sys.stdout fails, not memory"]
MUST_FIRE = ["stdout.EPIPE", "stdout.ENOSPC", "stdout.interrupt", "stdout.none", "stdout.ascii"]


def generate(r, tier, i):
    g = Gen(r, small=True)
    grid = g.grid(("uni", "clen", "trapz", "cube"))
    dens = g.dens(grid)
    runs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        kind = r.choice(["fpi", "fpi", "sci", "sci", "greedy", "greedy"])
        reuse = [k for k, s in enumerate(g.objs) if s["k"] == kind or (
            kind == "greedy" and s["k"] in ("gls", "gkl"))]
        if reuse and r.random() < 0.6:
            j = r.choice(reuse)
        elif kind == "greedy":
            if g.objs[grid]["k"] not in ("uni", "clen"):
                continue
            j = g.greedy(grid=grid, dens=dens)
        else:
            model = g.model(grid, maxb=4)
            j = g.fpi(grid, dens, model) if kind == "fpi" else g.sci(grid, dens, model)
        call = g.greedy_run(j) if g.objs[j]["k"] in ("gls", "gkl") else g.fit_run(j)
        call["kw"]["disp"] = True
        runs.append(call)
    if not runs:
        model = g.model(grid, maxb=4)
        call = g.fit_run(g.fpi(grid, dens, model))
        call["kw"]["disp"] = True
        runs.append(call)
    fault = r.choice(["none", "ascii", "ok", "EPIPE", "ENOSPC", "interrupt", "EPIPE", "ENOSPC"])
    return {"objs": g.objs, "runs": runs, "fault": fault, "u": round(r.random(), 5),
            "which": r.randrange(len(runs)), "persist": r.random() < 0.3,
            "salt": r.randrange(10**6)}


def _drive(scn, disp, fault=None, at=None):
    world = World(scn["objs"], only=[])
    log = []
    for j, call in enumerate(scn["runs"]):
        call = copy.deepcopy(call)
        call["kw"]["disp"] = disp
        world.obj(call["o"])
        use_stream(scn["salt"] + j)
        out = SimStdout(keep=False)
        err = SimStdout(keep=False)
        if fault == "none":
            SIM.fired("stdout.none")
            sys.stdout = None
        else:
            if fault == "ascii":
                out.script = {"encoding": "ascii"}
            elif fault not in (None, "ok") and j == scn["which"]:
                out.script = {"at": at, "err": fault, "persist": scn["persist"]}
            sys.stdout = out
        old, sys.stderr = sys.stderr, err
        try:
            res = canon(world.call(call))
        except (Exception, KeyboardInterrupt) as exc:     # pylint: disable=broad-except
            res = exc_canon(exc)
        finally:
            sys.stderr = old
            sys.stdout = SimStdout(keep=False)
        log.append((res, out.writes, err.writes, out.fired))
    return {"log": log, "info": child_info()}


def execute(scn, out):
    silent = fork_run(_drive, scn, False)
    shown = fork_run(_drive, scn, True)
    out.runs += 1
    out.note(silent["log"], shown["log"])
    kinds = tuple(scn["objs"][c["o"]]["k"] for c in scn["runs"])
    out.nontrivial = True
    for j, (a, b) in enumerate(zip(silent["log"], shown["log"])):
        if a[1]:
            out.violate("noise", f"fit {j} ({kinds[j]}) prints although disp=False")
            return
        diff = same(a[0], b[0])
        if diff:
            out.violate("display", f"fit {j} ({kinds[j]}) changes with disp=True: {diff}")
            return
        if b[1] == 0:
            out.probes["nothing shown"] += 1
    if scn["fault"] == "ok":
        out.keys.add((kinds, "ok"))
        return
    at = 1 + int(scn["u"] * shown["log"][scn["which"]][1])
    done = fork_run(_drive, scn, True, scn["fault"], at)
    out.runs += 1
    out.merge_child(done["info"])
    out.note(done["log"])
    out.keys.add((kinds, scn["fault"], at, scn["persist"]))
    want = {"EPIPE": ("BrokenPipeError",), "ENOSPC": ("OSError",),
            "interrupt": ("KeyboardInterrupt",), "none": (), "ascii": ()}[scn["fault"]]
    for j, (a, b) in enumerate(zip(silent["log"], done["log"])):
        if isinstance(b[0], tuple) and b[0][0] == "exc" and b[0][1] in want \
                and j == scn["which"]:
            out.probes["fault reached the caller"] += 1
            continue
        if b[3]:
            out.violate("swallowed", f"fit {j} ({kinds[j]}): a write to standard output failed "
                        f"({scn['fault']} at write {at}), but the caller got {b[0][:3]}"
                        if isinstance(b[0], tuple) else
                        f"fit {j} ({kinds[j]}): a write to standard output failed "
                        f"({scn['fault']} at write {at}), but the caller was not told")
            return
        diff = same(a[0], b[0])
        if diff:
            out.violate("fault", f"fit {j} ({kinds[j]}) with stdout fault {scn['fault']} at write "
                        f"{at} of fit {scn['which']}: {diff}")
            return


def shrink(scn):
    if len(scn["runs"]) > 1:
        for new in drop_each(scn, "runs"):
            new["which"] = min(new["which"], len(new["runs"]) - 1)
            yield new
    for j, call in enumerate(scn["runs"]):
        for simple in simpler_calls(call):
            new = copy.deepcopy(scn)
            new["runs"][j] = simple
            yield new
    if scn["fault"] != "ok":
        yield dict(copy.deepcopy(scn), fault="ok")
    if scn["u"] > 0:
        yield dict(copy.deepcopy(scn), u=0.0)
        yield dict(copy.deepcopy(scn), u=round(scn["u"] / 2, 5))
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
