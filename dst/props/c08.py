"""C08: the clock decides nothing, and the reported time is the time it took."""
import copy
import re
import sys

import numpy as np

from ..common import drop_each, simpler_specs, use_stream
from ..engine import child_info, fork_run
from ..gen import Gen, rnd
from ..seams import SIM, SimClock
from ..simio import SimStdout
from ..world import World, canon, exc_canon, same

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 50000}
RULE = ("One run = 1-4 consecutive fits (KL-FPI, ScipyFit, greedy; sharing grid and density) on a "
        "simulated clock: integrate() and the optimizer take seeded time, the wall clock jumps "
        "forwards and backwards at seeded moments, CPU time stands still while waiting, and the "
        "epoch is arbitrary. Results are compared with the same fits on a clock that barely "
        "moves; reported times with the simulated elapsed time. Non-trivial: simulated time "
        "passed inside a fit. distinct_nontrivial counts distinct (fits, latency class, jumps).")
MEASURE = "(kinds of fits, latency class, number and sign of wall clock jumps, display)"
REAL = ["all of bfit", "numpy", "scipy.optimize"]
STUB = ["all clocks of the time and timeit modules", "latency of integrate() and the optimizer",
        "stdout"]
ASSUMPTIONS = ["computing takes no simulated time; integrate() and the optimizer do"]
MUST_FIRE = ["clock.jump", "latency", "time checked"]


def generate(r, tier, i):
    g = Gen(r, small=True)
    grid = g.grid(("uni", "clen", "trapz", "cube"))
    dens = g.dens(grid)
    fgrid = g.add({"k": "fgrid", "base": grid})
    runs = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        kind = r.choice(["fpi", "fpi", "sci", "sci", "greedy"])
        if kind == "greedy" and g.objs[grid]["k"] in ("uni", "clen"):
            j = g.greedy(grid=fgrid, dens=dens)
            runs.append(g.greedy_run(j, maxf=2 if g.objs[j]["choice"] == "pick-one" else 3))
            continue
        reuse = [k for k, s in enumerate(g.objs) if s["k"] == kind]
        if reuse and r.random() < 0.5:
            j = r.choice(reuse)
        else:
            model = g.model(grid, maxb=3)
            j = g.fpi(fgrid, dens, model) if kind != "sci" else g.sci(fgrid, dens, model)
        runs.append(g.fit_run(j))
    lat = r.choice([0.0, 1e-4, 0.01, 1.0, 500.0])
    return {"objs": g.objs, "fgrid": fgrid, "runs": runs, "salt": r.randrange(10**6),
            "dt": rnd(lat * r.uniform(0.5, 2.0), 4), "opt_dt": rnd(lat * r.uniform(1, 20), 4),
            "jumps": {str(r.randint(1, 60)): r.choice([-3600.0, -1e6, 3600.0, 1e8, -0.5])
                      for _ in range(r.choice([0, 1, 2, 3]))},
            "mono": r.choice([0.0, 1.0, 1e6, 1e9]), "wall": r.choice([0.0, 1.7e9, 4e9]),
            "pause": r.choice([0.0, 0.5, 10.0, 1e5])}


_TIME = re.compile(r".*\b(time|elapsed|duration|seconds?)\b", re.I)


def _calm(scn):
    return {"dt": 0.0, "opt_dt": 0.0, "jumps": {}, "mono": 1000.0, "wall": 1.7e9, "pause": 0.0}


def _drive(scn, how):
    SIM.clock = SimClock(how["mono"], how["wall"],
                         jumps={int(k): v for k, v in how["jumps"].items()})
    world = World(scn["objs"], only=[])
    grid = world.obj(scn["fgrid"])
    results, times, printed = [], [], []
    spent = {"in": 0.0, "opt": 0.0}

    def optimizer(real, *args, **kwargs):
        start = SIM.clock.mono
        SIM.clock.advance(how["opt_dt"])
        try:
            return real(*args, **kwargs)
        finally:
            spent["opt"] += SIM.clock.mono - start
            spent["n"] += 1

    SIM.optimizer = optimizer
    for call in scn["runs"]:
        world.obj(call["o"])
    SIM.clock.advance(how["pause"])      # objects may be used long after they were made
    for j, call in enumerate(scn["runs"]):
        grid.script.spec = {"dt": how["dt"]}
        use_stream(scn["salt"] + j)
        spent.update({"opt": 0.0, "n": 0})
        first = SIM.clock.mono
        n0 = grid.script.n
        shown = sys.stdout = SimStdout()
        try:
            raw = world.call(call)
            res = canon(raw)
            time = raw.get("time")
        except Exception as exc:         # pylint: disable=broad-except
            res, time = exc_canon(exc), None
        grid.script.spec = {}
        results.append(res)
        # what is shown, but for the line with the time
        printed.append([line for line in "".join(shown.lines).split("\n")
                        if not _TIME.match(line)])
        times.append({"time": time, "elapsed": SIM.clock.mono - first, "opt": spent["opt"],
                      "nopt": spent["n"], "waits": (grid.script.n - n0) * how["dt"]})
        SIM.clock.advance(how["pause"])
        if how["dt"] and grid.script.n > n0:
            SIM.fired("latency")
    if SIM.clock.jumped:
        SIM.fired("clock.jump", SIM.clock.jumped)
    return {"results": results, "times": times, "printed": printed, "info": child_info()}


def execute(scn, out):
    done = fork_run(_drive, scn, scn)
    ref = fork_run(_drive, scn, _calm(scn))
    out.runs += 1
    out.merge_child(done["info"])
    out.note(done["results"], [t["time"] for t in done["times"]])
    kinds = tuple(scn["objs"][c["o"]]["k"] for c in scn["runs"])
    moved = any(t["elapsed"] > 1e-3 for t in done["times"])
    out.nontrivial = moved or bool(scn["jumps"])
    if out.nontrivial:
        signs = tuple(sorted("+" if v > 0 else "-" for v in scn["jumps"].values()))
        lat = 0 if not scn["dt"] else int(np.floor(np.log10(scn["dt"])))
        out.keys.add((kinds, lat, signs, tuple(bool(c["kw"].get("disp")) for c in scn["runs"])))
    for j, (got, want, t) in enumerate(zip(done["results"], ref["results"], done["times"])):
        diff = same(want, got)
        if diff:
            out.violate("result", f"fit {j} ({kinds[j]}) depends on the clock: {diff}")
            return
        rows = [x["printed"][j] for x in (done, ref)]
        if rows[0] != rows[1]:
            out.violate("shown", f"fit {j} ({kinds[j]}) prints {len(rows[0])} lines, and other "
                        f"ones ({len(rows[1])}) on another clock")
            return
        out.probes["history compared"] += len(rows[0]) > 1
        if t["time"] is None:
            continue
        time = float(t["time"])
        slack = 1e-9 * abs(SIM.clock.mono) + 1e-3 + 1e-9 * max(scn["mono"], 1.0) \
            + 1e-9 * t["elapsed"]
        low, high = 0.0, t["elapsed"] + slack
        if kinds[j] == "sci":
            low = t["opt"] - slack
        elif kinds[j] == "fpi":
            # everything but a small set-up is the algorithm
            low = t["waits"] * 0.9 - slack
        out.probes["time checked"] += 1
        if not low <= time <= high or time < 0:
            out.violate("time", f"fit {j} ({kinds[j]}) reports {time!r} s, but took "
                        f"{t['elapsed']!r} s of which {t['opt'] or t['waits']!r} s in the "
                        f"optimization")
            return


def shrink(scn):
    if len(scn["runs"]) > 1:
        yield from drop_each(scn, "runs")
    for key in list(scn["jumps"]):
        new = copy.deepcopy(scn)
        del new["jumps"][key]
        yield new
    for key, val in _calm(scn).items():
        if scn[key] != val:
            yield dict(copy.deepcopy(scn), **{key: val})
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
