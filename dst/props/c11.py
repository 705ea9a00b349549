"""C11: a greedy fit is a function of its inputs and numpy's global seed, run after run."""
import copy
import os
import subprocess
import sys

import numpy as np

from ..common import simpler_specs
from ..engine import VERIF, child_info, fork_run
from ..gen import Gen
from ..seams import SIM, SimClock
from ..world import World, canon, exc_canon, same

LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 20000}
RULE = ("One run = one greedy fit with a seed of numpy's global generator, repeated under seeded "
        "disturbances: on the same object after other runs (finished, cut by an exception, with "
        "other limits), on a second object, with another clock, another state of Python's random "
        "module, in a process with another string hash seed. All must give the same history. "
        "Runs with a lower limit on functions or a looser threshold must be beginnings of it. "
        "Non-trivial: at least one function was added. distinct_nontrivial counts distinct (kind, "
        "choice function, disturbances, steps).")
MEASURE = "(kind, choice function, sequence of disturbances, number of accepted steps)"
REAL = ["all of bfit", "numpy incl. its global random generator", "scipy.optimize"]
STUB = ["clock", "stdout", "exceptions raised by the grid"]
ASSUMPTIONS = ["one machine and one version of numpy and scipy"]
MUST_FIRE = ["again", "other", "process", "shorter", "looser"]


def generate(r, tier, i):
    g = Gen(r, small=True)
    grid = g.grid(("uni", "clen"))
    dens = g.dens(grid, scale=1.0)
    fgrid = g.add({"k": "fgrid", "base": grid})
    o = g.greedy(grid=fgrid, dens=dens)
    g.objs[o]["kw"].update(l_maxiter=r.randint(2, 8), g_maxiter=r.randint(3, 15))
    two = g.objs[o]["choice"] != "pick-one"
    maxf = r.randint(3, 4) if two else r.randint(3, 5)
    acts = []
    for _ in range(r.randint(1, 3)):
        kind = r.choice(["again", "again", "other", "shorter", "looser", "shorter"])
        act = {"k": kind}
        if kind in ("again", "shorter", "looser"):
            act["before"] = [r.choice(["run", "cut", "short", "refused", "model"])
                             for _ in range(r.choice([0, 1, 1, 2]))]
            act["u"] = round(r.random(), 4)
        if kind == "shorter":
            act["maxf"] = r.randint(1, maxf - 1)
        if kind == "looser":
            act["dthr"] = r.choice([1e-6, 1e-4, 1e-2, 1.0])
        acts.append(act)
    if i % 25 == 7:
        acts.append({"k": "process", "hash": r.randint(2, 4000)})
    return {"objs": g.objs, "o": o, "fgrid": fgrid, "seed": r.randrange(2**31),
            "factor": round(r.uniform(1.3, 4.0), 2), "maxf": maxf, "acts": acts}


def _fit(obj, scn, maxf=None, dthr=1e-10):
    np.random.seed(scn["seed"])
    try:
        return canon(obj.run(scn["factor"], dthr, scn["maxf"] if maxf is None else maxf))
    except Exception as exc:             # pylint: disable=broad-except
        return exc_canon(exc)


def _disturb(world, scn, what, u):
    obj = world.obj(scn["o"])
    grid = world.obj(scn["fgrid"])
    np.random.seed(int(u * 1e6))
    try:
        if what == "run":
            obj.run(1.7, 1e-6, 3)
        elif what == "short":
            obj.run(2.5, 1e-6, 1)
        elif what == "refused":
            obj.run(-1.0)
        elif what == "model":
            obj.store_errors(np.array([1.0, 2.0]))
        else:
            grid.script.n = 0
            grid.script.spec = {str(10 + int(u * 900)): ["raise", "PluginError"]}
            obj.run(scn["factor"], 1e-8, 3)
    except Exception:                    # pylint: disable=broad-except
        SIM.fired("disturbed by " + what)
    finally:
        grid.script.spec = {}


def _base(scn):
    world = World(scn["objs"], only=[])
    return _fit(world.obj(scn["o"]), scn)


def _acts(scn):
    import random
    world = World(scn["objs"], only=[])
    world.obj(scn["o"])
    results = []
    for act in scn["acts"]:
        kind = act["k"]
        if kind == "process":
            results.append(None)
            continue
        for what in act.get("before", ()):
            _disturb(world, scn, what, act["u"])
        if kind == "other":
            SIM.clock = SimClock(77.0, 9e9)
            random.seed(99)
            res = _fit(World(scn["objs"], only=[]).obj(scn["o"]), scn)
        elif kind == "again":
            res = _fit(world.obj(scn["o"]), scn)
        elif kind == "shorter":
            res = _fit(world.obj(scn["o"]), scn, maxf=act["maxf"])
        else:
            res = _fit(world.obj(scn["o"]), scn, dthr=act["dthr"])
        SIM.reached(kind)
        results.append(res)
    return {"results": results, "info": child_info()}


def other_process(scn, hashseed):
    """The fit in an interpreter with another hash seed: digest of its result."""
    import json
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    code = ("import sys, json; from dst import seams; seams.install();\n"
            "from dst.props import c11; from dst.engine import fork_run\n"
            "import pickle; sys.stdout.buffer.write(pickle.dumps("
            "fork_run(c11._base, json.loads(sys.stdin.read()))))")
    res = subprocess.run([sys.executable, "-c", code], input=json.dumps(scn).encode(), cwd=VERIF,
                         env=env, capture_output=True, timeout=120, check=True)
    import pickle
    return pickle.loads(res.stdout)


def _beginning(long, short, maxf=None, inc=1, dthr=None):
    """Whether a history is a beginning of another. None or the difference."""
    if long[0] == "exc":
        return None                      # it may be a later step that failed
    if short[0] == "exc":
        return same(long, short)
    a, b = long[1]["parameters_iteration"][1], short[1]["parameters_iteration"][1]
    if len(b) > len(a):
        return f"{len(b)} steps instead of at most {len(a)}"
    diff = same(("seq", a[:len(b)]), ("seq", b))
    if diff:
        return diff
    want = len(a)
    if maxf is not None:
        want = max(1, min(len(a), 1 + (maxf - 1) // inc))
        if len(b) != want:
            return f"{len(b) - 1} functions added with max_numb_funcs={maxf}, expected {want - 1}"
    return None


def execute(scn, out):
    base = fork_run(_base, scn)
    done = fork_run(_acts, scn)
    out.runs += 1
    out.merge_child(done["info"])
    out.note(base, done["results"])
    spec = scn["objs"][scn["o"]]
    inc = 2 if spec["choice"] == "pick-two" else 1
    steps = 0 if base[0] == "exc" else len(base[1]["parameters_iteration"][1]) - 1
    out.nontrivial = steps > 0
    if out.nontrivial:
        out.keys.add((spec["k"], spec["choice"],
                      tuple((a["k"], tuple(a.get("before", ()))) for a in scn["acts"]), steps))
    for act, res in zip(scn["acts"], done["results"]):
        what = act["k"]
        if what == "process":
            out.probes["process"] += 1
            out.runs += 1
            diff = same(base, other_process(scn, act["hash"]))
        elif what == "shorter":
            diff = _beginning(base, res, act["maxf"], inc)
        elif what == "looser":
            diff = _beginning(base, res)
        else:
            diff = same(base, res)
        if diff:
            out.violate(what, f"the same greedy fit with the same seed "
                        f"({ {k: v for k, v in act.items() if k != 'u'} }): {diff}")
            return


def shrink(scn):
    if len(scn["acts"]) > 1:
        for j in range(len(scn["acts"])):
            new = copy.deepcopy(scn)
            del new["acts"][j]
            yield new
    for j, act in enumerate(scn["acts"]):
        if act.get("before"):
            new = copy.deepcopy(scn)
            new["acts"][j]["before"] = act["before"][1:]
            yield new
    if scn["maxf"] > 2:
        new = copy.deepcopy(scn)
        new["maxf"] -= 1
        for act in new["acts"]:
            if "maxf" in act:
                act["maxf"] = min(act["maxf"], new["maxf"] - 1)
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
