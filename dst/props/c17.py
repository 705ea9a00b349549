"""C17: a model resized through any history is the model of that size, also in fits that share it."""
import copy

from ..common import (alone, battery, check_battery, drop_battery, run_battery, drop_each,
                      fork_run, label, simpler_specs, use_stream)
from ..engine import child_info
from ..gen import Gen
from ..sched import Budget, Hang
from ..seams import SIM
from ..world import World, canon, exc_canon, same

LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 60000}
RULE = ("One run = one atomic Gaussian model shared by 1-3 fits and a history of 4-10 steps: "
        "resizes to any numbers of s and p functions, resizes that are refused, evaluations with "
        "and without derivatives, fits of every kind, refused calls, fits cut by an exception of "
        "the grid. Every call is compared with the same call on fresh objects built with the size "
        "the model has at that moment. Non-trivial: a call followed a resize to another size. "
        "distinct_nontrivial counts distinct (sizes, call kinds).")
MEASURE = "sequence of (sizes of the model, call kind)"
REAL = ["all of bfit", "numpy", "scipy.optimize"]
STUB = ["clock", "stdout", "the caller", "exceptions raised by the grid"]
ASSUMPTIONS = ["sizes are non-negative integers with at least one function"]
MUST_FIRE = ["resize", "resize refused", "integrate.raise.PluginError"]


def generate(r, tier, i):
    g = Gen(r, small=True)
    base = g.grid(("uni", "clen", "trapz", "cube"))
    grid = g.add({"k": "fgrid", "base": base})
    dens = g.dens(base)
    model = g.model(base, kind="atom")
    targets = [model]
    for _ in range(r.randint(1, 3)):
        targets.append(g.fpi(grid, dens, model) if r.random() < 0.5
                       else g.sci(grid, dens, model))
    three = g.is3d(base)
    for t in targets[1:]:
        if three:
            g.objs[t]["sph"] = False
    start = [g.objs[model]["s"], g.objs[model]["p"]]
    steps = []
    last = None
    for _ in range(r.randint(4, 9)):
        roll = r.random()
        if roll < 0.4:
            size = r.choice([[1, 0], [2, 0], [3, 0], [1, 1], [2, 1], [1, 2], [0, 1], [0, 2],
                             [0, 3], [2, 2], [4, 1], [3, 3]])
            if r.random() < 0.3:         # there and back again, and the same total
                s, p = g.objs[model]["s"], g.objs[model]["p"]
                size = r.choice([[p, s], [s, p], start])
            g.objs[model]["s"], g.objs[model]["p"] = size
            steps.append({"op": "resize", "size": list(size)})
        elif roll < 0.5:
            steps.append({"op": "refused", "size": r.choice([
                [2.0, 1], [1, "1"], [3, 1.5], ["2", 2], [4, 2.0]])})
        else:
            obj = r.choice(targets)
            if last is not None and r.random() < 0.3:
                obj = last
            last = obj
            call = (g.bad_call(obj) if r.random() < 0.1 else None) or g.call(obj)
            cut = None
            if obj != model and r.random() < 0.25:
                cut = r.randint(1, 12)
            steps.append({"op": "call", "call": call, "cut": cut,
                          "size": [g.objs[model]["s"], g.objs[model]["p"]]})
    final = [g.objs[model]["s"], g.objs[model]["p"]]
    last = battery(g, targets)
    g.objs[model]["s"], g.objs[model]["p"] = start
    return {"battery": last, "final": final, "objs": g.objs, "model": model, "grid": grid, "steps": steps,
            "salt": r.randrange(10 ** 6)}


def _run(scn):
    world = World(scn["objs"])
    model, grid = world.obj(scn["model"]), world.obj(scn["grid"])
    results = []
    for j, step in enumerate(scn["steps"]):
        res = None
        try:
            if step["op"] in ("resize", "refused"):
                try:
                    model.change_numb_s_and_numb_p(*step["size"])
                    SIM.fired("resize")
                except TypeError:
                    SIM.fired("resize refused")
                    res = ("refused",)
            else:
                use_stream(scn["salt"] + j)
                grid.script.n = 0
                grid.script.spec = {} if step["cut"] is None else {
                    str(step["cut"]): ["raise", "PluginError"]}
                try:
                    with Budget(12_000_000):
                        res = canon(world.call(step["call"]))
                finally:
                    grid.script.spec = {}
        except Hang as exc:
            res = ("exc", "Hang", str(exc))
        except Exception as exc:         # pylint: disable=broad-except
            res = exc_canon(exc)
        results.append(res)
    last = run_battery(world, scn.get("battery", []), scn["salt"])
    return results, last, child_info()


def execute(scn, out):
    results, last, info = fork_run(_run, scn)
    out.merge_child(info)
    out.note(results)
    start = [scn["objs"][scn["model"]]["s"], scn["objs"][scn["model"]]["p"]]
    trail = []
    moved = False
    for j, step in enumerate(scn["steps"]):
        if step["op"] == "resize":
            moved = moved or step["size"] != start
            if results[j] is not None:
                out.violate("resize", f"step {j}: resizing to {step['size']}: {results[j]}")
                return
            trail.append(tuple(step["size"]))
            continue
        if step["op"] == "refused":
            trail.append("refused")
            if results[j] != ("refused",):
                # whatever was accepted, the model's size is no longer known
                return
            continue
        trail.append((label(step["call"], scn["objs"]), step["cut"] is not None))
        out.nontrivial = out.nontrivial or moved
        if step["cut"] is not None:
            res = results[j]
            if isinstance(res, tuple) and res[0] == "exc" and res[1] == "PluginError":
                continue
        specs = copy.deepcopy(scn["objs"])
        specs[scn["model"]]["s"], specs[scn["model"]]["p"] = step["size"]
        ref, _ = alone(specs, step["call"], scn["salt"] + j)
        out.runs += 1
        diff = same(ref, results[j])
        if diff:
            out.violate("size", f"step {j} {trail[-1][0]} of a model resized through "
                        f"{trail[:-1]} differs from a fresh model of size {step['size']}: {diff}")
            return
    specs = copy.deepcopy(scn["objs"])
    specs[scn["model"]]["s"], specs[scn["model"]]["p"] = scn["final"]
    check_battery(scn, out, last, f"after {trail}", specs)
    if out.nontrivial:
        out.keys.add(tuple(str(x) for x in trail))


def _fix(scn):
    """Recompute nothing: steps keep the sizes they were generated for."""
    size = [scn["objs"][scn["model"]]["s"], scn["objs"][scn["model"]]["p"]]
    for step in scn["steps"]:
        if step["op"] == "resize":
            size = step["size"]
        elif step["op"] == "call" and step["size"] != size:
            return None
    if scn.get("battery") and size != scn["final"]:
        return None
    return scn


def shrink(scn):
    yield from drop_battery(scn)
    for new in drop_each(scn, "steps"):
        if _fix(new) is not None:
            yield new
    for j, step in enumerate(scn["steps"]):
        if step.get("cut") is not None:
            new = copy.deepcopy(scn)
            new["steps"][j]["cut"] = None
            yield new
        if step["op"] == "resize":
            # start with this size
            new = copy.deepcopy(scn)
            spec = new["objs"][new["model"]]
            spec["s"], spec["p"] = step["size"]
            del new["steps"][:j + 1]
            if new["steps"] and _fix(new) is not None:
                yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
