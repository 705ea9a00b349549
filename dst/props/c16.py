"""C16: objects that are pickled or copied, and restored in another process, carry on the same."""
import copy
import pickle

import numpy as np

from ..common import (alone, battery, call_roots, check_battery, drop_battery, run_battery,
                      drop_each, fork_run, guarded, label, needed,
                      simpler_calls, simpler_specs)
from ..crash import cut_short, dry_run, gen_how, place
from ..engine import child_info
from ..gen import shared_world
from ..sched import Budget, Hang
from ..seams import SIM
from ..world import World, same

LEVEL = "fault_enumeration"
RUNS = {"quick": 1500, "thorough": 25000}
RULE = ("One run = shared objects with a history (calls, some cut short by a fault), then the "
        "process dies: only the pickled (or, in the same process, copied) objects survive. A new "
        "process restores them and makes 1-3 calls, which are compared with fresh objects. "
        "Non-trivial: the restored object had a history. distinct_nontrivial counts distinct "
        "(history of call kinds, way of saving, calls after restoring). After copying in the same process one set of objects "
        "(originals or copies) is called, resized and overwritten, and the other set judged.")
MEASURE = "(call kinds before, way of saving, call kinds after)"
REAL = ["all of bfit", "numpy", "scipy.optimize", "pickle", "copy"]
STUB = ["process death and restart (a new fork of a pristine interpreter)", "faults", "clock",
        "stdout"]
ASSUMPTIONS = ["the saved bytes are intact"]
MUST_FIRE = ["restored.pickle", "restored.deepcopy", "other side resized",
             "other side overwritten"]


def generate(r, tier, i):
    g, targets = shared_world(r)
    hot = r.choice(targets)
    before, after = [], []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        call = g.call(hot if r.random() < 0.7 else r.choice(targets)) or g.loader()
        how = gen_how(r, call, g.objs, False) if r.random() < 0.3 else None
        before.append({"call": call, "how": how})
    for _ in range(r.choice([1, 2, 3])):
        if before and r.random() < 0.25:
            after.append(copy.deepcopy(r.choice(before)["call"]))
        else:
            after.append(g.call(hot if r.random() < 0.7 else r.choice(targets)) or g.loader())
    return {"objs": g.objs, "before": before, "after": after, "salt": r.randrange(10**6),
            "battery": battery(g, targets) if r.random() < 0.5 else [],
            "how": r.choice(["pickle", "pickle", "pickle2", "deepcopy", "copy", "each", "clone"]),
            "again": r.random() < 0.3, "other": other_side(g, r, targets)}


def other_side(g, r, targets):
    """What happens to the other objects (the originals or the copies) before the calls."""
    if r.random() < 0.3:
        return None
    calls = [g.call(r.choice(targets)) or g.loader() for _ in range(r.choice([0, 1, 1, 2]))]
    sizes = {}
    for i, spec in enumerate(g.objs):
        if spec["k"] == "atom" and r.random() < 0.6:
            sizes[str(i)] = r.choice([[2, 1], [3, 0], [0, 1], [1, 3]])
    return {"use": r.choice(["copies", "originals"]), "calls": calls, "sizes": sizes,
            "overwrite": r.random() < 0.4}


def _history(scn, world):
    for j, step in enumerate(scn["before"]):
        if step["how"] is None:
            with Budget(12_000_000):
                guarded(world, step["call"], scn["salt"] + 100 + j)
        else:
            cut_short(world, step["call"], step["how"], scn["salt"] + 100 + j)


def _save(scn):
    world = World(scn["objs"])
    _history(scn, world)
    try:
        blob = pickle.dumps(world.pool, protocol=2 if scn["how"] == "pickle2" else 4)
    except Exception as exc:             # pylint: disable=broad-except
        return {"err": f"{type(exc).__name__}: {exc}", "info": child_info()}
    return {"blob": blob, "info": child_info()}


def _restore(scn, blob):
    world = World(scn["objs"], only=[])
    try:
        world.pool = pickle.loads(blob)
    except Exception as exc:             # pylint: disable=broad-except
        return {"err": f"{type(exc).__name__}: {exc}", "info": child_info()}
    return _after(scn, world)


def _copied(scn):
    world = World(scn["objs"])
    _history(scn, world)
    try:
        if scn["how"] == "deepcopy":
            copies = copy.deepcopy(world.pool)
        elif scn["how"] == "each":
            copies = {k: copy.deepcopy(v) for k, v in world.pool.items()}
        elif scn["how"] == "clone":
            copies = pickle.loads(pickle.dumps(world.pool))
        else:
            copies = {k: copy.copy(v) for k, v in world.pool.items()}
    except Exception as exc:             # pylint: disable=broad-except
        return {"err": f"{type(exc).__name__}: {exc}", "info": child_info()}
    side = scn.get("other")
    if side is not None:
        # one set of objects is used, resized and (deep copies only) overwritten, the calls to
        # be judged are made on the other set
        used, left = (world.pool, copies) if side["use"] == "originals" else (copies, world.pool)
        world.pool = used
        _use(scn, side, world)
        world.pool = left
    else:
        world.pool = copies
    return _after(scn, world)


def _use(scn, side, world):
    deep = scn["how"] != "copy"
    if deep:
        for i, size in side["sizes"].items():
            world.obj(int(i)).change_numb_s_and_numb_p(*size)
            SIM.fired("other side resized")
    for j, call in enumerate(side["calls"]):
        with Budget(12_000_000):
            guarded(world, call, scn["salt"] + 300 + j)
        SIM.fired("other side called")
    if deep and side["overwrite"]:
        for i, spec in enumerate(scn["objs"]):
            if spec["k"] == "unused" or i not in world.pool:
                continue
            obj = world.pool[i]
            for arr in [obj] + [getattr(obj, n, None) for n in ("points", "weights", "density")]:
                if isinstance(arr, np.ndarray) and arr.flags.writeable and arr.dtype.kind == "f":
                    arr[...] = 0.125
                    SIM.fired("other side overwritten")


def _after(scn, world):
    res = []
    try:
        for j, call in enumerate(scn["after"]):
            with Budget(12_000_000):
                res.append(guarded(world, call, scn["salt"] + j))
    except Hang as exc:
        res.append(("exc", "Hang", str(exc)))
    last = run_battery(world, scn.get("battery", []), scn["salt"])
    blob = None
    if scn["again"]:
        blob = pickle.dumps(world.pool)
    return {"res": res, "battery": last, "blob": blob, "info": child_info()}


def execute(scn, out):
    scn = copy.deepcopy(scn)
    for j, step in enumerate(scn["before"]):
        if step["how"] is None or "at" in step["how"]:
            continue
        dry = dry_run(scn["objs"], step["call"], scn["salt"] + 100 + j,
                      step["how"].get("opcodes", False), False)
        out.runs += 1
        step["how"] = place(step["how"], dry)
    out.concrete = scn
    if scn["how"].startswith("pickle"):
        saved = fork_run(_save, scn)
        out.merge_child(saved["info"])
        if "err" in saved:
            out.violate("not_saved", f"objects cannot be pickled: {saved['err']}")
            return
        done = fork_run(_restore, scn, saved["blob"])
        out.runs += 1
    else:
        done = fork_run(_copied, scn)
    out.merge_child(done["info"])
    if "err" in done:
        out.violate("not_restored", f"objects cannot be restored: {done['err']}")
        return
    out.counts["restored." + scn["how"]] += 1
    out.note(done["res"])
    names = [label(s["call"], scn["objs"]) + ("!" if s["how"] else "") for s in scn["before"]]
    after = [label(c, scn["objs"]) for c in scn["after"]]
    out.nontrivial = bool(names)
    if names:
        out.keys.add((tuple(names), scn["how"], tuple(after)))
    refs = []
    for j, call in enumerate(scn["after"]):
        ref, _ = alone(scn["objs"], call, scn["salt"] + j)
        refs.append(ref)
        out.runs += 1
        diff = same(ref, done["res"][j])
        if diff:
            out.violate("restored_differs", f"after {scn['how']}, call {j} {after[j]} differs from "
                        f"fresh objects: {diff}")
            return
    check_battery(scn, out, done["battery"], f"after {scn['how']}")
    if out.violations:
        return
    if scn["again"] and done["blob"] is not None:
        # a second death and restart
        done = fork_run(_restore, dict(scn, again=False), done["blob"])
        out.runs += 1
        if "err" in done:
            out.violate("not_restored", f"objects cannot be restored twice: {done['err']}")
            return
        for j, ref in enumerate(refs):
            diff = same(ref, done["res"][j])
            if diff:
                out.violate("restored_differs", f"after a second restart, call {j} {after[j]} "
                            f"differs from fresh objects: {diff}")
                return


def shrink(scn):
    yield from drop_battery(scn)
    if scn.get("other"):
        yield dict(copy.deepcopy(scn), other=None)
        for key, val in (("calls", []), ("sizes", {}), ("overwrite", False)):
            if scn["other"][key]:
                new = copy.deepcopy(scn)
                new["other"][key] = val
                yield new
    if scn["again"]:
        yield dict(copy.deepcopy(scn), again=False)
    yield from drop_each(scn, "before")
    if len(scn["after"]) > 1:
        yield from drop_each(scn, "after")
    for j, call in enumerate(scn["after"]):
        for simple in simpler_calls(call):
            new = copy.deepcopy(scn)
            new["after"][j] = simple
            yield new
    calls = scn["after"] + scn.get("battery", []) + [s["call"] for s in scn["before"]]
    if scn.get("other"):
        calls = calls + scn["other"]["calls"]
    roots = [i for c in calls for i in call_roots(c)]
    if scn.get("other"):
        roots += [int(i) for i in scn["other"]["sizes"]]
    keep = needed(scn["objs"], roots)
    if any(s["k"] != "unused" for i, s in enumerate(scn["objs"]) if i not in keep):
        new = copy.deepcopy(scn)
        new["objs"] = [s if i in keep else {"k": "unused"} for i, s in enumerate(scn["objs"])]
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
