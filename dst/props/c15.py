"""C15: results are snapshots, and calls do not depend on what happened before."""
import copy

import numpy as np

from ..common import (alone, battery, call_roots, check_battery, drop_battery, run_battery,
                      drop_each, fork_run, label, needed, simpler_calls,
                      simpler_specs, use_stream)
from ..engine import child_info
from ..gen import shared_world
from ..props.c01 import build_call
from ..sched import Budget, Hang
from ..world import World, canon, exc_canon, same

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = ("One run = a random history of 3-8 public API calls (successful, refused, repeated, on "
        "objects that share parts) in which the caller scribbles over some of the results it got, and "
        "keeps its arguments, forgets them, or uses the same buffers for the arguments of every "
        "call. "
        "Each result is compared with the same call on fresh objects in a fresh process, and at "
        "the end all results the caller left alone are compared with the copies taken when they "
        "were returned. Non-trivial: a call was made after a result was overwritten, or on an "
        "object used before. distinct_nontrivial counts distinct sequences of call kinds.")
MEASURE = "sequence of (call kind, scribbled or not)"
REAL = ["all of bfit", "numpy", "scipy.optimize"]
STUB = ["clock", "stdout", "random stream (one per call)", "the caller"]
ASSUMPTIONS = ["attributes read from an object (points, radii, orbitals, ...) are not results"]
MUST_FIRE = ["scribble"]


def generate(r, tier, i):
    g, targets = shared_world(r, files=0.6)
    steps = []
    hot = r.choice(targets)
    pool = []
    for _ in range(r.randint(3, 7)):
        roll = r.random()
        if pool and roll < 0.35:
            call = copy.deepcopy(pool[-1] if r.random() < 0.4 else r.choice(pool))
            if r.random() < 0.6:
                # nearly the same: one argument is another
                call = g.vary(call) or call
        elif roll < 0.42:
            call = g.loader()
        elif roll < 0.47:
            call = g.helper()
        elif roll < 0.54:
            call = build_call(g, r, targets)
        elif roll < 0.58:
            call = g.bad_call(r.choice(targets)) or g.loader()
        else:
            call = g.call(hot if r.random() < 0.6 else r.choice(targets)) or g.loader()
        if call["f"] == "prop":
            call = g.loader()
        pool.append(call)
        steps.append({"call": call, "scribble": r.random() < 0.4})
    return {"objs": g.objs, "steps": steps, "salt": r.randrange(10**6),
            "caller": r.choice(["keeps", "forgets", "buffers", "buffers"]),
            "battery": battery(g, targets) if r.random() < 0.6 else []}


def scribble(value, depth=0):
    """Overwrite everything writable in a result. Number of things overwritten."""
    n = 0
    if depth > 6:
        return 0
    if isinstance(value, np.ndarray):
        if value.flags.writeable and value.size and value.dtype.kind in "fiu":
            value[...] = 77
            n += 1
        elif value.flags.writeable and value.size and value.dtype.kind in "UO":
            value[...] = "x"
            n += 1
    elif isinstance(value, dict):
        for item in list(value.values()):
            n += scribble(item, depth + 1)
        value.clear()
        n += 1
    elif isinstance(value, list):
        for item in value:
            n += scribble(item, depth + 1)
        value.clear()
        n += 1
    elif isinstance(value, tuple):
        for item in value:
            n += scribble(item, depth + 1)
    return n


def _run(scn):
    caller = scn.get("caller", "keeps")
    world = World(scn["objs"], caller=caller)
    results, kept = [], []
    scribbled = 0
    for j, step in enumerate(scn["steps"]):
        use_stream(scn["salt"] + j)
        raw = None
        try:
            with Budget(12_000_000):
                raw = world.call(step["call"])
            res = canon(raw)
        except Hang as exc:
            res = ("exc", "Hang", str(exc))
        except Exception as exc:         # pylint: disable=broad-except
            res = exc_canon(exc)
        results.append(res)
        if raw is not None and step["scribble"]:
            scribbled += scribble(raw)
            kept.append(None)
        elif caller == "buffers" or (caller == "forgets" and j % 2):
            # parameters held fixed are returned as they were handed over
            kept.append(None)
        else:
            kept.append(raw)
    last = run_battery(world, scn.get("battery", []), scn["salt"])
    later = []
    for j, raw in enumerate(kept):
        later.append(canon(raw) if raw is not None else None)
    return {"results": results, "later": later, "scribbled": scribbled, "battery": last, "info": child_info()}


def execute(scn, out):
    done = fork_run(_run, scn)
    out.merge_child(done["info"])
    out.counts["scribble"] += done["scribbled"]
    out.note(done["results"])
    names = tuple((label(s["call"], scn["objs"]), bool(s["scribble"])) for s in scn["steps"])
    out.nontrivial = len(scn["steps"]) > 1
    if out.nontrivial:
        out.keys.add(names)
    for j, step in enumerate(scn["steps"]):
        if isinstance(done["results"][j], tuple) and done["results"][j] and \
                done["results"][j][0] == "exc":
            out.probes["refused"] += 1
        if done["later"][j] is not None:
            diff = same(done["results"][j], done["later"][j], rtol=0.0, atol=0.0)
            if diff:
                out.violate("changed_result", f"the result of call {j} {names[j][0]} changed "
                            f"after it was returned: {diff}")
                return
    for j, step in enumerate(scn["steps"]):
        ref, _ = alone(scn["objs"], step["call"], scn["salt"] + j)
        out.runs += 1
        diff = same(ref, done["results"][j])
        if diff:
            out.violate("history", f"call {j} {names[j][0]} differs from the same call on fresh "
                        f"objects: {diff}")
            return
    check_battery(scn, out, done["battery"], "after these calls")


def shrink(scn):
    yield from drop_battery(scn)
    if scn.get("caller", "keeps") != "keeps":
        yield dict(copy.deepcopy(scn), caller="keeps")
    if len(scn["steps"]) > 1 or scn.get("battery"):
        yield from drop_each(scn, "steps")
    for j, step in enumerate(scn["steps"]):
        if step["scribble"]:
            new = copy.deepcopy(scn)
            new["steps"][j]["scribble"] = False
            yield new
        for simple in simpler_calls(step["call"]):
            new = copy.deepcopy(scn)
            new["steps"][j]["call"] = simple
            yield new
    roots = [i for c in [s["call"] for s in scn["steps"]] + scn.get("battery", []) for i in call_roots(c)]
    keep = needed(scn["objs"], roots)
    if any(s["k"] != "unused" for i, s in enumerate(scn["objs"]) if i not in keep):
        new = copy.deepcopy(scn)
        new["objs"] = [s if i in keep else {"k": "unused"} for i, s in enumerate(scn["objs"])]
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
