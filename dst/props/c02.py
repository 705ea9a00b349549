"""C02: a call that is cut short leaves everything as good as new."""
import copy
import threading

from ..common import (alone, battery, call_roots, check_battery, drop_battery, drop_each, fork_run,
                      guarded, label, needed, run_battery,
                      simpler_calls, simpler_specs)
from ..crash import cut_short, dry_run, expected, gen_how, place
from ..engine import child_info
from ..gen import shared_world
from ..props.c01 import build_call
from ..sched import Budget, Hang
from ..seams import SIM
from ..world import World, same

LEVEL = "fault_enumeration"
RUNS = {"quick": 2400, "thorough": 25000}
RULE = ("One run = shared objects, 1-2 calls that are cut short (Ctrl-C, MemoryError or SystemExit "
        "at a seeded source line or bytecode; an exception from the grid, measure or model "
        "plugin; a failing write to stdout or read of a data file), followed by 2-4 calls on the "
        "same objects, each compared with the same call on fresh objects in a fresh process. "
        "Non-trivial: the fault fired inside a call. distinct_nontrivial counts distinct "
        "(call kind, fault kind, source line or seam position).")
MEASURE = "(call kind, fault kind and exception, source line / n-th seam call)"
REAL = ["all of bfit", "numpy", "scipy.optimize"]
STUB = ["asynchronous exceptions (raised from a trace function)", "stdout", "disk", "clock",
        "user plugins around the real grids, measures and models"]
ASSUMPTIONS = ["no asynchronous exception lands on the header of a with statement or inside a "
               "finally/except clause", "Gaussian models are not being resized by the caller at "
               "the moment of the fault"]
MUST_FIRE = ["crash.KeyboardInterrupt", "crash.MemoryError", "integrate.raise", "measure.raise",
             "model.raise", "stdout", "io"]


def generate(r, tier, i):
    g, targets = shared_world(r)
    wrap = r.random() < 0.45
    hot = r.choice(targets)
    kinds = [g.objs[t]["k"] for t in targets]
    if r.random() < 0.5:
        # give greedy objects and fits their share
        pick = r.choice(["gls", "gkl", "fpi", "sci"])
        if pick in kinds:
            hot = targets[kinds.index(pick)]
    cuts, after = [], []

    def one(obj):
        roll = r.random()
        if roll < 0.06:
            return g.loader()
        if roll < 0.12:
            return build_call(g, r, targets)
        if roll < 0.15:
            return g.helper()
        return g.call(obj) or g.loader()

    for _ in range(r.choice([1, 1, 1, 2])):
        call = one(hot if r.random() < 0.85 else r.choice(targets))
        if "kw" in call and "disp" in call["kw"] and r.random() < 0.3:
            call["kw"]["disp"] = True
        cuts.append({"call": call, "how": gen_how(r, call, g.objs, wrap)})
    for _ in range(r.choice([1, 2, 3])):
        roll = r.random()
        if roll < 0.45:
            after.append(copy.deepcopy(r.choice(cuts)["call"]))
        elif roll < 0.85:
            after.append(one(hot))
        else:
            after.append(one(r.choice(targets)))
    warm = [one(hot)] if r.random() < 0.3 else []
    used = [c for c in [x["call"] for x in cuts] if "o" in c]
    return {"objs": g.objs, "wrap": wrap, "warm": warm, "cuts": cuts, "after": after,
            "battery": battery(g, targets if r.random() < 0.3 else [c["o"] for c in used]),
            "thread": r.random() < 0.3, "salt": r.randrange(10**6)}


def _run(scn):
    done = {"cut": [], "after": [], "sites": []}
    world = World(scn["objs"], wrap=scn["wrap"])
    for j, call in enumerate(scn["warm"]):
        guarded(world, call, scn["salt"] + 500 + j)
    for j, cut in enumerate(scn["cuts"]):
        if cut["how"] is None:
            continue
        res, site = cut_short(world, cut["call"], cut["how"], scn["salt"] + 100 + j)
        done["cut"].append(res)
        done["sites"].append(site)

    def aftermath():
        try:
            for j, call in enumerate(scn["after"]):
                with Budget(12_000_000):
                    done["after"].append(guarded(world, call, scn["salt"] + j))
            done["battery"] = run_battery(world, scn.get("battery", []), scn["salt"])
        except Hang as exc:
            done["after"].append(("exc", "Hang", str(exc)))

    if scn.get("thread"):
        # whoever goes on need not be the thread in which the call was cut short
        SIM.lone = True
        SIM.fired("other thread")
        thread = threading.Thread(target=aftermath)
        thread.start()
        thread.join()
    else:
        aftermath()
    done["info"] = child_info()
    return done


def execute(scn, out):
    scn = copy.deepcopy(scn)
    for j, cut in enumerate(scn["cuts"]):
        if cut["how"] is None or "at" in cut["how"]:
            continue
        dry = dry_run(scn["objs"], cut["call"], scn["salt"] + 100 + j,
                      cut["how"].get("opcodes", False), scn["wrap"])
        out.runs += 1
        out.steps += dry["n"]
        cut["how"] = place(cut["how"], dry)
    scn["cuts"] = [c for c in scn["cuts"] if c["how"] is not None]
    out.concrete = scn
    done = fork_run(_run, scn)
    out.merge_child(done["info"])
    out.note(done["cut"], done["after"], done["sites"])
    fired = 0
    for cut, res, site in zip(scn["cuts"], done["cut"], done["sites"]):
        how = cut["how"]
        is_exc = isinstance(res, tuple) and res and res[0] == "exc"
        if site is None:
            continue
        fired += 1
        where = f"{site[0]}:{site[1]}" if how["k"] == "trace" else f"{how['k']} call {how['at']}"
        out.keys.add((label(cut["call"], scn["objs"]), how["k"], how["exc"], where))
        out.probes[f"cut {label(cut['call'], scn['objs'])}"] += 1
        if is_exc and expected(how) in res[3]:
            continue
        got = f"it raised {res[1]}" if is_exc else "it returned a result"
        out.violate("swallowed", f"{how['exc']} at {where} in {label(cut['call'], scn['objs'])} "
                    f"did not reach the caller: {got}")
        return
    out.nontrivial = fired > 0
    for j, call in enumerate(scn["after"]):
        ref, _ = alone(scn["objs"], call, scn["salt"] + j)
        out.runs += 1
        diff = same(ref, done["after"][j])
        if diff:
            out.violate("aftermath", f"after a call was cut short, call {j} "
                        f"{label(call, scn['objs'])} differs from fresh objects: {diff}")
            return
    if "battery" not in done:
        out.violate("aftermath", f"after a call was cut short, the final battery hangs: "
                    f"{done['after'][-1]}")
        return
    check_battery(scn, out, done["battery"], "after a call was cut short")


def shrink(scn):
    yield from drop_battery(scn)
    for key in ("warm", "cuts", "after"):
        if key != "after" or len(scn["after"]) > 1 or scn.get("battery"):
            yield from drop_each(scn, key)
    for j, call in enumerate(scn["after"]):
        for simple in simpler_calls(call):
            new = copy.deepcopy(scn)
            new["after"][j] = simple
            yield new
    if scn.get("thread"):
        yield dict(copy.deepcopy(scn), thread=False)
    if scn["wrap"] and all(c["how"]["k"] in ("trace", "stdout", "io") for c in scn["cuts"]):
        yield dict(copy.deepcopy(scn), wrap=False)
    for j, cut in enumerate(scn["cuts"]):
        at = cut["how"]["at"]
        for smaller in sorted({0, 1, at // 2, at - 1}):
            if 0 <= smaller < at and (cut["how"]["k"] == "trace" or smaller > 0):
                new = copy.deepcopy(scn)
                new["cuts"][j]["how"]["at"] = smaller
                yield new
        for simple in simpler_calls(cut["call"]):
            new = copy.deepcopy(scn)
            new["cuts"][j]["call"] = simple
            yield new
    roots = [i for c in scn["after"] + scn["warm"] + scn.get("battery", []) + [c["call"] for c in scn["cuts"]]
             for i in call_roots(c)]
    keep = needed(scn["objs"], roots)
    if any(s["k"] != "unused" for i, s in enumerate(scn["objs"]) if i not in keep):
        new = copy.deepcopy(scn)
        new["objs"] = [s if i in keep else {"k": "unused"} for i, s in enumerate(scn["objs"])]
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
