"""C03: what the caller handed in, and the settings of the process, stay as they were."""
import copy

from ..common import (call_roots, drop_each, fork_run, guarded, label, needed, simpler_specs,
                      use_stream)
from ..crash import cut_short, dry_run, gen_how, place
from ..engine import child_info, rng_for
from ..gen import shared_world
from ..procstate import CALLER, changed, snapshot
from ..props import c01
from ..props.c01 import build_call
from ..sched import Budget, Deadlock, Hang, Scheduler
from ..seams import SIM
from ..world import World

LEVEL = "fault_enumeration"
RUNS = {"quick": 2200, "thorough": 40000}
RULE = ("One run = shared objects built from registered arrays and lists, then 2-6 public API calls "
        "that succeed, are refused (bad arguments) or are cut short by a fault at a seeded place. "
        "After every call each array and list handed over so far is compared byte for byte with "
        "its snapshot, and so are the process-wide settings; in a quarter of the runs "
        "the calls overlap in 2-3 threads, and the comparison is made when all have ended. What "
        "writes files, starts processes or connects is refused by the simulator and reported. "
        "Non-trivial: at least one call ended by a fault or a refusal, or overlapped with "
        "another. distinct_nontrivial counts distinct (call kind, ending, source "
        "line).")
MEASURE = "(call kind, how it ended, source line or exception type)"
REAL = ["all of bfit", "numpy", "scipy.optimize"]
STUB = ["asynchronous exceptions", "stdout", "disk", "clock", "user plugins",
        "thread scheduling", "everything that writes, starts or connects (refused and noted)"]
ASSUMPTIONS = ["greedy fits draw from numpy's global random stream by design: for them its state "
               "is exempt"]
MUST_FIRE = ["crash.KeyboardInterrupt", "integrate.raise", "refused", "preempt"]


def generate(r, tier, i):
    if r.random() < 0.25:
        # calls that overlap: what each of them puts back must not be what another one set
        mt = c01.generate(r, tier, i)
        if r.random() < 0.5:
            # all fits display: what is put back then is more than otherwise
            for calls in mt["threads"]:
                for call in calls:
                    if call.get("f") == "run" and "disp" in call.get("kw", {}):
                        call["kw"]["disp"] = True
        unusual(r, mt)
        if "profile" in mt["caller"]:
            mt["caller"].remove("profile")
        return {"mt": mt}
    g, targets = shared_world(r)
    wrap = r.random() < 0.3
    steps = []
    for _ in range(r.randint(2, 5)):
        roll = r.random()
        obj = r.choice(targets)
        if roll < 0.12:
            call = g.bad_call(obj) or g.loader()
        elif roll < 0.2:
            call = build_call(g, r, targets)
        elif roll < 0.27:
            call = g.helper()
        elif roll < 0.32:
            call = g.loader()
        else:
            call = g.call(obj) or g.loader()
        how = gen_how(r, call, g.objs, wrap) if r.random() < 0.35 else None
        steps.append({"call": call, "how": how})
    return unusual(r, {"objs": g.objs, "wrap": wrap, "steps": steps, "salt": r.randrange(10**6)})


def unusual(r, scn):
    """A caller with settings of his own, and arrays that are parts of others."""
    scn["caller"] = r.sample(sorted(CALLER), r.randint(1, 6)) if r.random() < 0.5 else []
    if r.random() < 0.5:
        for spec in scn["objs"]:
            if r.random() < 0.5:
                continue
            lay = r.choice(["strided", "reversed", "view", "fortran"])
            if spec["k"] == "dens":
                spec["d"]["lay"] = lay
            elif spec["k"] in ("array", "trapz", "wgrid"):
                key = "v" if spec["k"] == "array" else r.choice(
                    [k for k in ("pts", "w") if k in spec])
                if isinstance(spec[key], list):
                    spec[key] = {"v": spec[key], "lay": lay}
    return scn


def _run(scn):
    for name in scn.get("caller", ()):
        CALLER[name]()
    world = World(scn["objs"], only=[], wrap=scn["wrap"])
    before = snapshot()
    log = []
    for i in range(len(scn["objs"])):
        world.obj(i)
        diff = changed(before, snapshot(), rng=True)
        bad = world.damaged_inputs()
        if diff or bad:
            return {"bad": (f"building {scn['objs'][i]['k']}", diff, bad), "log": log,
                    "info": child_info()}
    if SIM.deeds:
        return {"bad": ("building the objects", SIM.deeds[:3], []), "log": log,
                "info": child_info()}
    for j, step in enumerate(scn["steps"]):
        call = step["call"]
        greedy = "o" in call and scn["objs"][call["o"]]["k"] in ("gls", "gkl") and \
            call["f"] == "run"
        site = None
        if step["how"] is not None:
            res, site = cut_short(world, call, step["how"], scn["salt"] + j)
            ending = step["how"]["exc"] if res and res[0] == "exc" else "unaffected"
        else:
            use_stream(scn["salt"] + j)
            with Budget(12_000_000):
                res = world.try_call(call)
            ending = "refused" if isinstance(res, tuple) and res and res[0] == "exc" else "ok"
        log.append((label(call, scn["objs"]), ending, site, res))
        diff = changed(before, snapshot(), rng=not greedy) + SIM.deeds[:3]
        bad = world.damaged_inputs()
        if diff or bad:
            return {"bad": (f"{log[-1][0]} ({ending})", diff, bad), "log": log,
                    "info": child_info()}
        if greedy:
            before = snapshot()
    return {"bad": None, "log": log, "info": child_info()}


def _threads(scn):
    """The calls of several threads, interleaved; what is left afterwards."""
    for name in scn.get("caller", ()):
        CALLER[name]()
    world = World(scn["objs"], only=[])
    before = snapshot()
    for i in range(len(scn["objs"])):
        world.obj(i)
    log = []

    def body(t):
        def run():
            for j, call in enumerate(scn["threads"][t]):
                log.append((label(call, scn["objs"]),
                            guarded(world, call, c01.salt(scn, t, j))[:2]))
        return run

    plan = scn["plan"]
    sched = Scheduler(plan, None if plan["k"] == "replay" else rng_for(scn["seed"], "sched"),
                      scn["opcodes"])
    err = None
    try:
        sched.run([body(t) for t in range(len(scn["threads"]))], scn["first"])
    except (Hang, Deadlock) as exc:
        err = (type(exc).__name__, str(exc))
    return {"diff": changed(before, snapshot(), rng=False) + SIM.deeds[:3],
            "bad": world.damaged_inputs(), "log": log, "err": err, "sw": sched.switches,
            "hash": sched.trace_hash, "info": child_info(sched.step)}


def _execute_threads(scn, out):
    done = fork_run(_threads, scn["mt"])
    out.merge_child(done["info"])
    out.note([x[0] for x in done["log"]], done["sw"])
    out.concrete = {"mt": dict(scn["mt"], plan={"k": "replay", "sw": done["sw"]})}
    preempts = [s for s in done["sw"] if s[0] >= 0]
    out.counts["preempt"] += len(preempts)
    out.nontrivial = bool(preempts)
    if preempts:
        out.keys.add(("threads", done["hash"]))
    calls = [label(c, scn["mt"]["objs"]) for t in scn["mt"]["threads"] for c in t]
    if done["err"]:
        out.violate("hang", f"{calls} in several threads: {done['err']}")
    elif done["bad"]:
        out.violate("input", f"{calls} in several threads changed the caller's {done['bad']}")
    elif done["diff"]:
        out.violate("process", f"{calls} in several threads changed process settings: "
                    f"{done['diff']}")


def execute(scn, out):
    if "mt" in scn:
        _execute_threads(scn, out)
        return
    scn = copy.deepcopy(scn)
    for j, step in enumerate(scn["steps"]):
        if step["how"] is None or "at" in step["how"]:
            continue
        dry = dry_run(scn["objs"], step["call"], scn["salt"] + j,
                      step["how"].get("opcodes", False), scn["wrap"])
        out.runs += 1
        out.steps += dry["n"]
        step["how"] = place(step["how"], dry)
    out.concrete = scn
    try:
        done = fork_run(_run, scn)
    except Hang as exc:
        out.violate("hang", exc)
        return
    out.merge_child(done["info"])
    out.note(done["log"])
    for name, ending, site, _ in done["log"]:
        out.probes[f"{ending}"] += 1
        if ending not in ("ok", "unaffected"):
            out.nontrivial = True
            out.keys.add((name, ending, site))
    if done["bad"]:
        what, diff, bad = done["bad"]
        if bad:
            out.violate("input", f"{what} changed the caller's {bad}")
        if diff:
            out.violate("process", f"{what} changed process settings: {diff}")


def shrink(scn):
    if "mt" in scn:
        if scn["mt"].get("battery"):
            yield {"mt": dict(copy.deepcopy(scn["mt"]), battery=[])}
        for mt in c01.shrink(scn["mt"]):
            yield {"mt": mt}
        return
    yield from drop_each(scn, "steps")
    if scn.get("caller"):
        yield from drop_each(scn, "caller")
    for j, step in enumerate(scn["steps"]):
        if step["how"] is not None:
            new = copy.deepcopy(scn)
            new["steps"][j]["how"] = None
            yield new
    roots = [i for s in scn["steps"] for i in call_roots(s["call"])]
    keep = needed(scn["objs"], roots)
    if any(s["k"] != "unused" for i, s in enumerate(scn["objs"]) if i not in keep):
        new = copy.deepcopy(scn)
        new["objs"] = [s if i in keep else {"k": "unused"} for i, s in enumerate(scn["objs"])]
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
