"""C01: calls from several threads give what each would give alone in a fresh process."""
import copy

from ..common import (alone, battery, call_roots, check_battery, drop_battery, run_battery,
                      child_info, drop_each, fork_run, guarded, label, needed,
                      simpler_calls, simpler_specs)
from ..engine import rng_for
from ..gen import Gen, NEUTRAL, shared_world
from ..sched import Deadlock, Hang, Scheduler
from ..world import World, same

LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 20000}
RULE = ("One run = 2-3 caller threads with 1-3 public API calls each on shared grids, densities, "
        "models, measures, fits and atoms, interleaved by a seeded scheduler at every source line "
        "or bytecode of bfit; every result is compared with the same call made alone in a fresh "
        "process. Non-trivial: at least one preemption inside a call while another call is in "
        "flight. distinct_nontrivial counts distinct switch sequences (step, thread, line).")
MEASURE = "hash of the sequence of (step, thread switched to, source line)"
REAL = ["all of bfit", "numpy", "scipy.optimize (real SLSQP, trust-constr, nnls)",
        "threading (real threads, parked and released one at a time)"]
STUB = ["thread scheduling (seeded)", "clock", "stdout", "per-thread random stream"]
ASSUMPTIONS = ["preemption happens at bytecode/line boundaries of bfit, not inside one numpy call",
               "one greedy object is used by one thread at a time"]
MUST_FIRE = ["preempt"]


def generate(r, tier, i):
    g, targets = shared_world(r)
    nthreads = r.choice([2, 2, 2, 3])
    greedy_owner = {}
    threads = []
    hot = r.choice(targets) if r.random() < 0.6 else None
    for t in range(nthreads):
        calls = []
        for _ in range(r.choice([1, 1, 2, 3])):
            roll = r.random()
            if roll < 0.08:
                calls.append(g.loader())
                continue
            if roll < 0.12:
                calls.append(g.helper())
                continue
            if roll < 0.2:
                calls.append(build_call(g, r, targets))
                continue
            obj = hot if hot is not None and r.random() < 0.75 else r.choice(targets)
            if g.objs[obj]["k"] in ("gls", "gkl"):
                if greedy_owner.setdefault(obj, t) != t:
                    # a greedy object belongs to one thread: give this one its own, side by side
                    spec = copy.deepcopy(g.objs[obj])
                    obj = g.add(spec)
                    greedy_owner[obj] = t
            call = g.call(obj)
            if call is not None:
                calls.append(call)
        threads.append(calls)
    fits = [x for x in targets if g.objs[x]["k"] in ("fpi", "sci")]
    if r.random() < 0.25:
        # the same fit in every thread, nothing else
        hot = r.choice(fits)
        same_call = r.random() < 0.3
        threads = [[g.fit_run(hot)] for _ in range(nthreads)]
        if same_call:
            threads = [copy.deepcopy(threads[0]) for _ in range(nthreads)]
    elif r.random() < 0.2:
        # the same atom, model, measure or grid in every thread, nothing else
        small = [x for x in targets if g.objs[x]["k"] in ("slater", "atom", "mol", "sd", "kl",
                                                                   "ts", "uni", "clen", "cube")]
        atoms = [x for x in small if g.objs[x]["k"] == "slater"]
        if small:
            hot = r.choice(atoms if atoms and r.random() < 0.6 else small)
            threads = [[c for c in (g.call(hot) for _ in range(r.choice([1, 2, 3]))) if c]
                       for _ in range(nthreads)]
    kind = r.choice(["random", "random", "pct", "burst"])
    plan = {"k": kind}
    if kind == "random":
        plan["p"] = r.choice([0.5, 0.2, 0.05, 0.01, 0.003])
    elif kind == "pct":
        plan["len"] = r.choice([60, 300, 1500, 6000])
        plan["u"] = [round(r.random(), 4) for _ in range(r.randint(1, 8))]
    else:
        plan["period"] = r.choice([40, 200, 1000])
        plan["width"] = r.choice([5, 20])
    return {"objs": g.objs, "threads": threads, "plan": plan,
            "battery": battery(g, {c["o"] for calls in threads for c in calls if "o" in c}, 0.0),
            "opcodes": r.random() < 0.3, "first": r.randrange(nthreads), "salt": r.randrange(10**6),
            "seed": r.randrange(10**9)}


def build_call(g, r, targets):
    """Construct a new object from the shared ones, and use it."""
    fits = [i for i in targets if g.objs[i]["k"] in ("fpi", "sci")]
    src = g.objs[r.choice(fits)]
    spec = copy.deepcopy(src)
    n = g.nbasis(spec["model"])
    if r.random() < 0.4:
        spec = copy.deepcopy(g.objs[spec["model"]])
        return {"f": "build", "spec": spec, "then": "evaluate",
                "ta": [g.coeffs(n), g.expons(n)], "tkw": {"deriv": True}}
    if r.random() < 0.2:
        return {"f": "build", "spec": {"k": "slater", "el": r.choice(NEUTRAL)},
                "then": "atomic_density", "ta": [[0.0, 0.1, 0.5, 1.0, 2.0, 5.0]]}
    if r.random() < 0.25:
        h = Gen(r, True)
        h.grid(("uni", "clen", "cube", "cubemol"))
        return {"f": "build", "spec": h.objs[0]}
    return {"f": "build", "spec": spec, "then": "goodness_of_fit",
            "ta": [g.coeffs(n), g.expons(n)]}


def _threads(scn):
    world = World(scn["objs"])
    results = [[] for _ in scn["threads"]]

    def body(t):
        def run():
            for j, call in enumerate(scn["threads"][t]):
                results[t].append(guarded(world, call, salt(scn, t, j)))
        return run

    plan = scn["plan"]
    sched = Scheduler(plan, None if plan["k"] == "replay" else rng_for(scn["seed"], "sched"),
                      scn["opcodes"])
    err = None
    try:
        sched.run([body(t) for t in range(len(scn["threads"]))], scn["first"])
    except (Hang, Deadlock) as exc:
        err = (type(exc).__name__, str(exc))
    last = []
    if err is None:
        last = run_battery(world, scn.get("battery", []), scn["salt"])
    return {"results": results, "battery": last, "err": err, "sw": sched.switches, "steps": sched.step,
            "hash": sched.trace_hash, "sites": sorted(sched.sites), "info": child_info(sched.step)}


def salt(scn, t, j):
    return scn["salt"] + 1000 * t + j


def execute(scn, out):
    res = fork_run(_threads, scn)
    out.merge_child(res["info"])
    out.note(res["results"], res["sw"], res["steps"])
    out.concrete = dict(scn, plan={"k": "replay", "sw": res["sw"]})
    preempts = [s for s in res["sw"] if s[0] >= 0]
    out.counts["preempt"] += len(preempts)
    for site in res["sites"]:
        out.probes[f"switch in {site[0]}"] += 1
    out.nontrivial = len(preempts) > 0
    if preempts:
        out.keys.add(res["hash"])
    if res["err"]:
        out.violate("stuck", f"threads do not finish: {res['err']}")
        return
    for t, calls in enumerate(scn["threads"]):
        for j, call in enumerate(calls):
            ref, info = alone(scn["objs"], call, salt(scn, t, j))
            out.runs += 1
            diff = same(ref, res["results"][t][j])
            if diff:
                out.violate("interference", f"thread {t} call {j} {label(call, scn['objs'])} "
                            f"differs from the same call alone: {diff}")
                return
    check_battery(scn, out, res["battery"], "after the threads have ended")


def shrink(scn):
    yield from drop_battery(scn)
    if len(scn["threads"]) > 2:
        for t in range(len(scn["threads"])):
            new = copy.deepcopy(scn)
            del new["threads"][t]
            new["plan"]["sw"] = [[s, (w if w < t else w - 1)] for s, w in new["plan"].get("sw", [])
                                 if w != t]
            yield new
    for t, calls in enumerate(scn["threads"]):
        if len(calls) > 1:
            for j in range(len(calls)):
                new = copy.deepcopy(scn)
                del new["threads"][t][j]
                yield new
        for j, call in enumerate(calls):
            for simple in simpler_calls(call):
                new = copy.deepcopy(scn)
                new["threads"][t][j] = simple
                yield new
    sw = scn["plan"].get("sw")
    if sw:
        size = max(1, len(sw) // 2)
        while size >= 1:
            for k in range(0, len(sw), size):
                new = copy.deepcopy(scn)
                new["plan"]["sw"] = sw[:k] + sw[k + size:]
                yield new
            if size == 1:
                break
            size //= 2
    if scn["opcodes"]:
        pass
    roots = [i for calls in scn["threads"] + [scn.get("battery", [])] for c in calls for i in call_roots(c)]
    keep = needed(scn["objs"], roots)
    if any(s["k"] != "unused" for i, s in enumerate(scn["objs"]) if i not in keep):
        new = copy.deepcopy(scn)
        new["objs"] = [s if i in keep else {"k": "unused"} for i, s in enumerate(scn["objs"])]
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
