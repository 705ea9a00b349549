"""C21: worker processes forked at any moment work, and leave the parent alone."""
import copy
import os
import pickle
import sys
import threading

from ..common import (alone, battery, call_roots, check_battery, drop_battery, drop_each, fork_run,
                      guarded, label, needed, run_battery, simpler_calls, simpler_specs, use_stream)
from ..crash import dry_run, roots
from ..engine import child_info
from ..gen import shared_world
from ..props.c01 import build_call
from ..props.c19 import _Stdout, _Tracer, _place
from ..sched import Budget, Hang
from ..seams import SIM
from ..simio import SimStdout
from ..world import World, canon, exc_canon, same

LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 20000}
RULE = ("One run = 1-2 calls on shared objects, during which 1-2 worker processes are forked at "
        "seeded source lines or bytecodes, calls of the user's plugins, or writes to stdout, by "
        "the thread of the call or (60 %) as if by another thread. A worker has no other thread than "
        "the forking one; it makes 1-3 calls on the inherited objects and the battery while the parent's "
        "call stands still. All results, of the workers and of the parent, are compared with "
        "fresh objects. Non-trivial: a worker was forked inside a call. distinct_nontrivial "
        "counts distinct (call, place of the fork, calls of the worker).")
MEASURE = "(outer call kind, source line or plugin and number of its call, calls of the worker)"
REAL = ["all of bfit", "numpy", "scipy.optimize", "fork", "the data files"]
STUB = ["the moment of the fork", "stdout", "clock", "user plugins", "random stream"]
ASSUMPTIONS = ["fork on POSIX", "the forking thread makes the calls of the worker"]
MUST_FIRE = ["forked.trace", "forked.integrate", "forked.measure", "forked.model",
             "forked.stdout"]


def generate(r, tier, i):
    g, targets = shared_world(r, files=0.6)
    wrap = r.random() < 0.35
    hot = r.choice(targets)
    atoms = [t for t in targets if g.objs[t]["k"] == "slater"]
    files = r.random() < 0.3

    def one(obj):
        roll = r.random()
        if roll < (0.6 if files else 0.08):
            return g.loader()
        if roll < (0.8 if files else 0.16):
            return build_call(g, r, targets)
        if roll < (0.85 if files else 0.18):
            return g.helper()
        return g.call(obj) or g.loader()

    outer = []
    for _ in range(r.choice([1, 1, 2])):
        call = one(hot if r.random() < 0.85 else r.choice(atoms or targets))
        if "disp" in call.get("kw", {}) and r.random() < 0.4:
            call["kw"]["disp"] = True
        forks = []
        for _ in range(r.choice([1, 1, 2])):
            kinds = ["trace", "trace"]
            if wrap:
                kinds += ["integrate", "measure", "model"]
            if call.get("kw", {}).get("disp"):
                kinds += ["stdout"]
            calls = []
            for _ in range(r.choice([1, 1, 2, 3])):
                calls.append(copy.deepcopy(call) if r.random() < 0.3 else
                             one(hot if r.random() < 0.6 else r.choice(targets)))
            forks.append({"k": r.choice(kinds), "same": r.random() < 0.4, "u": round(r.random(), 5),
                          "v": round(r.random(), 5),
                          "pick": r.choice(["line", "line", "event"]), "calls": calls})
        outer.append({"call": call, "nests": forks, "opcodes": r.random() < 0.2})
    return {"objs": g.objs, "wrap": wrap, "outer": outer,
            "battery": battery(g, [hot] + [x["call"]["o"] for x in outer if "o" in x["call"]],
                               0.1) if r.random() < 0.5 else [],
            "salt": r.randrange(10**6)}


def _worker(world, scn, key, calls, battery_too):
    """In the forked process, where only one thread has survived. If another thread than that
    of the interrupted call did the fork, the calls are made in another one (its locks, its
    thread-local data are not those of the interrupted thread)."""
    done = {"res": [], "battery": None}

    def body():
        try:
            for m, call in enumerate(calls):
                with Budget(12_000_000):
                    done["res"].append(guarded(world, call, scn["salt"] + 1000 * (key[1] + 1) + m))
            if battery_too:
                done["battery"] = run_battery(world, scn["battery"], scn["salt"])
        except Hang as exc:
            done["res"].append(("exc", "Hang", str(exc)))
    SIM.lone = True
    if scn["outer"][key[0]]["nests"][key[1]].get("same"):
        body()
        return done
    thread = threading.Thread(target=body, daemon=True)
    thread.start()
    thread.join(60)
    if thread.is_alive():
        done["res"].append(("exc", "Hang", "the worker does not end"))
    return done


def _fork(world, scn, key, calls):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            sys.settrace(None)
            threading.settrace(None)
            sys.stdout = SimStdout(keep=False)
            for script in (world.wrap or {}).values():
                script.hook = None
            blob = pickle.dumps(_worker(world, scn, key, calls, bool(scn.get("battery"))))
            while blob:
                blob = blob[os.write(wfd, blob):]
        finally:
            os._exit(0)
    os.close(wfd)
    chunks = []
    while True:
        data = os.read(rfd, 1 << 20)
        if not data:
            break
        chunks.append(data)
    os.close(rfd)
    os.waitpid(pid, 0)
    if not chunks:
        return {"res": [("exc", "Died", "the worker died without an answer")], "battery": None}
    return pickle.loads(b"".join(chunks))


def _run(scn):
    world = World(scn["objs"], wrap=scn["wrap"])
    workers, sites, results = {}, {}, []

    def act(key):
        j, k = key
        SIM.fired("forked." + scn["outer"][j]["nests"][k]["k"])
        workers[key] = _fork(world, scn, key, scn["outer"][j]["nests"][k]["calls"])

    for j, step in enumerate(scn["outer"]):
        roots(world, step["call"])
        at, hooks = {}, {}
        for k, nest in enumerate(step["nests"]):
            for call in nest["calls"]:
                roots(world, call)
            if nest.get("at") is None:
                continue
            if nest["k"] == "trace":
                at[nest["at"]] = (j, k)
            else:
                hooks.setdefault(nest["k"], {})[nest["at"]] = (j, k)
                sites[(j, k)] = (nest["k"], nest["at"])
        tracer = _Tracer(at, act, step["opcodes"])
        out = sys.stdout = _Stdout(keep=False)
        for kind, places in hooks.items():
            def hook(n, places=places):
                if n in places:
                    act(places[n])
            if kind == "stdout":
                out.hook = hook
            else:
                world.wrap[kind].n = 0
                world.wrap[kind].hook = hook
        use_stream(scn["salt"] + j)
        try:
            with tracer:
                res = canon(world.call(step["call"]))
        except Hang as exc:
            res = ("exc", "Hang", str(exc))
        except Exception as exc:         # pylint: disable=broad-except
            res = exc_canon(exc)
        finally:
            sys.settrace(None)
            sys.stdout = SimStdout(keep=False)
            for script in (world.wrap or {}).values():
                script.hook = None
        results.append(res)
        sites.update(tracer.sites)
    last = run_battery(world, scn.get("battery", []), scn["salt"])
    return {"results": results, "workers": workers, "sites": sites, "battery": last,
            "info": child_info()}


def execute(scn, out):
    scn = copy.deepcopy(scn)
    for j, step in enumerate(scn["outer"]):
        if all("at" in nest for nest in step["nests"]):
            continue
        dry = dry_run(scn["objs"], step["call"], scn["salt"] + j, step["opcodes"], scn["wrap"])
        out.runs += 1
        out.steps += dry["n"]
        step["nests"] = [nest if "at" in nest else _place(nest, dry) for nest in step["nests"]]
    out.concrete = scn
    done = fork_run(_run, scn)
    out.merge_child(done["info"])
    out.note(done["results"], sorted((k, v["res"]) for k, v in done["workers"].items()),
             sorted(done["sites"].items()))
    batteries = []
    for (j, k), worker in sorted(done["workers"].items()):
        nest = scn["outer"][j]["nests"][k]
        outer = label(scn["outer"][j]["call"], scn["objs"])
        place = "%s:%s" % done["sites"].get((j, k), ("?", 0))
        names = tuple(label(c, scn["objs"]) for c in nest["calls"])
        out.nontrivial = True
        out.keys.add((outer, place, names))
        for m, call in enumerate(nest["calls"]):
            res = worker["res"][min(m, len(worker["res"]) - 1)]
            ref, _ = alone(scn["objs"], call, scn["salt"] + 1000 * (k + 1) + m)
            out.runs += 1
            diff = same(ref, res)
            if diff:
                out.violate("worker", f"{names[m]} in a worker forked at {place} in {outer} "
                            f"differs from fresh objects: {diff}")
                return
        if scn.get("battery") and worker["battery"] is None:
            out.violate("worker", f"a worker forked at {place} in {outer}: {worker['res'][-1]}")
            return
        batteries.append((worker["battery"], f"in a worker forked at {place} in {outer}"))
    for j, res in enumerate(done["results"]):
        step = scn["outer"][j]
        ref, _ = alone(scn["objs"], step["call"], scn["salt"] + j)
        out.runs += 1
        diff = same(ref, res)
        if diff:
            out.violate("parent", f"{label(step['call'], scn['objs'])}, during which workers were "
                        f"forked, differs from the same call alone: {diff}")
            return
    for results, what in batteries[:1] + [(done["battery"], "after workers were forked")]:
        check_battery(scn, out, results, what)
        if out.violations:
            return


def shrink(scn):
    yield from drop_battery(scn)
    yield from drop_each(scn, "outer")
    for j, step in enumerate(scn["outer"]):
        for k, nest in enumerate(step["nests"]):
            new = copy.deepcopy(scn)
            del new["outer"][j]["nests"][k]
            yield new
            if len(nest["calls"]) > 1:
                for m in range(len(nest["calls"])):
                    new = copy.deepcopy(scn)
                    del new["outer"][j]["nests"][k]["calls"][m]
                    yield new
    if scn["wrap"] and all(n["k"] in ("trace", "stdout") for s in scn["outer"]
                           for n in s["nests"]):
        yield dict(copy.deepcopy(scn), wrap=False)
    for j, step in enumerate(scn["outer"]):
        for simple in simpler_calls(step["call"]):
            new = copy.deepcopy(scn)
            new["outer"][j]["call"] = simple
            yield new
        for k, nest in enumerate(step["nests"]):
            at = nest.get("at")
            for smaller in sorted({0, 1, (at or 0) // 2}):
                if at is not None and smaller < at and (nest["k"] == "trace" or smaller > 0):
                    new = copy.deepcopy(scn)
                    new["outer"][j]["nests"][k]["at"] = smaller
                    yield new
    calls = scn.get("battery", []) + [s["call"] for s in scn["outer"]] + [
        c for s in scn["outer"] for n in s["nests"] for c in n["calls"]]
    keep = needed(scn["objs"], [i for c in calls for i in call_roots(c)])
    if any(s["k"] != "unused" for i, s in enumerate(scn["objs"]) if i not in keep):
        new = copy.deepcopy(scn)
        new["objs"] = [s if i in keep else {"k": "unused"} for i, s in enumerate(scn["objs"])]
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
