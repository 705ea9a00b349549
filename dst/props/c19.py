"""C19: calls made in the middle of another call of the same thread disturb neither."""
import copy
import sys

from ..common import (alone, battery, call_roots, check_battery, drop_battery, drop_each, fork_run,
                      guarded, label, needed, run_battery, simpler_calls, simpler_specs)
from ..common import _TL
from ..crash import dry_run
from ..engine import child_info
from ..gen import shared_world
from ..props.c01 import build_call
from ..sched import CrashTracer, Hang
from ..seams import SIM
from ..simio import SimStdout
from ..world import World, canon, exc_canon, same

LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 25000}
RULE = ("One run = 1-2 calls on shared objects, in the middle of which 1-3 other calls on the same "
        "objects are made by the same thread: at a seeded source line or bytecode (as a signal "
        "handler or a finalizer does), from the n-th call of the user's grid, measure or model, "
        "or from the n-th write to the user's stdout. The outer and the inner calls are compared "
        "with the same calls made alone in a fresh process, then the battery. In other runs "
        "(without inner calls, but with repeated ones) the user's measures and models hand out the same arrays every time. "
        "Non-trivial: an inner call was made, or such an array was handed out. distinct_nontrivial counts distinct (outer call, inner call, place).")
MEASURE = "(outer call kind, inner call kind, source line or plugin and number of its call)"
REAL = ["all of bfit", "numpy", "scipy.optimize"]
STUB = ["signal handlers and finalizers (called from a trace function)", "stdout", "clock",
        "user plugins around the real grids, measures and models", "random stream (one per call)"]
ASSUMPTIONS = ["a greedy fit is not started again on its own object while it runs",
               "models are not resized in the middle of a call"]
MUST_FIRE = ["nested.trace", "nested.integrate", "nested.measure", "nested.model",
             "nested.stdout", "same arrays"]


def generate(r, tier, i):
    g, targets = shared_world(r)
    wrap = r.random() < 0.6
    hot = r.choice(targets)
    fits = [t for t in targets if g.objs[t]["k"] in ("fpi", "sci", "gls", "gkl")]
    if r.random() < 0.6:
        hot = r.choice(fits)

    def one(obj, light=False):
        roll = r.random()
        if roll < 0.05:
            return g.loader()
        if roll < 0.12:
            return build_call(g, r, targets)
        if roll < 0.15:
            return g.helper()
        call = g.call(obj) or g.loader()
        if light and call["f"] == "run" and r.random() < 0.5:
            call["kw"]["maxiter"] = r.randint(1, 3)
            call["kw"].pop("max_numb_funcs", None)
        return call

    outer = []
    for _ in range(r.choice([1, 1, 2])):
        call = one(hot if r.random() < 0.85 else r.choice(targets))
        if "disp" in call.get("kw", {}) and r.random() < 0.4:
            call["kw"]["disp"] = True
        nests = []
        for _ in range(r.choice([1, 1, 2, 3])):
            kinds = ["trace", "trace"]
            if wrap:
                kinds += ["integrate", "measure", "model", "model"]
            if call.get("kw", {}).get("disp"):
                kinds += ["stdout", "stdout"]
            # most telling: the same object, or the model or measure that the outer call uses
            near = hot
            spec = g.objs[call["o"]] if "o" in call else None
            if spec is not None and r.random() < 0.6:
                near = r.choice([call["o"]] + [spec[k] for k in ("model", "model", "meas", "grid")
                                               if k in spec])
            inner = None
            for _ in range(20):
                inner = copy.deepcopy(call) if r.random() < 0.1 else one(
                    near if r.random() < 0.75 else r.choice(targets), True)
                if g.objs[inner.get("o", near)]["k"] in ("gls", "gkl") and \
                        inner.get("o") == call.get("o"):
                    inner = None
                    near = r.choice(targets)
                    continue
                if inner["f"] == "run" and g.objs[inner["o"]]["k"] in ("fpi", "sci"):
                    inner["kw"].pop("max_numb_funcs", None)
                break
            inner = inner or g.loader()
            nests.append({"k": r.choice(kinds), "u": round(r.random(), 5),
                          "v": round(r.random(), 5),
                          "pick": r.choice(["line", "line", "event"]), "call": inner})
        outer.append({"call": call, "nests": nests, "opcodes": r.random() < 0.2})
    reuse = wrap and r.random() < 0.4
    if reuse:
        # a plugin with one output array cannot be called in between, but ever again
        if fits and r.random() < 0.5:
            # evaluations of one fit, some at the same parameters
            near = r.choice(fits)
            for _ in range(8):
                call = one(near, True)
                if call["f"] != "run" and call.get("o") == near:
                    outer.append({"call": call, "opcodes": False})
            del outer[5:]
        for _ in range(r.choice([1, 2, 3, 4])):
            old = r.choice(outer)["call"]
            call = copy.deepcopy(old) if r.random() < 0.45 else one(
                old["o"] if "o" in old and r.random() < 0.7 else hot)
            if call["f"] in ("func", "const_norm", "evaluate_model") and r.random() < 0.3:
                call["f"] = r.choice(["func", "const_norm", "evaluate_model"])
            if "o" in call and g.objs[call["o"]]["k"] in ("gls", "gkl"):
                continue
            outer.append({"call": call, "opcodes": False})
        for step in outer:
            step["nests"] = []
    return {"objs": g.objs, "wrap": wrap, "outer": outer, "reuse": reuse,
            "battery": battery(g, [hot] + [c["o"] for x in outer
                                           for c in [x["call"]] + [n["call"] for n in x["nests"]]
                                           if "o" in c], 0.1) if r.random() < 0.5 else [],
            "salt": r.randrange(10**6)}


class Buffers:
    """What a user's plugin hands out: always the same arrays, with other contents."""

    def __init__(self):
        self.pool = {}

    def __call__(self, value, place=0):
        import numpy as np
        if isinstance(value, tuple):
            return tuple(self(v, k) for k, v in enumerate(value))
        if not isinstance(value, np.ndarray) or value.ndim == 0:
            return value
        key = (place, str(value.dtype), value.shape)
        buffer = self.pool.setdefault(key, np.empty(value.shape, value.dtype))
        buffer[...] = value
        SIM.fired("same arrays")
        return buffer


def _reusing(world):
    """Make the measures and models of the user hand out the same arrays every time."""
    for i, spec in enumerate(world.specs):
        if spec["k"] in ("sd", "kl", "ts", "atom", "mol"):
            plugin = world.obj(i)
            base = plugin.base
            plugin.base = _Reuse(base)


class _Reuse:
    def __init__(self, base):
        self._base = base
        self._out = Buffers()

    def __getattr__(self, name):
        return getattr(self._base, name)

    def evaluate(self, *args, **kwargs):
        return self._out(self._base.evaluate(*args, **kwargs))


class _Stdout(SimStdout):
    hook = None

    def write(self, text):
        res = super().write(text)
        if self.hook is not None:
            self.hook(self.writes)
        return res


class _Tracer(CrashTracer):
    """Calls `act` at the chosen events instead of raising."""

    def __init__(self, at, act, opcodes):
        super().__init__(ValueError("unused"), None, opcodes)
        self.where = dict(at)
        self.act = act
        self.sites = {}

    def _hit(self, frame):
        index = self.n
        super()._hit(frame)
        if self.n > index and index in self.where:
            key = self.where.pop(index)
            self.sites[key] = (frame.f_code.co_filename.rpartition("/")[2], frame.f_lineno)
            self.act(key)


def _run(scn):
    world = World(scn["objs"], wrap=scn["wrap"])
    if scn.get("reuse"):
        _reusing(world)
    inner = {}
    sites = {}
    results = []
    busy = []

    def act(key):
        """Make inner call number `key` right now."""
        if busy:
            return
        busy.append(key)
        state = getattr(_TL, "state", None)
        rng = SIM.rng
        keep = {k: (s.n, s.hook) for k, s in (world.wrap or {}).items()}
        stdout, sys.stdout = sys.stdout, SimStdout(keep=False)
        try:
            for script in (world.wrap or {}).values():
                script.hook = None
            j, k = key
            nest = scn["outer"][j]["nests"][k]
            SIM.fired("nested." + nest["k"])
            inner[key] = guarded(world, nest["call"], scn["salt"] + 50 + 10 * j + k)
        except Hang as exc:
            inner[key] = ("exc", "Hang", str(exc))
        finally:
            sys.stdout = stdout
            _TL.state, SIM.rng = state, rng
            for k, (n, hook) in keep.items():
                world.wrap[k].n, world.wrap[k].hook = n, hook
            busy.pop()

    for j, step in enumerate(scn["outer"]):
        from ..crash import roots
        roots(world, step["call"])
        for nest in step["nests"]:
            roots(world, nest["call"])
        at = {}
        hooks = {}
        for k, nest in enumerate(step["nests"]):
            if nest.get("at") is None:
                continue
            if nest["k"] == "trace":
                at[nest["at"]] = (j, k)
            else:
                hooks.setdefault(nest["k"], {})[nest["at"]] = (j, k)
                sites[(j, k)] = (nest["k"], nest["at"])
        tracer = _Tracer(at, act, step["opcodes"])
        out = sys.stdout = _Stdout(keep=False)
        for kind, places in hooks.items():
            def hook(n, places=places):
                if n in places and not busy:
                    act(places[n])
            if kind == "stdout":
                out.hook = hook
            else:
                world.wrap[kind].n = 0
                world.wrap[kind].hook = hook
        from ..common import use_stream
        use_stream(scn["salt"] + j)
        try:
            with tracer:
                res = canon(world.call(step["call"]))
        except Hang as exc:
            res = ("exc", "Hang", str(exc))
        except Exception as exc:         # pylint: disable=broad-except
            res = exc_canon(exc)
        finally:
            sys.settrace(None)
            sys.stdout = SimStdout(keep=False)
            for script in (world.wrap or {}).values():
                script.hook = None
        results.append(res)
        sites.update(tracer.sites)
    last = run_battery(world, scn.get("battery", []), scn["salt"])
    return {"results": results, "inner": inner, "sites": sites, "battery": last,
            "info": child_info()}


def _place(nest, dry):
    nest = dict(nest)
    if nest["k"] == "trace":
        if dry["n"] == 0:
            at = None
        elif nest["pick"] == "line" and dry["lines"]:
            _, _, seen = dry["lines"][int(nest["u"] * len(dry["lines"]))]
            at = seen[int(nest["v"] * len(seen))]
        else:
            at = int(nest["u"] * dry["n"])
    else:
        n = dry["counts"].get(nest["k"], 0)
        at = 1 + int(nest["u"] * n) if n else None
    nest["at"] = at
    return nest


def execute(scn, out):
    scn = copy.deepcopy(scn)
    for j, step in enumerate(scn["outer"]):
        if all("at" in nest for nest in step["nests"]):
            continue
        dry = dry_run(scn["objs"], step["call"], scn["salt"] + j, step["opcodes"], scn["wrap"])
        out.runs += 1
        out.steps += dry["n"]
        step["nests"] = [nest if "at" in nest else _place(nest, dry) for nest in step["nests"]]
    out.concrete = scn
    done = fork_run(_run, scn)
    out.merge_child(done["info"])
    out.nontrivial = bool(done["info"]["counts"].get("same arrays"))
    out.note(done["results"], sorted(done["inner"].items()), sorted(done["sites"].items()))
    for (j, k), res in sorted(done["inner"].items()):
        nest = scn["outer"][j]["nests"][k]
        outer = label(scn["outer"][j]["call"], scn["objs"])
        name = label(nest["call"], scn["objs"])
        place = "%s:%s" % done["sites"].get((j, k), ("?", 0))
        out.nontrivial = True
        out.keys.add((outer, name, place))
        ref, _ = alone(scn["objs"], nest["call"], scn["salt"] + 50 + 10 * j + k)
        out.runs += 1
        diff = same(ref, res)
        if diff:
            out.violate("inner", f"{name}, made at {place} in {outer}, differs from the same call "
                        f"alone: {diff}")
            return
    for j, res in enumerate(done["results"]):
        step = scn["outer"][j]
        ref, _ = alone(scn["objs"], step["call"], scn["salt"] + j)
        out.runs += 1
        diff = same(ref, res)
        if diff:
            made = [label(n["call"], scn["objs"]) for k, n in enumerate(step["nests"])
                    if (j, k) in done["inner"]]
            out.violate("outer", f"{label(step['call'], scn['objs'])}, in the middle of which "
                        f"{made} were made, differs from the same call alone: {diff}")
            return
    check_battery(scn, out, done["battery"], "after nested calls")


def shrink(scn):
    yield from drop_battery(scn)
    yield from drop_each(scn, "outer")
    for j, step in enumerate(scn["outer"]):
        for k in range(len(step["nests"])):
            new = copy.deepcopy(scn)
            del new["outer"][j]["nests"][k]
            yield new
    if scn.get("reuse"):
        yield dict(copy.deepcopy(scn), reuse=False)
    if scn["wrap"] and all(n["k"] in ("trace", "stdout") for s in scn["outer"]
                           for n in s["nests"]):
        yield dict(copy.deepcopy(scn), wrap=False, reuse=False)
    for j, step in enumerate(scn["outer"]):
        for simple in simpler_calls(step["call"]):
            new = copy.deepcopy(scn)
            new["outer"][j]["call"] = simple
            yield new
        for k, nest in enumerate(step["nests"]):
            for simple in simpler_calls(nest["call"]):
                new = copy.deepcopy(scn)
                new["outer"][j]["nests"][k]["call"] = simple
                yield new
            at = nest.get("at")
            for smaller in sorted({0, 1, (at or 0) // 2}):
                if at is not None and smaller < at and (nest["k"] == "trace" or smaller > 0):
                    new = copy.deepcopy(scn)
                    new["outer"][j]["nests"][k]["at"] = smaller
                    yield new
    calls = scn.get("battery", []) + [s["call"] for s in scn["outer"]] + [
        n["call"] for s in scn["outer"] for n in s["nests"]]
    keep = needed(scn["objs"], [i for c in calls for i in call_roots(c)])
    if any(s["k"] != "unused" for i, s in enumerate(scn["objs"]) if i not in keep):
        new = copy.deepcopy(scn)
        new["objs"] = [s if i in keep else {"k": "unused"} for i, s in enumerate(scn["objs"])]
        yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
