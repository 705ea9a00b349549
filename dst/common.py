"""Pieces shared by the properties."""
import copy
import threading

import numpy as np

from . import engine
from .engine import child_info, fork_run
from .sched import Budget, CrashTracer, Hang, Scheduler
from .seams import SIM
from .world import World, canon, exc_canon, same

_TL = threading.local()


def seeded_draws(real, args, kwargs):
    """Random draws of the package come from the stream of the running call."""
    state = getattr(_TL, "state", None)
    if state is None:
        return real(*args, **kwargs)
    name = getattr(real, "__name__", "random")
    name = {"ranf": "random_sample", "sample": "random_sample"}.get(name, name)
    SIM.fired("rng.draw")
    return getattr(state, name)(*args, **kwargs)


def use_stream(number):
    """Give the current thread its own stream of random numbers."""
    _TL.state = np.random.RandomState(number % (2 ** 31))
    SIM.rng = seeded_draws


def guarded(world, call, salt):
    use_stream(salt)
    return world.try_call(call)


def alone(specs, call, salt, scripts=None, limit=12_000_000):
    """Result of one call in a fresh process with fresh objects."""
    def body():
        with Budget(limit):
            world = World(specs, scripts, only=[])
            res = guarded(world, call, salt)
        return res, child_info()
    return fork_run(body)


def battery(g, targets, greedy=0.3):
    """Cheap calls on every object involved that show most of what an object remembers."""
    r, calls = g.r, []
    for i in sorted(set(targets)):
        k = g.objs[i]["k"]
        if k in ("fpi", "sci"):
            n = g.nbasis(g.objs[i]["model"])
            calls.append({"f": "goodness_of_fit", "o": i,
                          "a": [g.coeffs(n, False), g.expons(n, False)]})
            if k == "fpi":
                calls.append({"f": "run", "o": i, "a": [g.coeffs(n, False), g.expons(n, False)],
                              "kw": {"maxiter": 2, "c_threshold": -1.0, "e_threshold": -1.0,
                                     "d_threshold": -1.0}})
            else:
                x, c = g.coeffs(2 * n, False), g.coeffs(n, False)
                for args in ([x], [c, {"str": "fixed_coeffs"}, g.coeffs(n, False)],
                             [c, {"str": "fixed_expons"}, g.expons(n, False)]):
                    calls.append({"f": "func", "o": i, "a": args})
                calls.append({"f": "const_norm", "o": i, "a": [x]})
        elif k in ("gls", "gkl"):
            if g.objs[i]["choice"] == "pick-one" and r.random() < greedy:
                calls.append({"f": "run", "o": i, "a": [2.0], "kw": {"max_numb_funcs": 2}})
        else:
            call = g.call(i)
            if call is not None:
                calls.append(call)
    return calls


def run_battery(world, calls, salt, backwards=False):
    """Results of the calls of a battery, made in order (or from the last to the first)."""
    res = [None] * len(calls)
    for j in (range(len(calls) - 1, -1, -1) if backwards else range(len(calls))):
        with Budget(12_000_000):
            res[j] = guarded(world, calls[j], salt + 7000 + j)
    return res


def check_battery(scn, out, results, what, specs=None):
    """Compare with the same battery on fresh objects in a fresh process."""
    calls = scn.get("battery")
    if not calls:
        return

    def body():
        # the other way round, so that the calls do not come after the same ones as before
        return run_battery(World(specs or scn["objs"], only=[]), calls, scn["salt"], True)
    refs = fork_run(body)
    out.runs += 1
    for j, (ref, res) in enumerate(zip(refs, results)):
        diff = same(ref, res)
        if diff:
            out.violate("battery", f"{what}, {label(calls[j], scn['objs'])} of the final battery "
                        f"(call {j}) differs from fresh objects: {diff}")
            return


def drop_battery(scn):
    """Shrink candidates: a smaller battery."""
    if scn.get("battery"):
        yield dict(copy.deepcopy(scn), battery=[])
        yield from drop_each(scn, "battery")


def drop_each(scn, key):
    """Shrink candidates: the list `key` without one (or several) of its entries."""
    items = scn[key]
    if len(items) > 4:
        half = len(items) // 2
        for part in (items[:half], items[half:]):
            new = copy.deepcopy(scn)
            new[key] = copy.deepcopy(part)
            yield new
    for i in range(len(items)):
        new = copy.deepcopy(scn)
        del new[key][i]
        yield new


def simpler_calls(call):
    """Simplifications of one call specification."""
    kw = call.get("kw", {})
    for key in list(kw):
        if key in ("disp",) and kw[key]:
            new = copy.deepcopy(call)
            new["kw"][key] = False
            yield new
    if isinstance(kw.get("maxiter"), int) and kw["maxiter"] > 1:
        for value in sorted({1, 2, kw["maxiter"] // 2, kw["maxiter"] - 1}):
            if value < kw["maxiter"] and value >= 1:
                new = copy.deepcopy(call)
                new["kw"]["maxiter"] = value
                yield new
    if isinstance(kw.get("max_numb_funcs"), int) and kw["max_numb_funcs"] > 2:
        new = copy.deepcopy(call)
        new["kw"]["max_numb_funcs"] -= 1
        yield new


def simpler_specs(specs):
    """Simplifications of the object list (same length, so references stay valid)."""
    for i, spec in enumerate(specs):
        if spec["k"] == "uni" and spec["n"] > 12:
            new = copy.deepcopy(specs)
            new[i]["n"] = max(10, spec["n"] // 2)
            yield new
        if spec["k"] == "dens" and spec["d"]["k"] == "terms" and len(spec["d"]["terms"]) > 1:
            new = copy.deepcopy(specs)
            new[i]["d"]["terms"] = new[i]["d"]["terms"][:1]
            yield new
        for key, val in (("w", None), ("N", None), ("sph", False)):
            if spec["k"] in ("fpi", "sci") and spec.get(key) not in (None, False):
                new = copy.deepcopy(specs)
                new[i][key] = val
                yield new


def needed(specs, roots):
    """Indices of all objects reachable from the roots."""
    seen, todo = set(), list(roots)
    while todo:
        i = todo.pop()
        if i in seen or i is None:
            continue
        seen.add(i)
        spec = specs[i]
        for key in ("grid", "dens", "model", "meas", "base", "pts", "w"):
            if isinstance(spec.get(key), int) and not isinstance(spec.get(key), bool):
                todo.append(spec[key])
        if spec["k"] == "dens" and spec["d"]["k"] == "slater":
            todo.append(spec["d"]["o"])
    return seen


def call_roots(call):
    out = []
    if "o" in call:
        out.append(call["o"])
    for value in list(call.get("a", [])) + list(call.get("kw", {}).values()) + list(
            call.get("ta", [])) + list(call.get("tkw", {}).values()):
        if isinstance(value, dict):
            if "o" in value:
                out.append(value["o"])
            if "pts" in value:
                out.append(value["pts"])
    if "spec" in call:
        for key in ("grid", "dens", "model", "meas", "base", "pts", "w"):
            if isinstance(call["spec"].get(key), int):
                out.append(call["spec"][key])
    return out


def label(call, specs):
    """Short readable name of a call."""
    if "o" in call:
        return f"{specs[call['o']]['k']}.{call['f']}"
    if call["f"] == "build":
        return f"new {call['spec']['k']}" + (f".{call['then']}" if "then" in call else "")
    return call.get("name", call["f"])


__all__ = [n for n in dir() if not n.startswith("__")]
