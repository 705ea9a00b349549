"""Faults of greedy fits: random draws, the inner optimizer, and the integration."""
import warnings

import numpy as np

from . import oracle
from .engine import child_info
from .gen import loguni, rnd
from .sched import Budget, Hang
from .seams import SIM
from .world import World

DRAWS = ["plain", "zeros", "tiny", "top", "same", "mixed"]
OPTS = ["real", "real", "lazy", "early", "drift", "worse", "collapse", "nan", "fail", "mixed",
        "tail", "tail"]


class Draws:
    """Random numbers as the scenario wants them: still numbers of [0, 1)."""

    def __init__(self, kind, seed):
        self.kind = kind
        self.rng = np.random.RandomState(seed % (2 ** 31))

    def __call__(self, real, args, kwargs):
        name = getattr(real, "__name__", "random")
        name = {"ranf": "random_sample", "sample": "random_sample"}.get(name, name)
        out = getattr(self.rng, name)(*args, **kwargs)
        SIM.fired("rng." + self.kind)
        if self.kind == "plain" or name == "uniform":
            return out
        arr = np.array(out, dtype=float)
        kind = self.kind
        if kind == "mixed":
            kind = ["plain", "zeros", "tiny", "top", "same"][self.rng.randint(5)]
        if kind == "zeros":
            arr[...] = 0.0
        elif kind == "tiny":
            arr = arr * 1e-12
        elif kind == "top":
            arr[...] = np.nextafter(1.0, 0.0)
        elif kind == "same":
            arr[...] = 0.25
        return arr if arr.ndim else float(arr)


class Optimizer:
    """The inner optimizer of GreedyLeastSquares under a script."""

    def __init__(self, kind, seed, gmax=None):
        self.kind = kind
        self.rng = np.random.RandomState(seed % (2 ** 31))
        self.sizes = []
        self.calls = 0
        self.gmax = gmax
        self.steps = []                  # sizes of the final optimizations, in order
        self.good = self.rng.randint(4)  # "tail": number of steps that are not spoiled
        self.tail = self.rng.choice(["worse", "collapse"])

    def __call__(self, real, fun, x0, args=(), **kw):
        from scipy.optimize import OptimizeResult
        self.calls += 1
        x0 = np.array(x0, dtype=float)
        self.sizes.append(len(x0))
        kind = self.kind
        final = (kw.get("options") or {}).get("maxiter") == self.gmax
        if final:
            self.steps.append(len(x0) // 2)
        if kind == "tail":
            # some good steps, then only steps to be rejected, of s and p type at random
            if final:
                kind = "early" if len(self.steps) <= self.good else self.tail
            else:
                kind = ["lazy", "worse"][self.rng.randint(2)]
        elif kind == "mixed":
            kind = ["real", "lazy", "early", "drift", "worse", "collapse", "nan",
                    "fail"][self.rng.randint(8)]
        SIM.fired("opt." + kind)
        if kind in ("real", "early"):
            if kind == "early":
                kw["options"] = dict(kw.get("options") or {}, maxiter=1)
            return real(fun, x0, args, **kw)
        x = np.clip(x0, 1e-12, None)
        n = len(x) // 2
        if kind == "drift":
            x = x * np.exp(0.05 * self.rng.standard_normal(len(x)))
        elif kind == "worse":
            x = x * np.exp(3.0 * self.rng.standard_normal(len(x)))
        elif kind == "collapse" and n > 1:
            k = self.rng.randint(n)
            x[n + k] = x[n + (k + 1) % n] + self.rng.choice([0.0, 5e-4, -5e-4, 2e-3])
            x = np.clip(x, 1e-12, None)
        elif kind == "nan":
            x = x * np.nan
        value = fun(x, *args)
        jac = None
        if isinstance(value, tuple):
            value, jac = value
        return OptimizeResult(x=x, success=kind not in ("nan", "fail"), fun=value, nit=1,
                              message="scripted " + kind, jac=jac, grad=jac, status=0,
                              nfev=1, njev=1)


def greedy_scenario(g, r, scale=1.0, big=False):
    """Objects of a greedy fit with a fault grid."""
    grid = g.grid(("uni", "clen"))
    dens = g.dens(grid, scale=scale)
    flavour = r.choice(["plain"] * 7 + ["shell", "shell", "steep"])
    terms = g.objs[dens]["d"].get("terms")
    if terms and flavour == "shell":     # little density at the nucleus
        terms[:] = [{"t": "e", "c": rnd(scale * loguni(r, 1e-7, 1e-2), 10),
                     "a": rnd(loguni(r, 0.05, 1.0), 4)},
                    {"t": "g", "c": rnd(scale * loguni(r, 0.2, 5.0), 6),
                     "a": rnd(loguni(r, 0.2, 4.0), 4), "x0": rnd(r.uniform(0.5, 4.0), 3)}]
    elif terms and flavour == "steep":   # far too steep for the grid
        terms.append({"t": "e", "c": rnd(scale * loguni(r, 1.0, 50.0), 4),
                      "a": rnd(loguni(r, 6.0, 40.0), 3)})
        terms[0]["c"] = rnd(scale * loguni(r, 1e-6, 1e-1), 10)
    fgrid = g.add({"k": "fgrid", "base": grid})
    i = g.greedy(grid=fgrid, dens=dens)
    kw = g.objs[i]["kw"]
    if g.objs[i]["k"] == "gkl":
        kw["l_maxiter"] = r.randint(1, 8)
        kw["g_maxiter"] = r.randint(1, 15)
        if r.random() < 0.3:
            kw["mask_value"] = r.choice([0.0, 1e-18, 1e-8])
    elif not big:
        kw["l_maxiter"] = r.randint(2, 8)
        kw["g_maxiter"] = kw["l_maxiter"] + r.randint(1, 12)
    if g.objs[i]["k"] == "gls" and r.random() < (0.6 if flavour == "shell" else 0.2):
        kw["normalize"] = True
    return i, fgrid


def start_defined(spec, grid, dens):
    """Whether a one-function start with a finite objective exists, by the harness' formulas."""
    f = np.asarray(dens, dtype=np.longdouble)
    r2 = np.asarray(grid.points, dtype=np.longdouble) ** 2
    w = oracle.weights(grid, spec["kw"].get("spherical", False))
    if not np.all(f > 0):
        return False
    if spec["k"] == "gkl":
        expo = 1.0 / np.sum(oracle.weights(grid, False) * f * r2 ** 2)
        return bool(np.isfinite(expo) and expo > 0)
    mspec = {"k": "atom", "s": 1, "p": 0, "norm": spec["kw"].get("normalize", False)}
    with np.errstate(all="ignore"):
        for u in (np.ones(len(f), dtype=np.longdouble), f, f ** 2):
            mean = np.sum(u * r2) / np.sum(u)
            dev = r2 - mean
            slope = np.sum(u * dev * np.log(f)) / np.sum(u * dev ** 2)
            coeff = np.exp(np.sum(u * np.log(f)) / np.sum(u) - slope * mean)
            m = oracle.model_values(mspec, grid.points, [coeff], [-slope])
            # well away from the border of what is defined
            if -slope > 1e-3 and np.isfinite(np.sum(np.abs(w) * (f - m) ** 2)):
                return True
    return False


def run(scn, limit=3_000_000, maxf=None):
    """One greedy run under the scenario's faults; everything needed to judge it."""
    world = World(scn["objs"], only=[])
    obj = world.obj(scn["o"])
    grid = world.obj(scn["fgrid"])
    spec = scn["objs"][scn["o"]]
    base = world.obj(scn["objs"][scn["fgrid"]]["base"])
    dens = np.asarray(world.obj(spec["dens"]))
    SIM.rng = Draws(scn["draws"], scn["salt"])
    kw = spec["kw"]
    gmax = kw["g_maxiter"] if kw["g_maxiter"] != kw["l_maxiter"] else None
    optimizer = Optimizer(scn["opt"], scn["salt"] + 1, gmax)
    asked = []

    def extra(params):
        """A user's function for extra choices: called once in every step."""
        asked.append(len(params) // 2)
        return []
    more = dict(scn.get("kw", {}))
    if scn.get("extra"):
        more["add_extra_choices"] = extra
    SIM.optimizer = optimizer
    info = {"ending": "ok"}
    raw = None
    for turn in range(scn.get("turns", 1)):
        asked.clear()
        optimizer.steps.clear()
        grid.script.n = 0
        grid.script.spec = scn.get("faults", {}) if turn == scn.get("turns", 1) - 1 else {}
        grid.script.enabled = True
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with Budget(limit):
                    raw = obj.run(scn["factor"], scn["dthr"], maxf or scn["maxf"],
                                  **more)
                info["ending"] = "ok"
        except Hang as exc:
            info["ending"], info["error"] = "hang", str(exc)
            break
        except Exception as exc:         # pylint: disable=broad-except
            info["ending"], info["error"] = type(exc).__name__, str(exc)[:200]
            raw = None
    info["fired"] = any(int(k) <= grid.script.n for k in scn.get("faults", {}))
    info["sizes"] = sorted(set(optimizer.sizes))
    info["nopt"] = optimizer.calls
    info["steps"] = list(optimizer.steps) if gmax and spec["k"] == "gls" else None
    info["asked"] = list(asked) if scn.get("extra") else None
    SIM.optimizer = None
    SIM.rng = None
    grid.script.enabled = False
    if info["ending"] not in ("ok", "hang"):
        info["start"] = start_defined(spec, base, dens)
    if raw is not None and info["ending"] == "ok":
        info["res"] = {
            "coeffs": np.array(raw["coeffs"], float), "exps": np.array(raw["exps"], float),
            "num_s": int(raw["num_s"]), "num_p": int(raw["num_p"]), "fun": float(raw["fun"]),
            "success": bool(raw["success"]), "perf": np.array(raw["performance"], float),
            "rows": [np.array(p, float) for p in raw["parameters_iteration"]],
            "info": str(raw["exit_information"])}
        info["judge"] = judge_rows(spec, base, dens, info["res"])
    info["child"] = child_info()
    return info


def judge_rows(spec, grid, dens, res):
    """For each row the reports of every split into s and p functions, by the harness' formulas."""
    gls = spec["k"] == "gls"
    w = oracle.weights(grid, spec["kw"].get("spherical", False))
    norm = spec["kw"].get("normalize", False) if gls else True
    mask = 1e-18 if gls else spec["kw"].get("mask_value", 1e-12)
    f = np.asarray(dens, dtype=np.longdouble)

    def report(c, e, ns):
        mspec = {"k": "atom", "s": ns, "p": len(c) - ns, "norm": norm}
        with np.errstate(all="ignore"):
            m = oracle.model_values(mspec, grid.points, c, e)
            diff = np.abs(f - m)
            kl = np.sum(w * f * np.log(f / m)) if np.min(m) > 2 * max(mask, 1e-290) else np.nan
            return [float(np.sum(w * m)), float(np.sum(w * diff)), float(np.max(diff)),
                    float(np.sum(w * diff ** 2)), float(kl)]

    table = []
    for row in res["rows"]:
        n = len(row) // 2
        table.append([report(row[:n], row[n:], ns) for ns in range(n + 1)])
    final = report(res["coeffs"], res["exps"], res["num_s"])
    return {"table": table, "final": final, "scale": [float(np.sum(np.abs(w) * f)),
                                                      float(np.sum(np.abs(w) * f ** 2))]}
