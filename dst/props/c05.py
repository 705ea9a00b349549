"""C05: fixed-point updates conserve electrons and never make the divergence worse."""
import copy

import numpy as np

from .. import oracle
from ..common import drop_each, simpler_specs
from ..engine import child_info, fork_run
from ..gen import Gen, loguni, rnd
from ..sched import Budget
from ..seams import SIM
from ..world import World

LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("One run = one KL-FPI problem (random grid, positive density, atomic or molecular s/p "
        "model, start) driven through a seeded schedule of 1-6 segments, each with its own choice "
        "of optimising coefficients, exponents or both, restarted on the same or on fresh objects "
        "in a fresh process. Electron number and divergence are recomputed from the harness' own "
        "Gaussian formulas at every iteration. Non-trivial: at least two iterations with a model "
        "that is positive on all points. distinct_nontrivial counts distinct (grid kind, model "
        "shape, schedule).")
MEASURE = "(grid kind, dimension, model shape, normalised, schedule of flags)"
REAL = ["all of bfit", "numpy"]
STUB = ["process restarts (only the parameters survive)", "clock", "stdout"]
ASSUMPTIONS = ["quadrature weights are not negative (checked by the harness for each grid)",
               "relative rounding error of one update below 1e-9"]
MUST_FIRE = ["restart", "conserved", "monotone"]


def generate(r, tier, i):
    g = Gen(r, small=True)
    three = r.random() < 0.3
    grid = g.grid(("cube", "cubemol") if three else ("uni", "clen", "trapz"))
    dens = g.dens(grid, slater=0.1)
    model = g.model(grid, norm=r.random() < 0.8, maxb=6)
    fit = g.fpi(grid, dens, model, mask=r.choice([0.0, 0.0, 1e-18, 1e-12, 1e-8]))
    n = g.nbasis(model)
    segs = []
    for _ in range(r.randint(1, 6)):
        flags = r.choice([(True, True), (True, True), (True, False), (False, True)])
        segs.append({"n": r.randint(1, 8), "flags": flags,
                     "restart": r.random() < 0.4})
    if not g.objs[model]["norm"]:
        for seg in segs:
            seg["flags"] = (True, False)
    c = [rnd(loguni(r, 1e-3, 50.0), 5) for _ in range(n)]
    e = [rnd(loguni(r, 0.05, 5.0), 5) for _ in range(n)]
    if n > 1 and r.random() < 0.15:
        e[1] = e[0]
    return {"objs": g.objs, "fit": fit, "c": c, "e": e, "segs": segs}


def _drive(scn):
    world = World(scn["objs"], only=[])
    spec = scn["objs"][scn["fit"]]
    try:
        fit = world.obj(scn["fit"])
    except (RuntimeError, ValueError) as exc:
        return {"refused": repr(exc), "info": child_info()}
    f = np.asarray(world.obj(spec["dens"]))
    w = oracle.weights(world.obj(spec["grid"]), spec["sph"])
    mspec = oracle.base_spec(scn["objs"], spec["model"])
    points = world.obj(spec["grid"]).points
    c, e = np.array(scn["c"], dtype=float), np.array(scn["e"], dtype=float)
    path, rows, flags = [(c, e)], [], []
    for seg in scn["segs"]:
        if seg["restart"]:
            SIM.fired("restart")
            fit = World(scn["objs"], only=[]).obj(scn["fit"])
        # the trajectory inside a segment: the same run with every smaller cap
        start = path[-1]
        for k in range(1, seg["n"] + 1):
            with Budget(12_000_000):
                res = fit.run(np.array(start[0]), np.array(start[1]), opt_coeffs=seg["flags"][0],
                              opt_expons=seg["flags"][1], maxiter=k, c_threshold=-1.0,
                              e_threshold=-1.0, d_threshold=-1.0)
            path.append((np.array(res["coeffs"], dtype=float),
                         np.array(res["exps"], dtype=float)))
            rows.append(np.array(res["performance"][-1], dtype=float))
            flags.append(seg["flags"])
    # judge with the harness' formulas
    f = f.astype(np.longdouble)
    dens_int = float(np.sum(w * f))
    total = float(spec.get("N") or dens_int)
    told = float(fit.integral_dens)
    neg = float(np.min(w)) < -1e-14 * float(np.max(np.abs(w)))
    table = []
    for cc, ee in path:
        if not (np.all(np.isfinite(cc)) and np.all(np.isfinite(ee))):
            table.append(None)
            continue
        with np.errstate(all="ignore"):
            m = oracle.model_values(mspec, points, cc, ee)
            vals, radii = oracle.basis_values(mspec, points, ee)
            # spread of each function under the current weights: none is collapsing onto a point
            spread = [float(np.sum(w * f * vals[:, j] * radii[j] / m)
                            / np.sum(w * f * vals[:, j] / m)) for j in range(len(ee))]
        used = w != 0
        table.append((float(np.sum(cc)), float(np.min(m[used])), oracle.kl(w[used], f[used],
                      m[used]), float(np.min(cc)), float(np.min(ee)),
                      float(np.min(f[used])), float(np.min(spread)),
                      [float(np.sum(w * m)), float(np.sum(w * abs(f - m))),
                       float(np.max(abs(f - m))), float(np.sum(w * (f - m) ** 2))],
                      [float(np.sum(abs(w * m))), float(np.sum(abs(w * (abs(f) + abs(m))))),
                       float(np.max(abs(f) + abs(m))),
                       float(np.sum(abs(w) * (abs(f) + abs(m)) ** 2))]))
    return {"table": table, "rows": rows, "flags": flags, "total": total, "dens": dens_int,
            "told": told,
            "neg": neg, "info": child_info()}


def execute(scn, out):
    done = fork_run(_drive, scn)
    out.merge_child(done["info"])
    if "refused" in done:
        out.probes["refused"] += 1
        return
    spec = scn["objs"][scn["fit"]]
    mspec = oracle.base_spec(scn["objs"], spec["model"])
    out.note(done["table"], done["rows"])
    if not abs(done["told"] - done["total"]) <= 1e-9 * abs(done["total"]):
        out.violate("electrons", f"the fit is for {done['told']!r} electrons, the density has "
                    f"{done['total']!r}")
        return
    floor = max(1e-200, 2 * spec["mask"])
    table, total, dens = done["table"], done["total"], done["dens"]
    if done["neg"]:
        out.probes["negative weights"] += 1
        return
    steps = 0
    # (with exponents only, the coefficients never change, so any sum is fine)
    for k in range(1, len(table)):
        prev, now, flags = table[k - 1], table[k], done["flags"][k - 1]
        if prev is None or prev[1] <= floor or prev[5] <= 1e-200 or prev[3] < 0:
            # the model vanishes somewhere: points are masked, no statement
            out.probes["masked"] += 1
            if prev is None:
                return
            continue
        if not prev[6] > 1e-10:
            # a function sits on the grid point at its own centre: no finite exponent is best
            out.probes["collapsed"] += 1
            return
        if now is None:
            out.violate("breakdown", f"iteration {k}: parameters are not finite although the "
                        f"model before it was positive (minimum {prev[1]:.3g})")
            return
        steps += 1
        if flags[0]:
            out.probes["conserved"] += 1
            if not abs(now[0] - total) <= 1e-9 * abs(total):
                out.violate("electrons", f"iteration {k}: coefficients sum to {now[0]!r}, the "
                            f"number of electrons is {total!r}")
                return
        # monotone: coefficient sums agree before and after (or only exponents move)
        comparable = (abs(prev[0] - total) <= 1e-9 * abs(total)) if flags[0] else True
        if comparable and now[1] > floor:
            out.probes["monotone"] += 1
            slack = 1e-9 * (abs(prev[2]) + abs(dens))
            if not now[2] <= prev[2] + slack:
                out.violate("worse", f"iteration {k} (flags {flags}): divergence rises from "
                            f"{prev[2]!r} to {now[2]!r}")
                return
        if now[1] > floor:
            out.probes["row"] += 1
            row = done["rows"][k - 1]
            if not abs(row[-1] - now[2]) <= 1e-8 * (abs(now[2]) + abs(dens)):
                out.violate("row", f"iteration {k}: reported divergence {row[-1]!r}, true value "
                            f"{now[2]!r}")
                return
        row = done["rows"][k - 1]
        for j, name in enumerate(("integral", "L1 distance", "L-infinity distance",
                                  "square distance")):
            if not abs(row[j] - now[7][j]) <= 1e-9 * now[8][j]:
                out.violate("row", f"iteration {k}: reported {name} {row[j]!r}, true value "
                            f"{now[7][j]!r}")
                return
        if flags[0] and (now[3] < 0):
            out.violate("negative", f"iteration {k}: negative coefficient {now[3]!r}")
            return
        if now[4] < 0:
            out.violate("negative", f"iteration {k}: negative exponent {now[4]!r}")
            return
    out.nontrivial = steps >= 2
    if out.nontrivial:
        grid = oracle.base_spec(scn["objs"], spec["grid"])["k"]
        shape = (mspec["k"], mspec.get("s"), mspec.get("p"),
                 tuple(map(tuple, mspec.get("basis", ()))), mspec["norm"])
        out.keys.add((grid, shape, tuple((s["n"], tuple(s["flags"]), s["restart"])
                                         for s in scn["segs"])))


def shrink(scn):
    if len(scn["segs"]) > 1:
        yield from drop_each(scn, "segs")
    for j, seg in enumerate(scn["segs"]):
        if seg["n"] > 1:
            for n in sorted({1, seg["n"] // 2, seg["n"] - 1}):
                new = copy.deepcopy(scn)
                new["segs"][j]["n"] = n
                yield new
        if seg["restart"]:
            new = copy.deepcopy(scn)
            new["segs"][j]["restart"] = False
            yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
