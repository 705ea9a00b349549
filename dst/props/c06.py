"""C06: a fixed-point fit reports honestly what happened, whatever the integration does."""
import copy
import warnings

import numpy as np

from ..common import drop_each, simpler_specs
from ..engine import child_info, fork_run
from ..gen import Gen
from ..sched import Budget, Hang
from ..seams import SIM
from ..world import EXCS, World, isclose

LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("One run = one KL-FPI fit with seeded thresholds and iteration cap on a grid whose "
        "integrate() fails at seeded calls during the fit (NaN, +-inf, zero, wrong scale, wrong "
        "sign, an exception, once or from then on) or not at all. The report is judged against "
        "the same fit with every lower cap and the same faults: number of rows, last row, cap, "
        "and success <=> converged by the documented thresholds with finite parameters. "
        "Non-trivial: a fault fired, or the fit converged before the cap. distinct_nontrivial "
        "counts distinct (flags, faults, ending).")
MEASURE = "(flags, fault kinds and persistence, ending, iterations)"
REAL = ["all of bfit", "numpy"]
STUB = ["the grid's integrate (delegates to the real one between faults)", "clock", "stdout"]
ASSUMPTIONS = ["the fit is deterministic, so a lower cap shows the state at that iteration"]
MUST_FIRE = ["integrate.nan", "integrate.inf", "integrate.scale", "integrate.raise", "converged",
             "cap reached", "early failure"]


def generate(r, tier, i):
    g = Gen(r, small=True)
    grid = g.grid()
    dens = g.dens(grid, slater=0.1)
    model = g.model(grid, maxb=5)
    fgrid = g.add({"k": "fgrid", "base": grid})
    fit = g.fpi(fgrid, dens, model)
    n = g.nbasis(model)
    faults = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        kind = r.choice(["nan", "nan", "inf", "ninf", "zero", "scale", "neg", "raise"])
        act = [kind]
        if kind == "scale":
            act.append(r.choice([0.5, 2.0, 1.0000001, 1e6, 1e-6]))
        if kind == "raise":
            act.append(r.choice(sorted(EXCS) + ["PluginError", "FloatingPointError"]))
        faults.append({"u": round(r.random(), 4), "act": act,
                       "len": r.choice([1, 1, 2, 7, 10**6])})
    pick = r.random()
    if pick < 0.5:
        thr = [r.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-6]) for _ in range(3)]
    elif pick < 0.75:
        thr = [r.choice([1e-1, 1e-2, 1e-3]), r.choice([1e-1, 1e-2, 1e-3]), 0.0]
    else:
        thr = [0.0, 0.0, r.choice([1e-1, 1e-2, 1e-3, 1e-4])]
    return {"objs": g.objs, "fit": fit, "fgrid": fgrid, "c": g.coeffs(n, False),
            "e": g.expons(n, False),
            "flags": r.choice([(True, True), (True, True), (True, False), (False, True)]),
            "thr": thr, "cap": r.choice([0, 1, 2, 3, 5, 8, 12, 20]), "faults": faults,
            "disp": r.random() < 0.1}


def _fit(scn, cap, script, thr):
    """One run on fresh objects. ("ok", result, calls made) or ("exc", ...)."""
    world = World(scn["objs"], only=[])
    fit = world.obj(scn["fit"])
    grid = world.obj(scn["fgrid"])
    grid.script.n = 0
    grid.script.spec = script
    try:
        with Budget(3_000_000):
            res = fit.run(np.array(scn["c"], dtype=float), np.array(scn["e"], dtype=float),
                          opt_coeffs=scn["flags"][0], opt_expons=scn["flags"][1], maxiter=cap,
                          c_threshold=thr[0], e_threshold=thr[1], d_threshold=thr[2],
                          disp=scn["disp"])
    except Hang:
        return ("hang",)
    except BaseException as exc:         # pylint: disable=broad-except
        return ("exc", type(exc).__name__, grid.script.n)
    grid.script.enabled = False
    gof = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        calls = grid.script.n
        gof = np.array(fit.goodness_of_fit(res["coeffs"], res["exps"]), dtype=float)
    return ("ok", {k: (np.array(v) if k != "success" else v) for k, v in res.items()
                   if k != "time"}, calls, gof)


def _judge(scn):
    bad = []
    total = _fit(dict(scn, disp=False), scn["cap"], {}, scn["thr"])
    ncalls = total[2] if total[0] in ("ok", "exc") else 100
    script = {}
    for fault in scn["faults"]:
        at = 1 + int(fault["u"] * ncalls)
        for k in range(at, min(at + fault["len"], ncalls * 3 + 50)):
            script[str(k)] = fault["act"]
    SIM.counts.clear()
    res = _fit(scn, scn["cap"], script, scn["thr"])
    raised = [k.rsplit(".", 1)[1] for k in SIM.counts if ".raise." in k]
    log = {"ending": res[0], "info": None}
    if res[0] == "hang":
        bad.append(("hang", "no end although maxiter is set"))
    if raised and res[0] == "ok":
        bad.append(("swallowed", f"the integrator raised {raised}, the fit went on"))
    if res[0] == "exc" and res[1] not in [EXCS[k].__name__ for k in raised]:
        bad.append(("exception", f"{res[1]} although the integrator raised {raised}"))
    if res[0] != "ok":
        log["info"] = child_info()
        return bad, log, [res[:2]]
    res, calls, gof = res[1], res[2], res[3]
    rows, fun = res["performance"], res["fun"]
    n = len(rows)
    log["n"], log["success"] = n, bool(res["success"])
    if n > scn["cap"]:
        bad.append(("cap", f"{n} iterations with maxiter={scn['cap']}"))
    if len(fun) != n or (n and rows.shape != (n, 5)):
        bad.append(("shape", f"{n} rows but {len(fun)} objective values, shape {rows.shape}"))
        return bad, log, [rows]
    if n and not all(isclose(a, b, 1e-12) for a, b in zip(fun, rows[:, 4])):
        bad.append(("fun", f"objective values {fun[:5]} differ from the rows {rows[:5, 4]}"))
    c, e = np.asarray(res["coeffs"], dtype=float), np.asarray(res["exps"], dtype=float)
    finite = bool(np.all(np.isfinite(c)) and np.all(np.isfinite(e)))
    if res["success"] and not finite:
        bad.append(("nonfinite", f"success with coefficients {c}, exponents {e}"))
    # the iteration before: the same fit and the same faults with a lower cap
    if n >= 1:
        if n == 1:
            pc, pe = np.array(scn["c"], dtype=float), np.array(scn["e"], dtype=float)
            pkl, start = np.inf, 0
        else:
            prev = _fit(dict(scn, disp=False), n - 1, script, scn["thr"])
            if prev[0] != "ok" or len(prev[1]["performance"]) != n - 1:
                bad.append(("prefix", f"with maxiter={n - 1}: {prev[:2]}"))
                return bad, log, [rows]
            pc, pe = prev[1]["coeffs"], prev[1]["exps"]
            pkl, start = prev[1]["performance"][-1][4], prev[2]
            if not all(isclose(a, b, 1e-9, 1e-300) for a, b in
                       zip(np.ravel(prev[1]["performance"]), np.ravel(rows[:-1]))):
                bad.append(("prefix", f"the first {n - 1} rows change with the cap"))
        # the last row describes the returned parameters unless integrate() lied about it
        lied = any(start < int(k) <= calls for k in script)
        if not lied and finite:
            log["row"] = True
            if not all(isclose(a, b, 1e-8, 1e-12) for a, b in zip(rows[-1], gof)):
                bad.append(("row", f"last row {rows[-1]} but the returned parameters give {gof}"))
        with np.errstate(all="ignore"):
            dkl = abs(float(rows[-1][4]) - float(pkl))
            dc, de = float(np.max(np.abs(c - pc))), float(np.max(np.abs(e - pe)))
        # rounding may decide a comparison that is a tie
        def near(x, t):
            return abs(x - t) <= 1e-9 * abs(t) if t else abs(x) < 1e-13

        tie = near(dkl, scn["thr"][2]) or near(dc, scn["thr"][0]) or near(de, scn["thr"][1])
        conv = dkl <= scn["thr"][2] or (dc <= scn["thr"][0] and de <= scn["thr"][1])
        log["conv"] = conv
        if not tie:
            if res["success"] and not conv:
                bad.append(("success", f"success after {n} of {scn['cap']} iterations but the "
                            f"changes are dc={dc:g} de={de:g} dKL={dkl:g}, thresholds "
                            f"{scn['thr']}"))
            if n < scn["cap"] and not conv and finite and np.isfinite(dkl):
                bad.append(("early", f"stopped after {n} of {scn['cap']} iterations with "
                            f"dc={dc:g} de={de:g} dKL={dkl:g}, thresholds {scn['thr']}"))
            if n < scn["cap"] and conv and finite and not np.isnan(dkl) and not res["success"]:
                bad.append(("failure", f"converged after {n} of {scn['cap']} iterations but "
                            f"reports failure"))
            if n == scn["cap"] and dkl <= scn["thr"][2] and finite and not res["success"]:
                bad.append(("failure", "converged in the last iteration but reports failure"))
    elif res["success"]:
        bad.append(("success", "success without any iteration"))
    if n == 0 and scn["cap"] > 0:
        bad.append(("early", "no iteration was made"))
    log["info"] = child_info()
    return bad, log, [rows, c, e, bool(res["success"])]


def execute(scn, out):
    bad, log, data = fork_run(_judge, scn)
    out.merge_child(log["info"] or {})
    out.note(data)
    out.runs += 2
    for kind, detail in bad[:3]:
        out.violate(kind, detail)
    ending = log["ending"]
    if ending == "ok":
        if log["success"]:
            ending = "converged" if log["n"] < scn["cap"] else "converged at cap"
        else:
            ending = "cap reached" if log["n"] == scn["cap"] else "early failure"
        if log.get("row"):
            out.probes["last row checked"] += 1
    out.probes[ending] += 1
    out.nontrivial = bool(scn["faults"]) or ending == "converged"
    if out.nontrivial:
        out.keys.add((tuple(scn["flags"]), tuple((f["act"][0], f["len"]) for f in scn["faults"]),
                      ending, log.get("n")))


def shrink(scn):
    if scn["faults"]:
        yield from drop_each(scn, "faults")
    for j, fault in enumerate(scn["faults"]):
        if fault["len"] > 1:
            new = copy.deepcopy(scn)
            new["faults"][j]["len"] = 1
            yield new
    if scn["cap"] > 1:
        for cap in sorted({1, 2, scn["cap"] // 2, scn["cap"] - 1}):
            if 0 < cap < scn["cap"]:
                yield dict(copy.deepcopy(scn), cap=cap)
    if scn["disp"]:
        yield dict(copy.deepcopy(scn), disp=False)
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
