"""C10: a greedy fit never accepts a step that is worse, undefined, or redundant."""
import copy

import numpy as np

from .. import greedysim
from ..common import simpler_specs
from ..engine import fork_run
from ..gen import Gen, rnd

LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 50000}
RULE = ("One run = one greedy fit (least squares or KL-FPI, all choice functions) in which the "
        "random guesses are extreme (zeros, tiny, close to one, equal), the inner optimizer "
        "follows a script (works, stops early, does nothing, drifts, gets worse, makes functions "
        "collapse onto each other, returns NaN, fails) or integrate() returns NaN, +-inf or raises "
        "from a seeded call on. The returned history is judged with the harness' own formulas. "
        "Non-trivial: at least one step was accepted under a fault. distinct_nontrivial counts "
        "distinct (kind, choice function, draws, optimizer, fault, shape of the history).")
MEASURE = "(kind, choice function, draws, optimizer script, integrate fault, sizes, final s and p)"
REAL = ["all of bfit", "numpy", "scipy.optimize.nnls", "scipy.optimize.minimize (script: real)"]
STUB = ["numpy's global random draws", "scipy.optimize.minimize as scripted", "integrate()",
        "clock", "stdout"]
ASSUMPTIONS = ["the scripted optimizer stays within its bounds, or returns NaN and reports failure"]
MUST_FIRE = ["rng.zeros", "rng.top", "opt.collapse", "opt.nan", "opt.worse", "integrate.nan",
             "accepted", "rejected"]


def generate(r, tier, i):
    g = Gen(r, small=True)
    o, fgrid = greedysim.greedy_scenario(g, r, scale=r.choice([1.0, 1.0, 20.0, 0.05]))
    faults = {}
    kind = g.objs[o]["k"]
    if r.random() < (0.35 if kind == "gkl" else 0.2):
        at = r.choice([r.randint(3, 40), r.randint(10, 400), r.randint(100, 4000)])
        act = r.choice([["nan"], ["nan"], ["inf"], ["ninf"], ["raise", "PluginError"]])
        for k in range(at, at + r.choice([1, 1, 3, 40])):
            faults[str(k)] = act
    two = g.objs[o]["choice"] != "pick-one"
    return {"objs": g.objs, "o": o, "fgrid": fgrid, "faults": faults,
            "draws": r.choice(greedysim.DRAWS),
            "opt": r.choice(greedysim.OPTS) if kind == "gls" else "real",
            "factor": rnd(r.uniform(1.2, 4.0), 3), "dthr": r.choice([1e-8, 1e-12, 1e-3]),
            "maxf": r.randint(2, 3) if two else r.randint(2, 6), "salt": r.randrange(10**6),
            "turns": r.choice([1, 1, 1, 2])}


def check_report(out, scn, info):
    """Judge the returned history. Returns the possible numbers of s functions per row."""
    res, judge = info["res"], info["judge"]
    gls = scn["objs"][scn["o"]]["k"] == "gls"
    inc = 2 if scn["objs"][scn["o"]]["choice"] == "pick-two" else 1
    rows, perf = res["rows"], res["perf"]
    n = len(res["coeffs"])
    if len(res["exps"]) != n or res["num_s"] + res["num_p"] != n or min(
            res["num_s"], res["num_p"]) < 0:
        out.violate("shape", f"{n} coefficients, {len(res['exps'])} exponents, {res['num_s']} "
                    f"s and {res['num_p']} p functions")
        return None
    if perf.shape != (len(rows), 5):
        out.violate("shape", f"{len(rows)} parameter sets but performance of shape {perf.shape}")
        return None
    last = rows[-1]
    if not (np.array_equal(last[:len(last) // 2], res["coeffs"], equal_nan=True) and
            np.array_equal(last[len(last) // 2:], res["exps"], equal_nan=True)):
        out.violate("last", f"returned coefficients {res['coeffs']} exponents {res['exps']} are "
                    f"not the last of the history {last}")
        return None
    for j, row in enumerate(rows):
        if not np.all(np.isfinite(row)) and (j or not scn["faults"]):
            out.violate("nonfinite", f"step {j} has parameters {row}")
            return None
        if len(row) != 2 * (1 + j * inc):
            out.violate("shape", f"step {j} has {len(row) // 2} functions, expected {1 + j * inc}")
            return None
    # no two functions of one type with (nearly) the same exponent
    for name, exps in (("s", res["exps"][:res["num_s"]]), ("p", res["exps"][res["num_s"]:])):
        gaps = np.abs(exps[:, None] - exps[None, :]) + np.eye(len(exps))
        if exps.size > 1 and np.min(gaps) < 1e-3 * (1 - 1e-9):
            out.violate("redundant", f"two {name}-type exponents of {exps} are closer than 1e-3")
            return None
    if info["fired"]:
        return None
    # rows: a split into s and p functions explains the report, and the objective never rises
    col = 3 if gls else 4
    scale = judge["scale"][1] if gls else judge["scale"][0]
    slack = 1e-7 * (abs(scale) + float(np.max(np.nan_to_num(np.abs(perf[:, col])))) * 1e-2)

    def fits(report, row):
        for k, (a, b) in enumerate(zip(report, row)):
            if np.isnan(a):
                continue               # masked points: not determined by the harness
            tol = 1e-6 * max(abs(a), abs(b)) + (1e-7 * abs(scale) if k in (3, 4) else 1e-9)
            if not abs(a - b) <= tol:
                return False
        return True

    ways = {1}
    for j in range(len(rows)):
        ok = {ns for ns in range(len(rows[j]) // 2 + 1) if fits(judge["table"][j][ns], perf[j])}
        ways = ok if j == 0 else {ns for ns in ok if ns in ways or ns - inc in ways}
        if not ways:
            out.violate("report", f"performance of step {j} {perf[j]} does not belong to its "
                        f"parameters {rows[j]}: {judge['table'][j]}")
            return None
    if res["num_s"] not in ways:
        out.violate("types", f"{res['num_s']} s functions at the end, but the history says one of "
                    f"{sorted(ways)}")
        return None
    for j in range(1, len(rows)):
        if perf[j, col] > perf[j - 1, col] + slack:
            out.violate("worse", f"step {j} was accepted with objective {perf[j, col]!r} after "
                        f"{perf[j - 1, col]!r}")
            return None
    final = judge["final"][col]
    if not np.isnan(final) and not abs(res["fun"] - final) <= 1e-6 * max(
            abs(final), abs(res["fun"])) + 1e-7 * abs(scale):
        out.violate("fun", f"objective {res['fun']!r}, but the returned parameters have {final!r}")
        return None
    return ways


def execute(scn, out):
    info = fork_run(greedysim.run, scn)
    out.merge_child(info["child"])
    out.note(info["ending"], info.get("res", {}).get("rows"), info.get("res", {}).get("fun"))
    out.probes["ended " + info["ending"]] += 1
    if info["ending"] == "hang":
        out.violate("hang", info["error"])
        return
    if info["ending"] != "ok":
        # without a defined start, or when the integration fails, there need not be a history
        if info["start"] and not info["fired"]:
            out.violate("raises", f"no history is returned: {info['ending']}: {info['error']}")
        return
    res = info["res"]
    out.probes["accepted"] += len(res["rows"]) - 1
    if "Did Not Find" in res["info"]:
        out.probes["rejected"] += 1
    check_report(out, scn, info)
    spec = scn["objs"][scn["o"]]
    out.nontrivial = len(res["rows"]) > 1 and (
        info["fired"] or scn["draws"] != "plain" or scn["opt"] != "real")
    if out.nontrivial:
        out.keys.add((spec["k"], spec["choice"], scn["draws"], scn["opt"],
                      tuple(sorted(str(v[0]) for v in scn["faults"].values()))[:1],
                      len(res["rows"]), res["num_s"], res["num_p"]))


def shrink(scn):
    if scn["faults"]:
        yield dict(copy.deepcopy(scn), faults={})
        if len(scn["faults"]) > 1:
            first = sorted(scn["faults"], key=int)[0]
            yield dict(copy.deepcopy(scn), faults={first: scn["faults"][first]})
    for key, val in (("turns", 1), ("draws", "plain"), ("opt", "real"), ("opt", "lazy"),
                     ("factor", 2.0)):
        if scn[key] != val:
            yield dict(copy.deepcopy(scn), **{key: val})
    if scn["maxf"] > 2:
        yield dict(copy.deepcopy(scn), maxf=scn["maxf"] - 1)
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
