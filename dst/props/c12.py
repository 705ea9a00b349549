"""C12: a greedy fit always comes to an end and never has more functions than allowed."""
import copy

import numpy as np

from .. import greedysim
from ..common import simpler_specs
from ..engine import fork_run
from ..gen import Gen, loguni, rnd

LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = ("One run = one greedy fit (both kinds, all choice functions, 1-12 functions allowed, "
        "thresholds down to zero and below, densities of any magnitude) under adversarial "
        "histories: random guesses at the ends of their range, an inner optimizer that always "
        "improves a little, never improves, makes functions collapse, or fails; run once or twice "
        "on the same object. The fit has to end within a bound on executed lines that is linear "
        "in the work of a step, with at most the allowed number of functions in every accepted "
        "set. Non-trivial: the limit or five rejected steps in a row ended the fit. "
        "distinct_nontrivial counts distinct (kind, choice function, limit, script, ending).")
MEASURE = "(kind, choice function, limit, draws, optimizer script, steps, ending)"
REAL = ["all of bfit", "numpy", "scipy.optimize.nnls", "scipy.optimize.minimize (script: real)"]
STUB = ["numpy's global random draws", "scipy.optimize.minimize as scripted", "clock", "stdout"]
ASSUMPTIONS = ["inner optimizations end by their own iteration caps"]
MUST_FIRE = ["limit reached", "five rejections", "threshold", "opt.worse", "opt.collapse"]


def generate(r, tier, i):
    g = Gen(r, small=True)
    scale = r.choice([1.0, 1.0, 1.0, loguni(r, 1e2, 1e7), loguni(r, 1e-4, 1.0)])
    o, fgrid = greedysim.greedy_scenario(g, r, scale=scale)
    kind = g.objs[o]["k"]
    kw = g.objs[o]["kw"]
    kw["l_maxiter"], kw["g_maxiter"] = r.randint(1, 4), r.randint(5, 9)
    choice = g.objs[o]["choice"]
    top = {"pick-one": 9, "pick-two": 7, "pick-two-lose-one": 4}[choice]
    opts = ["drift", "drift", "worse", "collapse", "lazy", "early", "fail", "mixed", "tail",
            "tail", "tail"]
    return {"objs": g.objs, "o": o, "fgrid": fgrid,
            "draws": r.choice(greedysim.DRAWS), "opt": r.choice(opts) if kind == "gls" else "real",
            "factor": rnd(r.choice([r.uniform(1.01, 4.0), r.uniform(0.3, 0.99), 100.0]), 3),
            "dthr": r.choice([1e-8, 1e-14, 0.0, -1.0, 1e-3]), "maxf": r.randint(1, top),
            "salt": r.randrange(10**6), "turns": r.choice([1, 1, 2]),
            "extra": r.random() < 0.6}


def streaks(sizes):
    """Equal numbers in a row: [(number, how often)]."""
    out = []
    for size in sizes:
        if out and out[-1][0] == size:
            out[-1] = (size, out[-1][1] + 1)
        else:
            out.append((size, 1))
    return out


def execute(scn, out):
    info = fork_run(greedysim.run, scn, 8_000_000)
    out.merge_child(info["child"])
    out.note(info["ending"], info.get("res", {}).get("rows"))
    spec = scn["objs"][scn["o"]]
    if info["ending"] == "hang":
        out.violate("hang", f"max_numb_funcs={scn['maxf']}: {info['error']}")
        return
    out.probes["ended " + info["ending"]] += 1
    limit = scn["maxf"]
    most = max(info["sizes"]) // 2 if info["sizes"] else 1
    if most > max(limit, 1):
        out.violate("limit", f"the optimizer was given {most} functions with "
                    f"max_numb_funcs={limit}")
        return
    # at most five rejected steps in a row
    tail = 0
    for name, sizes in (("asked for choices", info["asked"]), ("optimized", info["steps"])):
        for size, count in streaks(sizes or []):
            if count > 5:
                out.violate("rejections", f"{name} {count} times for the step from or to {size} "
                            f"functions: {sizes}")
                return
    if info["asked"]:
        tail = streaks(info["asked"])[-1][1]
    if info["ending"] != "ok":
        if info["start"]:
            out.violate("raises", f"{info['ending']}: {info['error']} (max_numb_funcs={limit})")
        return
    res = info["res"]
    if len(res["coeffs"]) > max(limit, 1) or any(len(p) // 2 > max(limit, 1)
                                                 for p in res["rows"]):
        out.violate("limit", f"{[len(p) // 2 for p in res['rows']]} functions with "
                    f"max_numb_funcs={limit}")
        return
    inc = 2 if spec["choice"] == "pick-two" else 1
    full = len(res["coeffs"]) + inc > limit
    if full:
        how = "limit reached"
    elif "Did Not Find" in res["info"]:
        how = "five rejections"
    else:
        how = "threshold"
        rows = res["perf"][:, 3 if spec["k"] == "gls" else 4]
        if len(rows) > 1 and np.all(np.isfinite(rows)) and \
                abs(rows[-1] - rows[-2]) > max(scn["dthr"], 0) * 1.001 + 1e-7 * abs(rows[-2]):
            out.violate("stopped", f"stopped with {len(res['coeffs'])} of {limit} functions "
                        f"although the objective changed from {rows[-2]!r} to {rows[-1]!r} "
                        f"(threshold {scn['dthr']})")
            return
        if len(rows) == 1 and limit > inc:
            out.violate("stopped", f"stopped before the first step: {res['info']}")
            return
    if how == "five rejections" and info["asked"] and tail != 5:
        out.violate("reason", f"said {res['info']!r} after {tail} rejected steps")
        return
    text = res["info"].lower()
    rows = res["perf"][:, 3 if spec["k"] == "gls" else 4]
    if np.all(np.isfinite(rows)):
        change = abs(rows[-1] - rows[-2]) if len(rows) > 1 else np.inf
        slack = 1e-7 * abs(rows[-1]) + 1e-9 * float(np.max(np.abs(rows)))
        if "max number" in text and not full:
            out.violate("reason", f"said {res['info']!r} with {len(res['coeffs'])} of {limit} "
                        f"functions, {inc} added in a step")
            return
        if ("epsilon" in text or "cost function" in text) and change > max(
                scn["dthr"], 0) * 1.001 + slack:
            out.violate("reason", f"said {res['info']!r} although the objective changed by "
                        f"{change!r} in the last step (threshold {scn['dthr']})")
            return
    if how == "five rejections" and res["success"]:
        out.violate("success", "five rejected steps in a row are reported as success")
        return
    if how == "threshold" and not res["success"] and len(res["coeffs"]) != limit - 1:
        out.violate("success", f"converged, but success is False: {res['info']}")
        return
    out.probes[how] += 1
    out.nontrivial = how != "threshold"
    if out.nontrivial:
        out.keys.add((spec["k"], spec["choice"], limit, scn["draws"], scn["opt"],
                      len(res["rows"]), how))


def shrink(scn):
    if scn.get("extra"):
        yield dict(copy.deepcopy(scn), extra=False)
    for key, val in (("turns", 1), ("draws", "plain"), ("opt", "lazy"), ("factor", 2.0),
                     ("dthr", 1e-8)):
        if scn[key] != val:
            yield dict(copy.deepcopy(scn), **{key: val})
    if scn["maxf"] > 1:
        yield dict(copy.deepcopy(scn), maxf=scn["maxf"] - 1)
        yield dict(copy.deepcopy(scn), maxf=max(1, scn["maxf"] // 2))
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
