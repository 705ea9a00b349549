"""C07: ScipyFit asks the optimizer the right question and reports exactly its answer."""
import copy
import warnings

import numpy as np

from .. import oracle
from ..common import simpler_specs
from ..engine import child_info, fork_run
from ..gen import Gen, loguni, rnd
from ..sched import Budget
from ..seams import SIM
from ..world import EXCS, PluginError, World, isclose

LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 80000}
RULE = ("One run = a ScipyFit (random grid, density, model, measure, weights, method, flags, "
        "constraint) whose optimizer follows a seeded script over 1-3 consecutive fits: it works, "
        "stops early, reports failure, returns any admissible point (with any status, message and "
        "objective), returns NaN with a failure, never evaluates the objective, or raises. The "
        "problem it is handed is probed at random points and compared with the harness' own "
        "formulas; the dictionary is compared with what the optimizer delivered. Non-trivial: the "
        "optimizer misbehaved or more than one fit ran. distinct_nontrivial counts distinct "
        "(method, flags, constraint, measure, weights, scripts).")
MEASURE = "(method, flags, constraint, measure, weights or not, script of the optimizer)"
REAL = ["all of bfit", "numpy", "scipy.optimize (in the runs where the script lets it work)"]
STUB = ["scipy.optimize.minimize as scripted", "clock", "stdout"]
ASSUMPTIONS = ["measures are pure functions of density and model"]
MUST_FIRE = ["opt.fail", "opt.early", "opt.point", "opt.raise", "opt.nan", "opt.real"]


def generate(r, tier, i):
    g = Gen(r, small=True)
    patient = r.random() < 0.06          # trust-constr, left alone for many iterations
    grid = g.grid(("uni", "clen")) if patient else g.grid()
    dens = g.dens(grid, slater=0.1)
    model = g.model(grid, maxb=6)
    fit = g.sci(grid, dens, model, **({"method": "trust-constr"} if patient else {}))
    n = g.nbasis(model)
    trust = g.objs[fit]["method"] == "trust-constr"
    runs = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        kind = r.choice(["real", "early", "fail", "fail", "point", "point", "nan", "raise",
                         "lazy", "late_raise"] + ["real"] * 2 * trust)
        opt = r.choice([(True, True), (True, True), (True, False), (False, True)])
        m = n * (2 if opt == (True, True) else 1)
        run = {"c": g.coeffs(n, False), "e": g.expons(n, False),
               "opt": opt, "kind": kind, "con": r.random() < 0.6,
               "maxiter": r.choice([2, 3, 3, 15]) if trust else r.randint(1, 10),
               "tol": r.choice([1e-14, 1e-8, 1e-4]), "disp": r.random() < 0.2,
               "x": [rnd(loguni(r, 1e-3, 20.0), 5) for _ in range(m)],
               "probe": [[rnd(loguni(r, 0.05, 6.0), 5) for _ in range(m)] for _ in range(2)],
               "msg": r.choice(["Iteration limit reached", "Positive directional derivative",
                                "Optimization terminated successfully", "Singular matrix E"]),
               "fun": rnd(r.uniform(-3, 50)), "exc": r.choice(["ValueError", "PluginError",
                                                               "FloatingPointError",
                                                               "MemoryError"])}
        if patient:
            run.update(kind="real", maxiter=60, con=r.random() < 0.3)
        if kind == "point" and r.random() < 0.3:
            run["x"][r.randrange(m)] = 1e-12       # on a bound
        if not patient and r.random() < 0.2:
            # a start close to the bounds, or far away from everything
            odd = r.choice([1e-6, 1e-9, 1e-12, 0.0, 1e4])
            if r.random() < 0.3:
                # functions that are all the same
                run["c"], run["e"] = [run["c"][0]] * n, [run["e"][0]] * n
            run["c" if r.random() < 0.7 or odd == 0.0 else "e"][r.randrange(n)] = odd
        runs.append(run)
    return {"objs": g.objs, "fit": fit, "runs": runs}


def _objective(scn, world, c, e):
    """Objective, integral of the model and performance from the harness' own formulas."""
    from bfit.measure import KLDivergence
    spec = scn["objs"][scn["fit"]]
    mspec = oracle.base_spec(scn["objs"], spec["model"])
    grid = world.obj(spec["grid"])
    f = np.asarray(world.obj(spec["dens"]))
    with np.errstate(all="ignore"):
        m = np.asarray(oracle.model_values(mspec, grid.points, c, e), dtype=float)
        wts = np.ones(len(f)) if spec.get("w") is None else np.asarray(world.obj(spec["w"]))
        k = world.obj(spec["meas"]).evaluate(f, m)

        def integ(arr):
            if spec.get("sph"):
                arr = arr * 4.0 * np.pi * np.asarray(grid.points) ** 2
            return float(grid.integrate(arr))

        kl = KLDivergence(mask_value=spec.get("mask", 1e-18)).evaluate(f, m)
        diff = np.abs(f - m)
        perf = [integ(m), integ(diff), float(np.max(diff)), integ((f - m) ** 2), integ(kl)]
        total = float(spec["N"]) if spec.get("N") is not None else integ(f)
        return integ(np.asarray(wts * k)), integ(m), perf, total


def _gradient_off(scn, world, split, x, grad, obj):
    """Compare the gradient with central differences of the harness' objective."""
    spec = scn["objs"][scn["fit"]]
    mask = scn["objs"][spec["meas"]].get("mask", 0.0)
    mspec = oracle.base_spec(scn["objs"], spec["model"])
    points = world.obj(spec["grid"]).points
    with np.errstate(all="ignore"):
        low = float(np.min(oracle.model_values(mspec, points, *split(x))))
    if low <= 10 * mask or low < 1e-60:
        return None                  # masked points make the objective discontinuous
    scale = float(np.max(np.abs(grad))) + abs(obj)
    for k, value in enumerate(x):
        if value < 1e-4:
            continue                 # no accurate difference there
        h = 1e-5 * value
        up, down = x.copy(), x.copy()
        up[k] += h
        down[k] -= h
        a = _objective(scn, world, *split(up))[0]
        b = _objective(scn, world, *split(down))[0]
        want = (a - b) / (2 * h)
        if not abs(want - grad[k]) <= 1e-4 * max(scale, abs(want)):
            return f"gradient[{k}] is {grad[k]!r} at {x}, expected {want!r}"
    SIM.reached("gradient checked")
    return None


def _judge(scn):
    from scipy.optimize import OptimizeResult
    world = World(scn["objs"], only=[])
    fit = world.obj(scn["fit"])
    n = len(scn["runs"][0]["c"])
    bad, log, data = [], [], []
    for j, run in enumerate(scn["runs"]):
        c0, e0 = np.array(run["c"], dtype=float), np.array(run["e"], dtype=float)
        seen = {"calls": 0}
        opt_c, opt_e = run["opt"]

        def split(x, c0=c0, e0=e0, opt_c=opt_c, opt_e=opt_e):
            x = np.asarray(x, dtype=float)
            if opt_c and opt_e:
                return x[:n], x[n:]
            return (x, e0) if opt_c else (c0, x)

        def probe(fun, x0, args, jac, bounds, constraints, options, run=run, split=split):
            """Compare the question with the harness' formulas."""
            m = len(run["x"])
            if len(np.atleast_1d(x0)) != m:
                return ("question", f"x0 has {len(x0)} entries instead of {m}")
            want = np.concatenate([np.array(run["c"])] * run["opt"][0]
                                  + [np.array(run["e"])] * run["opt"][1])
            if not np.allclose(x0, want, rtol=1e-12, atol=0):
                return ("question", f"x0 {x0} is not the start {want}")
            lo, hi = [], []
            if bounds is None:
                return ("question", "no bounds: parameters must stay positive")
            if hasattr(bounds, "lb"):
                lo = np.broadcast_to(bounds.lb, m)
                hi = np.broadcast_to(bounds.ub, m)
            else:
                if len(bounds) != m:
                    return ("question", f"{len(bounds)} bounds for {m} parameters")
                lo = [b[0] for b in bounds]
                hi = [b[1] for b in bounds]
            for a, b in zip(lo, hi):
                if a is None or not 0 <= a <= 1e-8:
                    return ("question", f"lower bound {a} of a positive parameter")
                if b is not None and b < 1e15:
                    return ("question", f"upper bound {b}")
            for point in [want] + run["probe"]:
                x = np.array(point, dtype=float)
                value = fun(x.copy(), *args)
                grad = None
                if jac is True:
                    value, grad = value
                elif callable(jac):
                    grad = jac(x.copy(), *args)
                obj, integ, _, total = _objective(scn, world, *split(x))
                if not isclose(value, obj, 1e-7, 1e-9):
                    return ("question", f"objective {value!r} at {x}, expected {obj!r}")
                if grad is not None and np.shape(grad) != x.shape:
                    return ("question", f"gradient of shape {np.shape(grad)}")
                if grad is not None:
                    hit = _gradient_off(scn, world, split, x, np.asarray(grad, float), obj)
                    if hit:
                        return ("question", hit)
                want_con = total - integ
                cons = constraints if isinstance(constraints, (list, tuple)) else [constraints]
                if run["con"] and len(cons) == 0:
                    return ("question", "the constraint was not handed over")
                if not run["con"] and len(cons) != 0:
                    return ("question", "a constraint was handed over, but none was asked for")
                for con in cons:
                    if isinstance(con, dict):
                        if con["type"] != "eq":
                            return ("question", f"constraint of type {con['type']}")
                        val = con["fun"](x.copy(), *con.get("args", ()))
                        dev = float(np.ravel(val)[0])
                    elif hasattr(con, "fun"):
                        val = float(np.ravel(con.fun(x.copy()))[0])
                        if np.ravel(con.lb)[0] != np.ravel(con.ub)[0]:
                            return ("question", "constraint is not an equality")
                        dev = val - float(np.ravel(con.lb)[0])
                    else:
                        continue
                    scale = abs(total) + abs(integ)
                    if not abs(abs(dev) - abs(want_con)) <= 1e-7 * scale:
                        return ("question", f"constraint {dev!r} at {x}, expected +-"
                                f"{want_con!r}")
            limit = (options or {}).get("maxiter")
            if limit is not None and limit != run["maxiter"]:
                return ("question", f"maxiter {limit} instead of {run['maxiter']}")
            return None

        def optimizer(real, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None,
                      bounds=None, constraints=(), tol=None, callback=None, options=None,
                      run=run, seen=seen, probe=probe):
            seen["calls"] += 1
            kind = run["kind"]
            spec = scn["objs"][scn["fit"]]
            if str(method).lower() != spec["method"].lower():
                seen["bad"] = ("question", f"method {method} instead of {spec['method']}")
            if kind == "raise":
                SIM.fired("opt.raise")
                raise EXCS[run["exc"]]("injected in the optimizer")
            args = args if isinstance(args, tuple) else (args,)
            if kind != "lazy":
                hit = probe(fun, x0, args, jac, bounds, constraints, options)
                if hit:
                    seen["bad"] = hit
            if kind == "late_raise":
                SIM.fired("opt.raise")
                raise EXCS[run["exc"]]("injected in the optimizer")
            if kind in ("real", "early"):
                opts = dict(options or {})
                if kind == "early":
                    SIM.fired("opt.early")
                    opts["maxiter"] = 1
                else:
                    SIM.fired("opt.real")
                res = real(fun, x0, args, method, jac, hess, hessp, bounds, constraints, tol,
                           callback, opts)
                seen["honest"] = True
                seen["real"] = True
            else:
                SIM.fired("opt." + {"lazy": "point"}.get(kind, kind))
                m = len(run["x"])
                x = np.full(m, np.nan) if kind == "nan" else np.array(run["x"], dtype=float)
                res = OptimizeResult(
                    x=x, success=kind in ("point", "lazy"), message=run["msg"],
                    fun=np.nan if kind == "nan" else run["fun"], jac=np.linspace(1, 2, m),
                    grad=np.linspace(1, 2, m), nit=3, nfev=5, njev=5, status=0 if kind == "point" else 9)
                if kind == "point" and callback is not None and run["disp"]:
                    pass
            seen["res"] = {k: copy.deepcopy(res.get(k)) for k in
                           ("x", "success", "message", "fun", "jac")}
            if "grad" in res:
                # trust-constr keeps the gradient here, and those of the constraints in jac
                seen["res"]["jac"] = copy.deepcopy(res["grad"])
            return res

        SIM.optimizer = optimizer
        caught = []
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                with Budget(12_000_000):
                    res = fit.run(c0.copy(), e0.copy(), opt_coeffs=opt_c, opt_expons=opt_e,
                                  maxiter=run["maxiter"], tol=run["tol"], disp=run["disp"],
                                  with_constraint=run["con"])
                ending = "ok"
            except Exception as exc:         # pylint: disable=broad-except
                ending, res, error = type(exc).__name__, None, exc
        SIM.optimizer = None
        told = [str(w.message) for w in caught if issubclass(w.category, UserWarning)]
        log.append(ending)
        where = f"fit {j}: "
        if "bad" in seen:
            bad.append((seen["bad"][0], where + seen["bad"][1]))
        if run["kind"] in ("raise", "late_raise"):
            if ending != run["exc"] and not (run["exc"] == "PluginError" and
                                             ending == PluginError.__name__):
                bad.append(("raise", where + f"the optimizer raised {run['exc']}, the caller got "
                            f"{ending}"))
            continue
        if ending != "ok":
            if run["kind"] in ("real", "early") and ending != "TypeError":
                # e.g. an optimizer that refuses a NaN objective: the caller knows
                data.append((ending,))
                continue
            bad.append(("raise", where + f"{ending}: {error}"))
            continue
        if seen["calls"] != 1:
            bad.append(("question", where + f"the optimizer was called {seen['calls']} times"))
            continue
        got = seen["res"]
        wc, we = split(got["x"])
        if not (np.array_equal(np.asarray(res["coeffs"], float), wc, equal_nan=True)
                and np.array_equal(np.asarray(res["exps"], float), we, equal_nan=True)):
            bad.append(("params", where + f"coefficients {res['coeffs']} exponents {res['exps']}, "
                        f"the optimizer delivered {wc} {we}"))
        if bool(res["success"]) is not bool(got["success"]):
            bad.append(("success", where + f"success={res['success']}, the optimizer said "
                        f"{got['success']} ({got['message']})"))
        if got["message"] not in str(res["message"]):
            bad.append(("message", where + f"message {res['message']!r} instead of "
                        f"{got['message']!r}"))
        if not isclose(res["fun"], got["fun"], 1e-12):
            bad.append(("fun", where + f"objective {res['fun']!r} instead of {got['fun']!r}"))
        if not np.array_equal(np.asarray(res["jacobian"], float), np.asarray(got["jac"], float),
                              equal_nan=True):
            bad.append(("jacobian", where + "the jacobian is not the optimizer's"))
        obj, _, perf, _ = _objective(scn, world, wc, we)
        if seen.get("honest") and not isclose(res["fun"], obj, 1e-6, 1e-9):
            bad.append(("fun", where + f"objective {res['fun']!r} but the returned parameters "
                        f"have {obj!r}"))
        mine = np.asarray(res["performance"], dtype=float)
        if np.any((wc == 0) & ~np.isfinite(we)):
            continue                     # zero times NaN: as good as anything
        if mine.shape != (5,) or not all(isclose(a, b, 1e-7, 1e-9) for a, b in zip(mine, perf)):
            bad.append(("performance", where + f"performance {mine} but the returned parameters "
                        f"give {perf}"))
        warned = any(str(got["message"]) in t for t in told)
        if not got["success"] and not warned:
            bad.append(("warning", where + f"failed ({got['message']}) without a warning"))
        if got["success"] and any("ailed" in t and "ptimi" in t for t in told):
            bad.append(("warning", where + f"warned {told} although the optimizer succeeded"))
        data.append((bool(res["success"]), np.asarray(res["coeffs"], float),
                     np.asarray(res["exps"], float), mine))
        log[-1] = "success" if res["success"] else "failure"
    return bad, log, data, child_info()


def execute(scn, out):
    bad, log, data, info = fork_run(_judge, scn)
    out.merge_child(info)
    out.note(data, log)
    for kind, detail in bad[:3]:
        out.violate(kind, detail)
    for ending in log:
        out.probes[ending] += 1
    spec = scn["objs"][scn["fit"]]
    out.nontrivial = len(scn["runs"]) > 1 or scn["runs"][0]["kind"] != "real"
    if out.nontrivial:
        out.keys.add((spec["method"].lower(), scn["objs"][spec["meas"]]["k"],
                      spec.get("w") is not None, spec.get("N") is not None,
                      tuple((tuple(x["opt"]), x["con"], x["kind"]) for x in scn["runs"])))


def shrink(scn):
    if len(scn["runs"]) > 1:
        for j in range(len(scn["runs"])):
            new = copy.deepcopy(scn)
            del new["runs"][j]
            yield new
    for j, run in enumerate(scn["runs"]):
        for key, val in (("disp", False), ("con", False), ("maxiter", 1), ("kind", "point")):
            if run[key] != val:
                new = copy.deepcopy(scn)
                new["runs"][j][key] = val
                yield new
    for specs in simpler_specs(scn["objs"]):
        yield dict(copy.deepcopy(scn), objs=specs)
