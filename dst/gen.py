"""Random specifications of objects and calls (pure JSON; nothing of bfit runs here)."""
import copy
import math

NEUTRAL = ["h", "he", "li", "be", "b", "c", "ne", "p", "cl", "k", "cr", "ag", "i", "xe", "cs",
           "ce", "dy", "rn", "lr"]
ANION = ["h", "c"]
CATION = ["c", "xe"]


def loguni(r, lo, hi):
    return lo * (hi / lo) ** r.random()


def rnd(x, n=6):
    """Shorter decimals make readable replay files."""
    return float(f"{x:.{n}g}")


#: what can be read of an object, apart from the arrays of the caller
PROPS = {"kl": ["mask_value", "negative_val"], "ts": ["alpha", "mask_value"],
         "fpi": ["integral_dens", "spherical", "lagrange_multiplier"],
         "sci": ["integral_dens", "spherical"],
         "gls": ["integral_dens", "numb_func_increase", "local_tol", "global_tol", "l_maxiter",
                 "g_maxiter", "with_constraint"],
         "gkl": ["integral_dens", "numb_func_increase", "l_threshold_coeff", "l_threshold_exp",
                 "l_threshold_obj", "g_threshold_coeff", "g_threshold_exp", "g_threshold_obj",
                 "l_maxiter", "g_maxiter"],
         "clen": ["atomic_number"]}


class Gen:
    """Accumulates object specs; methods return indices into `objs`."""

    def __init__(self, r, small=False):
        self.r = r
        self.objs = []
        self.small = small
        self.zeros = 0.0       # share of densities with exact zeros
        self.edge = 0.0        # share of fits that start at the border of what is sensible

    def add(self, spec):
        self.objs.append(spec)
        return len(self.objs) - 1

    # -- grids ---------------------------------------------------------------------------------
    def grid(self, kinds=("uni", "clen", "cube", "trapz", "cubemol")):
        r = self.r
        kind = r.choice(kinds)
        if kind == "uni":
            spec = {"k": "uni", "n": r.randint(25, 40 if self.small else 80),
                    "min": r.choice([0.0, 0.0, 0.01, 0.1]),
                    "max": rnd(r.uniform(4.0, 12.0), 3)}
            if r.random() < 0.5:
                spec["dt"] = "f8"
        elif kind == "clen":
            spec = {"k": "clen", "Z": r.randint(1, 12), "nc": r.randint(12, 20 if self.small else 40),
                    "nd": r.randint(12, 20 if self.small else 40), "org": r.random() < 0.6}
            if r.random() < 0.4:
                spec["ext"] = [rnd(r.uniform(26.0, 40.0), 4) for _ in range(r.randint(1, 3))]
            if r.random() < 0.5:
                spec["dt"] = "f8"
        elif kind == "cube":
            n = r.randint(3, 5)
            sp = rnd(r.uniform(0.5, 0.9), 3)
            o = rnd(-sp * (n - 1) / 2 + r.uniform(-0.1, 0.1), 4)
            spec = {"k": "cube", "o": [o, o, o],
                    "ax": [[sp, 0.0, 0.0], [0.0, sp, 0.0], [0.0, 0.0, sp]],
                    "sh": [n, r.randint(3, 5), r.randint(3, 5)]}
        elif kind == "cubemol":
            spec = {"k": "cubemol", "nums": [rnd(r.randint(1, 8)) for _ in range(2)],
                    "xyz": [[0.0, 0.0, 0.0], [rnd(r.uniform(0.3, 1.0), 3), 0.1,
                                              rnd(r.uniform(0.3, 1.0), 3)]],
                    "sp": rnd(r.uniform(0.7, 0.9), 3), "ex": rnd(r.uniform(0.9, 1.4), 3),
                    "rot": r.random() < 0.5}
        else:
            n = r.randint(20, 50)
            x, pts = 0.0, []
            for _ in range(n):
                x += r.uniform(0.02, 0.35)
                pts.append(rnd(x))
            spec = {"k": "trapz", "pts": pts}
            if r.random() < 0.35:
                # any points in any order, with any positive weights
                if r.random() < 0.3:
                    r.shuffle(pts)
                spec = {"k": "wgrid", "pts": pts,
                        "wts": [rnd(loguni(r, 0.02, 0.6), 4) for _ in pts]}
        i = self.add(spec)
        return i

    def is3d(self, grid):
        spec = self.objs[grid]
        if spec["k"] == "fgrid":
            return self.is3d(spec["base"])
        return spec["k"] in ("cube", "cubemol")

    def dens(self, grid, scale=None, kinds="gep", slater=0.0):
        r = self.r
        base = self.objs[grid]
        while base["k"] == "fgrid":
            base = self.objs[base["base"]]
        three = self.is3d(grid)
        if not three and slater and r.random() < slater:
            el = r.choice(["h", "he", "be", "b", "c", "ne", "p", "cl", "k"])
            a = self.add({"k": "slater", "el": el})
            return self.add({"k": "dens", "grid": grid, "d": {"k": "slater", "o": a}})
        terms = []
        n = r.randint(1, 3)
        scale = scale if scale is not None else r.choice([1.0, 1.0, 10.0, 0.1])
        for j in range(n):
            # the first term never vanishes, so the density is positive everywhere
            t = "e" if j == 0 else r.choice(kinds)
            term = {"t": t, "c": rnd(scale * loguni(r, 0.2, 5.0), 4),
                    "a": rnd(loguni(r, 0.3, 6.0) if j else loguni(r, 0.5, 2.5), 4)}
            if three:
                term["x"] = [rnd(r.uniform(-0.5, 0.5), 3) for _ in range(3)]
            terms.append(term)
        d = {"k": "terms", "terms": terms}
        if self.zeros and r.random() < self.zeros:
            # a density that vanishes exactly on part of the points
            d["cut"] = rnd(r.uniform(0.5, 0.95), 3)
        return self.add({"k": "dens", "grid": grid, "d": d})

    def model(self, grid, kind=None, norm=None, maxb=4):
        """`grid` (or an array object) provides the points."""
        r = self.r
        three = self.is3d(grid)
        kind = kind or (r.choice(["atom", "mol", "mol"]) if three else
                        r.choice(["atom", "atom", "atom", "mol"]))
        norm = r.random() < 0.6 if norm is None else norm
        if kind == "atom":
            s, p = r.choice([(1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (2, 2), (0, 1), (0, 2),
                             (1, 2), (4, 0)])
            while s + p > maxb:
                s, p = max(0, s - 1), (p if s else p - 1)
            spec = {"k": "atom", "pts": grid, "s": s, "p": p, "norm": norm}
            if three and r.random() < 0.5:
                spec["ctr"] = [rnd(r.uniform(-0.4, 0.4), 3) for _ in range(3)]
        else:
            n = r.randint(1, 3) if three else r.randint(1, 2)
            dim = 3 if three else 1
            basis = []
            for _ in range(n):
                basis.append(r.choice([[1, 0], [1, 1], [2, 0], [0, 1]]))
            xyz = [[rnd(r.uniform(-0.6, 0.6), 3) for _ in range(dim)] for _ in range(n)]
            spec = {"k": "mol", "pts": grid, "xyz": xyz, "basis": basis, "norm": norm}
        return self.add(spec)

    def nbasis(self, model):
        spec = self.objs[model]
        if spec["k"] == "fmodel":
            return self.nbasis(spec["base"])
        if spec["k"] == "atom":
            return spec["s"] + spec["p"]
        return sum(sum(b) for b in spec["basis"])

    def measure(self, kinds=("sd", "sd", "kl", "ts")):
        r = self.r
        kind = r.choice(kinds)
        if kind == "sd":
            return self.add({"k": "sd"})
        if kind == "kl":
            spec = {"k": "kl", "mask": r.choice([1e-12, 1e-18, 0.0])}
            if r.random() < 0.4:
                spec["neg"] = r.choice([5.0, 1e10, math.inf])
            return self.add(spec)
        return self.add({"k": "ts", "al": r.choice([1.001, 1.3, 0.5]), "mask": 1e-12})

    # -- fits ----------------------------------------------------------------------------------
    def fpi(self, grid=None, dens=None, model=None, norm=None, **more):
        r = self.r
        grid = self.grid() if grid is None else grid
        dens = self.dens(grid) if dens is None else dens
        model = self.model(grid, norm=norm) if model is None else model
        spec = {"k": "fpi", "grid": grid, "dens": dens, "model": model,
                "mask": r.choice([0.0, 0.0, 1e-12]),
                "sph": (not self.is3d(grid)) and r.random() < 0.5}
        if r.random() < 0.3:
            spec["N"] = rnd(loguni(r, 0.5, 20.0), 4)
        spec.update(more)
        return self.add(spec)

    def sci(self, grid=None, dens=None, model=None, meas=None, **more):
        r = self.r
        grid = self.grid() if grid is None else grid
        dens = self.dens(grid) if dens is None else dens
        model = self.model(grid, maxb=3) if model is None else model
        meas = self.measure() if meas is None else meas
        spec = {"k": "sci", "grid": grid, "dens": dens, "model": model, "meas": meas,
                "method": r.choice(["SLSQP", "slsqp", "SLSQP", "trust-constr"]),
                "sph": (not self.is3d(grid)) and r.random() < 0.4}
        if r.random() < 0.3:
            spec["N"] = rnd(loguni(r, 0.5, 20.0), 4)
        if r.random() < 0.3:
            spec["w"] = self.add({"k": "dens", "grid": grid,
                                  "d": {"k": "terms", "terms": [
                                      {"t": "e", "c": 1.0, "a": 0.4, "x": [0.0, 0.0, 0.0]}]}})
        spec.update(more)
        return self.add(spec)

    def greedy(self, kind=None, grid=None, dens=None, **more):
        r = self.r
        kind = kind or r.choice(["gls", "gkl"])
        if grid is None:
            grid = self.grid(("uni", "clen"))
        if dens is None:
            dens = self.dens(grid, scale=1.0)
        kw = {"l_maxiter": r.randint(3, 9), "g_maxiter": r.randint(5, 25),
              "spherical": r.random() < 0.5}
        if r.random() < 0.25:
            kw["integral_dens"] = rnd(loguni(r, 1.0, 20.0), 4)
        if kind == "gls":
            kw["with_constraint"] = r.random() < 0.25
            kw["normalize"] = False
            if r.random() < 0.08:
                kw["method"] = "trust-constr"
                kw["l_maxiter"] = 6
                kw["g_maxiter"] = 8
        spec = {"k": kind, "grid": grid, "dens": dens,
                "choice": r.choice(["pick-one", "pick-one", "pick-two", "pick-two-lose-one"]),
                "kw": kw}
        spec.update(more)
        return self.add(spec)

    # -- parameters ----------------------------------------------------------------------------
    def coeffs(self, n, lay=True):
        return self._vec([rnd(loguni(self.r, 0.1, 8.0), 5) for _ in range(n)], lay)

    def expons(self, n, lay=True):
        return self._vec([rnd(loguni(self.r, 0.08, 8.0), 5) for _ in range(n)], lay)

    def _vec(self, values, lay):
        if lay and self.r.random() < 0.2:
            return {"v": values, "lay": self.r.choice(["strided", "reversed"])}
        if lay and self.r.random() < 0.05:
            return {"v": values, "dt": "g"}
        return values

    # -- calls ---------------------------------------------------------------------------------
    def fit_run(self, i, maxiter=None, disp=None):
        r = self.r
        spec = self.objs[i]
        n = self.nbasis(spec["model"])
        opt = r.choice([(True, True), (True, True), (True, False), (False, True)])
        kw = {"opt_coeffs": opt[0], "opt_expons": opt[1],
              "disp": r.random() < 0.2 if disp is None else disp}
        if spec["k"] == "fpi":
            kw["maxiter"] = r.randint(1, 12) if maxiter is None else maxiter
            roll = r.random()
            if roll < 0.35:
                kw.update(c_threshold=-1.0, e_threshold=-1.0, d_threshold=-1.0)
            elif roll < 0.5:
                kw.update(c_threshold=1e-2, e_threshold=1e-2, d_threshold=1e-3)
            elif roll < 0.75:
                # the parameters decide when to stop
                kw.update(c_threshold=rnd(loguni(r, 1e-3, 3.0), 3),
                          e_threshold=rnd(loguni(r, 1e-3, 3.0), 3),
                          d_threshold=r.choice([-1.0, 0.0, 1e-10]))
        else:
            trust = spec["method"] == "trust-constr"
            kw["maxiter"] = maxiter or (r.randint(1, 4) if trust else r.randint(1, 12))
            kw["with_constraint"] = r.random() < 0.6
            kw["tol"] = r.choice([1e-14, 1e-8, 1e-4])
        start = [self.coeffs(n, False), self.expons(n, False)]
        if n > 1 and r.random() < 0.06:
            # several functions that are the same
            start = [[start[0][0]] * n, [start[1][0]] * n]
        if self.edge and r.random() < self.edge:
            for _ in range(r.choice([1, 1, 2])):
                r.choice(start)[r.randrange(n)] = r.choice([0.0, 0.0, 1e-12, 1e-7, -0.5, -1e-9,
                                                            1e3, 1e7])
        return {"f": "run", "o": i, "a": start, "kw": kw}

    def greedy_run(self, i, maxf=None):
        r = self.r
        two = self.objs[i]["choice"] != "pick-one"
        kw = {"max_numb_funcs": maxf or (3 if two else r.randint(2, 4)),
              "disp": r.random() < 0.15}
        if r.random() < 0.5:
            kw["d_threshold"] = r.choice([1e-8, 1e-2, 1e-12])
        return {"f": "run", "o": i, "a": [rnd(r.uniform(1.3, 4.0), 3)], "kw": kw}

    def call(self, i, light=False):
        """A random call on object i (None if the object has no interesting calls)."""
        r = self.r
        spec = self.objs[i]
        k = spec["k"]
        if k in PROPS and r.random() < 0.06:
            return {"f": "prop", "o": i, "names": PROPS[k]}
        if k in ("uni", "clen", "cube", "trapz", "wgrid", "cubemol", "fgrid"):
            return {"f": "integrate", "o": i, "a": [{"o": self._dens_on(i)}]}
        if k in ("atom", "mol", "fmodel"):
            n = self.nbasis(i)
            base = spec
            while base["k"] == "fmodel":
                base = self.objs[base["base"]]
            if base["k"] == "mol" and r.random() < 0.15:
                return {"f": "assign_basis_to_center", "o": i, "a": [r.randrange(n)]}
            if r.random() < 0.1:
                return {"f": "prop", "o": i, "names": ["radii", "nbasis", "natoms", "prefactor"]
                        + (["num_s", "num_p"] if base["k"] == "atom" else [])}
            kw = {"deriv": True} if r.random() < 0.6 else {}
            return {"f": "evaluate", "o": i, "a": [self.coeffs(n), self.expons(n)], "kw": kw}
        if k in ("sd", "kl", "ts", "fmeas") and r.random() < 0.4:
            # any values, also negative models
            m = r.choice([4, 4, 9])
            vals = [[rnd(loguni(r, 1e-4, 5.0), 4) * r.choice([1, 1, 1, s, 0]) for _ in range(m)]
                    for s in (1, -1)]
            return {"f": "evaluate", "o": i, "a": [{"v": v} for v in vals],
                    "kw": {"deriv": True} if r.random() < 0.6 else {}}
        if k in ("sd", "kl", "ts", "fmeas"):
            j = r.choice([x for x, s in enumerate(self.objs) if s["k"] == "dens"]
                         or [self.dens(self.grid())])
            g = self.objs[j]["grid"]
            other = [x for x, s in enumerate(self.objs) if s["k"] == "dens" and s["grid"] == g]
            kw = {"deriv": True} if r.random() < 0.6 else {}
            return {"f": "evaluate", "o": i, "a": [{"o": j}, {"o": r.choice(other)}], "kw": kw}
        if k in ("fpi", "sci"):
            roll = r.random()
            n = self.nbasis(spec["model"])
            if roll < 0.2:
                return {"f": "goodness_of_fit", "o": i, "a": [self.coeffs(n), self.expons(n)]}
            if roll < 0.25:
                return {"f": "integrate", "o": i, "a": [{"o": spec["dens"]}]}
            if k == "sci" and roll < 0.45:
                x = {"v": [rnd(loguni(r, 0.1, 5.0), 4) for _ in range(2 * n)]}
                mode = r.random()
                if mode < 0.4:
                    return {"f": r.choice(["func", "const_norm", "evaluate_model"]), "o": i,
                            "a": [x]}
                fixed = r.choice(["fixed_coeffs", "fixed_expons"])
                return {"f": r.choice(["func", "const_norm", "evaluate_model"]), "o": i,
                        "a": [self.coeffs(n), {"str": fixed}, self.coeffs(n)]}
            return self.fit_run(i)
        if k in ("gls", "gkl"):
            return self.greedy_run(i)
        if k == "slater":
            pts = [x for x, s in enumerate(self.objs) if s["k"] in ("uni", "clen", "trapz", "wgrid")]
            pts = {"pts": r.choice(pts)} if pts else [0.0, 0.1, 0.5, 1.0, 2.0, 5.0]
            f = r.choice(["atomic_density", "atomic_density", "phi_matrix", "derivative_density",
                          "positive_definite_kinetic_energy", "prop"])
            if f == "prop":
                return {"f": "prop", "o": i, "names": [
                    "energy", "orbitals", "orbitals_occupation", "orbitals_exp",
                    "orbitals_coeff", "configuration", "orbitals_energy"]}
            kw = {}
            if f == "atomic_density":
                kw = {"mode": r.choice(["total", "valence", "core"])}
            elif f == "phi_matrix":
                kw = {"deriv": r.random() < 0.5}
            return {"f": f, "o": i, "a": [pts], "kw": kw}
        return None

    def vary(self, call):
        """The same call again with one argument replaced (None if there is no such call)."""
        r = self.r
        if "o" not in call or not call.get("a"):
            return None
        for _ in range(12):
            other = self.call(call["o"])
            if other and other["f"] == call["f"] and len(other.get("a", ())) == len(call["a"]):
                new = copy.deepcopy(call)
                places = [("a", k) for k in range(len(call["a"]))]
                places += [("kw", k) for k in other.get("kw", {}) if k not in ("disp", "maxiter")]
                where, key = r.choice(places)
                new.setdefault(where, {})[key] = other[where][key]
                return new
        return None

    def _dens_on(self, grid):
        hit = [x for x, s in enumerate(self.objs) if s["k"] == "dens" and s["grid"] == grid]
        return self.r.choice(hit) if hit else self.dens(grid)

    def loader(self):
        r = self.r
        if r.random() < 0.35:
            return {"f": "ugbs", "a": [r.choice(["h", "he", "c", "O", "fe", "xe", "zzz"])]}
        roll = r.random()
        if roll < 0.7:
            return {"f": "load_slater", "a": [r.choice(NEUTRAL)]}
        if roll < 0.85:
            return {"f": "load_slater", "a": [r.choice(ANION)], "kw": {"anion": True}}
        return {"f": "load_slater", "a": [r.choice(CATION)], "kw": {"cation": True}}

    def bad_call(self, i):
        """A call that bfit has to refuse (wrong shapes or values)."""
        r = self.r
        spec = self.objs[i]
        k = spec["k"]
        if k in ("fpi", "sci"):
            n = self.nbasis(spec["model"])
            return r.choice([
                {"f": "run", "o": i, "a": [self.coeffs(n + 1, False), self.expons(n, False)]},
                {"f": "run", "o": i, "a": [self.coeffs(n, False), self.expons(n, False)],
                 "kw": {"opt_coeffs": False, "opt_expons": False}},
                {"f": "goodness_of_fit", "o": i, "a": [self.coeffs(n + 1), self.expons(n)]}])
        if k in ("gls", "gkl"):
            return {"f": "run", "o": i, "a": [r.choice([-1.0, 0.0])]}
        if k in ("atom", "mol"):
            n = self.nbasis(i)
            return {"f": "evaluate", "o": i, "a": [self.coeffs(n + 1), self.expons(n + 1)]}
        if k == "slater":
            return {"f": "atomic_density", "o": i, "a": [[0.0, 1.0]], "kw": {"mode": "nonsense"}}
        return None

    def helper(self):
        """A call of one of the greedy module's public helper functions."""
        r = self.r
        n = r.randint(1, 3)
        c = [rnd(r.uniform(0.1, 5), 3) for _ in range(n)]
        e = sorted(rnd(r.uniform(0.1, 5), 3) for _ in range(n))
        name = r.choice(["get_next_choices", "get_two_next_choices", "pick_two_lose_one",
                         "remove_redundancies"])
        if name == "remove_redundancies":
            if n > 1 and r.random() < 0.6:
                e[1] = e[0] + 1e-4
            return {"f": "helper", "name": name, "a": [c, e]}
        return {"f": "helper", "name": name, "a": [2.0, c, e]}


def shared_world(r, small=True, greedy=0.3, files=0.4):
    """A handful of objects that share grids, densities, models and measures.

    Returns (gen, list of object indices worth calling).
    """
    g = Gen(r, small)
    g.zeros, g.edge = 0.1, 0.12
    targets = []
    three = r.random() < 0.25
    grid = g.grid(("cube", "cubemol") if three else ("uni", "clen", "trapz"))
    dens = g.dens(grid, slater=0.2)
    dens2 = g.dens(grid)
    model = g.model(grid)
    targets += [grid, model]
    meas = g.measure()
    targets.append(meas)
    nfit = r.randint(1, 3)
    for _ in range(nfit):
        m = model if r.random() < 0.7 else g.model(grid)
        d = dens if r.random() < 0.6 else dens2
        if r.random() < 0.55:
            targets += [g.fpi(grid, d, m)] * 2
        else:
            targets += [g.sci(grid, d, m, meas if r.random() < 0.7 else g.measure())] * 2
    if not three and g.objs[grid]["k"] in ("uni", "clen") and r.random() < greedy:
        targets.append(g.greedy(grid=grid, dens=dens2))
    if r.random() < files:
        targets += [g.add({"k": "slater", "el": r.choice(NEUTRAL)})]
    return g, targets
