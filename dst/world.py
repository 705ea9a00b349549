"""Building bfit objects from JSON specifications and calling their public API.

Everything here is used in forked children only. A *spec* is plain JSON, so a scenario can be
written to a replay file as it is.
"""
import copy
import math
import re
import warnings

import numpy as np

from .seams import SIM


# --------------------------------------------------------------------------------------------
# plugins: user-written grids, measures and models with faults under control of the scenario
# --------------------------------------------------------------------------------------------
class PluginError(Exception):
    """Raised by a user's plugin."""


EXCS = {
    "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
    "PluginError": PluginError, "OSError": OSError, "FloatingPointError": FloatingPointError,
    "OverflowError": OverflowError, "ZeroDivisionError": ZeroDivisionError,
    "TypeError": TypeError, "IndexError": IndexError, "RuntimeWarning": RuntimeWarning,
    "StopIteration": StopIteration, "AssertionError": AssertionError,
    "LinAlgError": np.linalg.LinAlgError, "NotImplementedError": NotImplementedError,
    "ValueError": ValueError, "SystemExit": SystemExit, "RuntimeError": RuntimeError,
}


class Script:
    """Faults of one plugin: {"<n>": action} for the n-th call, {"dt": seconds per call}."""

    def __init__(self, spec, name):
        self.spec = spec or {}
        self.name = name
        self.n = 0
        self.enabled = True
        self.hook = None         # what the plugin does on its own, callable(number of the call)

    def before(self):
        self.n += 1
        SIM.clock.advance(self.spec.get("dt", 0.0))
        if self.hook is not None:
            self.hook(self.n)
        if SIM.sched is not None and SIM.sched.managed():
            SIM.sched.point()
        return self.spec.get(str(self.n)) if self.enabled else None

    def apply(self, action, value):
        if action is None:
            return value
        kind = action[0]
        if kind == "raise":
            SIM.fired(f"{self.name}.raise.{action[1]}")
            raise EXCS[action[1]](f"injected at call {self.n}")
        SIM.fired(f"{self.name}.{kind}")
        if kind == "nan":
            return value * np.nan
        if kind == "inf":
            return value * 0.0 + np.inf
        if kind == "ninf":
            return value * 0.0 - np.inf
        if kind == "zero":
            return value * 0.0
        if kind == "scale":
            return value * action[1]
        if kind == "neg":
            return -value
        raise ValueError(kind)


class FaultGrid:
    """A user's own grid class around another grid: `points` and `integrate`."""

    def __init__(self, base, script):
        self.base = base
        self.script = Script(script, "integrate")

    @property
    def points(self):
        return self.base.points

    def __len__(self):
        return len(self.base.points)

    def integrate(self, arr):
        action = self.script.before()
        if action is not None and action[0] == "raise":
            self.script.apply(action, None)
        return self.script.apply(action, self.base.integrate(arr))


class TrapzGrid:
    """A user's own grid: trapezoidal rule on arbitrary sorted radial points."""

    def __init__(self, points):
        self.points = points

    def integrate(self, arr):
        return np.sum((arr[1:] + arr[:-1]) * np.diff(self.points)) / 2.0


class WeightGrid:
    """A user's own grid: points with weights of their own."""

    def __init__(self, points, weights):
        self.points = points
        self.weights = weights

    def integrate(self, arr):
        return np.sum(self.weights * arr)


def fault_measure(base, script):
    """A user's own measure (a subclass, as `ScipyFit` asks for)."""
    from bfit.measure import Measure

    class FaultMeasure(Measure):
        def __init__(self):
            super().__init__()
            self.base = base
            self.script = Script(script, "measure")

        def evaluate(self, density, model, deriv=False):
            action = self.script.before()
            if action is not None and action[0] == "raise":
                self.script.apply(action, None)
            return self.base.evaluate(density, model, deriv)

    return FaultMeasure()


class RecordingModel:
    """A user's model around another: records nothing but may raise."""

    def __init__(self, base, script):
        self.base = base
        self.script = Script(script, "model")

    def __getattr__(self, name):
        if name.startswith("__") or name in ("base", "script"):
            raise AttributeError(name)
        return getattr(self.base, name)

    def evaluate(self, coeffs, expons, deriv=False):
        action = self.script.before()
        if action is not None and action[0] == "raise":
            self.script.apply(action, None)
        return self.base.evaluate(coeffs, expons, deriv)


# --------------------------------------------------------------------------------------------
# canonical results
# --------------------------------------------------------------------------------------------
IGNORED_KEYS = ("time",)


def canon(value, depth=0):
    """Plain, picklable, comparable form of a result (copies every array)."""
    if depth > 8:
        return ("deep", type(value).__name__)
    if isinstance(value, np.ma.MaskedArray):
        return ("ma", canon(np.ma.getdata(value)), canon(np.ma.getmaskarray(value)))
    if isinstance(value, np.ndarray):
        return ("arr", str(value.dtype), value.shape, np.array(value, copy=True))
    if isinstance(value, (np.generic,)):
        return ("num", value.item() if value.dtype.kind != "f" else np.array(value))
    if isinstance(value, bool) or value is None or isinstance(value, (str, bytes)):
        return value
    if isinstance(value, (int, float, complex)):
        return ("num", value)
    if isinstance(value, dict):
        return ("dict", {str(k): canon(v, depth + 1) for k, v in value.items()
                         if k not in IGNORED_KEYS})
    if isinstance(value, (list, tuple)):
        return ("seq", [canon(v, depth + 1) for v in value])
    if isinstance(value, (set, frozenset)):
        return ("set", sorted(str(v) for v in value))
    if hasattr(value, "points"):
        return ("obj", type(value).__name__, canon(np.asarray(value.points)))
    return ("obj", type(value).__name__)


def _num_equal(a, b, rtol, atol):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
        return bool(np.array_equal(a, b))
    if a.size == 0:
        return True
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not fa.all():
        if not np.array_equal(np.isnan(a), np.isnan(b)):
            return False
        inf = ~fa & ~np.isnan(a)
        if not np.array_equal(a[inf], b[inf]):
            return False
    a, b = a[fa], b[fb]
    if a.size == 0:
        return True
    if a.dtype.kind == "b" or b.dtype.kind == "b":
        return bool(np.array_equal(a, b))
    a = np.asarray(a, dtype=np.result_type(a, np.float64))
    b = np.asarray(b, dtype=np.result_type(b, np.float64))
    scale = np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(np.abs(a - b) <= atol * max(1.0, float(scale.max())) * 1e-3
                       + rtol * scale + 1e-300))


_NUMBER = re.compile(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?")


def same(a, b, rtol=1e-10, atol=1e-14):
    """Whether two canonical results agree. Returns None or a description of the difference."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] != b[0]:
            return f"kind {a[0]} != {b[0]}"
        tag = a[0]
        if tag == "arr":
            if a[1] != b[1]:
                return f"dtype {a[1]} != {b[1]}"
            if a[2] != b[2]:
                return f"shape {a[2]} != {b[2]}"
            if not _num_equal(a[3], b[3], rtol, atol):
                return f"array {summary(a[3])} != {summary(b[3])}"
            return None
        if tag == "num":
            if not _num_equal(a[1], b[1], rtol, atol):
                return f"value {a[1]!r} != {b[1]!r}"
            return None
        if tag == "dict":
            if set(a[1]) != set(b[1]):
                return f"keys {sorted(a[1])} != {sorted(b[1])}"
            for key in a[1]:
                diff = same(a[1][key], b[1][key], rtol, atol)
                if diff:
                    return f"[{key}] {diff}"
            return None
        if tag == "seq":
            if len(a[1]) != len(b[1]):
                return f"length {len(a[1])} != {len(b[1])}"
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                diff = same(x, y, rtol, atol)
                if diff:
                    return f"[{i}] {diff}"
            return None
        if tag in ("ma", "obj"):
            if len(a) != len(b):
                return "structure"
            for x, y in zip(a[1:], b[1:]):
                diff = same(x, y, rtol, atol)
                if diff:
                    return diff
            return None
        if tag == "exc":
            # the type decides; messages may hold numbers formatted from the data
            if a[1] != b[1]:
                return f"exception {a[1]}({a[2]!r}) != {b[1]}({b[2]!r})"
            return None
    if isinstance(a, str) and isinstance(b, str) and a != b:
        # messages may hold numbers, formatted in one way or another
        words = [_NUMBER.split(x) for x in (a, b)]
        numbers = [[float(n) for n in _NUMBER.findall(x)] for x in (a, b)]
        if words[0] == words[1] and np.allclose(*numbers, rtol=rtol, atol=atol):
            return None
    if type(a) is type(b) and not isinstance(a, tuple):
        return None if a == b else f"{a!r} != {b!r}"
    if a == b:
        return None
    return f"{summary(a)} != {summary(b)}"


def summary(x):
    if isinstance(x, np.ndarray):
        flat = np.ravel(x)
        body = ", ".join(f"{v!r}" if isinstance(v, str) else f"{float(v):.17g}"
                         if x.dtype.kind in "fiub" else str(v) for v in flat[:6])
        return f"[{body}{', ...' if flat.size > 6 else ''}]"
    text = repr(x)
    return text if len(text) < 200 else text[:200] + "..."


def exc_canon(exc):
    return ("exc", type(exc).__name__, str(exc)[:200])


def digest_canon(value, out):
    """Feed a canonical value to a hash object, exactly (bit for bit)."""
    if isinstance(value, tuple) and value and value[0] == "arr":
        out.update(repr((value[1], value[2])).encode())
        arr = value[3]
        out.update(arr_bytes(arr))
    elif isinstance(value, (tuple, list)):
        out.update(b"(")
        for item in value:
            digest_canon(item, out)
        out.update(b")")
    elif isinstance(value, dict):
        for key in sorted(value):
            out.update(str(key).encode())
            digest_canon(value[key], out)
    elif isinstance(value, np.ndarray):
        out.update(arr_bytes(value))
    else:
        out.update(repr(value).encode())


def array_state(arr):
    """Everything of an array that its owner would notice."""
    return (str(arr.dtype), arr.shape, arr.strides, bool(arr.flags.writeable), arr_bytes(arr))


def arr_bytes(arr):
    """Bytes of an array without the padding of long doubles."""
    arr = np.asarray(arr)
    if arr.dtype == np.longdouble and arr.dtype.itemsize == 16:
        flat = np.ascontiguousarray(arr).reshape(-1).view(np.uint8).reshape(-1, 16)
        return flat[:, :10].tobytes()
    if arr.dtype.kind == "O":
        return repr(arr.tolist()).encode()
    return np.ascontiguousarray(arr).tobytes()


# --------------------------------------------------------------------------------------------
# objects
# --------------------------------------------------------------------------------------------
def arr(spec):
    """Array from JSON: a list, or {"v": list, "dt": dtype, "lay": layout}."""
    if isinstance(spec, dict):
        return laid_out(np.array(spec["v"], dtype=spec.get("dt", "f8")), spec.get("lay"))
    return np.array(spec, dtype=float)


def laid_out(value, lay):
    """The same values in another memory layout, and not always in memory of their own."""
    if value.ndim == 0 or not value.size:
        return value
    if lay == "strided":
        big = np.zeros((2 * len(value) + 1,) + value.shape[1:], dtype=value.dtype)
        big[1::2][:len(value)] = value
        return big[1::2][:len(value)]
    if lay == "reversed":
        return value[::-1].copy()[::-1]
    if lay == "view":
        big = np.zeros((len(value) + 2,) + value.shape[1:], dtype=value.dtype)
        big[1:-1] = value
        return big[1:-1]
    if lay == "fortran":
        return np.asfortranarray(value)
    return value


def density_values(spec, world, grid):
    """A positive density on the points of a grid, from the harness' own formula."""
    points = np.asarray(grid.points)
    kind = spec["k"]
    if kind == "slater":
        atom = world.obj(spec["o"])
        return atom.atomic_density(points, spec.get("mode", "total"))
    if points.ndim > 1:
        total = np.zeros(len(points))
        for term in spec["terms"]:
            r2 = np.sum((points - np.array(term["x"])) ** 2, axis=1)
            total = total + _term(term, r2)
        if "cut" in spec:
            r2 = np.sum(points ** 2, axis=1)
            total[r2 > np.quantile(r2, spec["cut"])] = 0.0
        return np.ascontiguousarray(total)
    total = np.zeros(len(points), dtype=points.dtype)
    for term in spec["terms"]:
        r2 = (points - term.get("x0", 0.0)) ** 2
        total = total + _term(term, r2)
    if "cut" in spec:
        total[points > points[int(spec["cut"] * (len(points) - 1))]] = 0.0
    if spec.get("dt"):
        total = total.astype(spec["dt"])
    return total


def _term(term, r2):
    if term["t"] == "g":
        return term["c"] * np.exp(-term["a"] * r2)
    if term["t"] == "p":
        return term["c"] * r2 * np.exp(-term["a"] * r2)
    if term["t"] == "e":
        return term["c"] * np.exp(-term["a"] * np.sqrt(r2))
    raise ValueError(term["t"])


class World:
    """A pool of live objects built from the `objs` of a scenario."""

    def __init__(self, specs, scripts=None, only=None, wrap=False, caller="keeps"):
        self.specs = specs
        # what the caller does with the arrays it hands over: "keeps" them, "forgets" them (the
        # memory may be used again), or uses the same "buffers" for the arguments of every call
        self.caller = caller
        self.buffers = {}
        self.scripts = scripts or {}
        # with `wrap`, every grid, measure and model is a user's plugin around the real one
        self.wrap = {kind: Script({}, kind) for kind in ("integrate", "measure", "model")} \
            if wrap else None
        self.pool = {}
        self.inputs = []        # (label, object handed to bfit, snapshot)
        self.results = []
        for i in (range(len(specs)) if only is None else only):
            self.obj(i)

    # -- inputs handed over by the "user" -----------------------------------------------------
    def give(self, label, value):
        """Register an array or list that is handed to bfit."""
        if self.caller != "keeps":
            return value
        if isinstance(value, np.ndarray):
            self.inputs.append((label, value, array_state(value)))
        elif isinstance(value, list):
            self.inputs.append((label, value, copy.deepcopy(value)))
        return value

    def damaged_inputs(self):
        """Labels of the inputs that no longer have the value they were handed over with."""
        out = []
        for label, value, snap in self.inputs:
            if isinstance(value, np.ndarray):
                now = array_state(value)
            else:
                now = value
            if now != snap:
                out.append(label)
        return out

    def obj(self, i):
        if i not in self.pool:
            obj = self.build(self.specs[i], i)
            if self.wrap:
                kind = self.specs[i]["k"]
                if kind in ("uni", "clen", "cube", "cubemol", "trapz", "wgrid"):
                    obj = FaultGrid(obj, None)
                    obj.script = self.wrap["integrate"]
                elif kind in ("sd", "kl", "ts"):
                    obj = fault_measure(obj, None)
                    obj.script = self.wrap["measure"]
                elif kind in ("atom", "mol"):
                    obj = RecordingModel(obj, None)
                    obj.script = self.wrap["model"]
            self.pool[i] = obj
        return self.pool[i]

    def script(self, i, spec):
        return self.scripts.get(str(i), spec.get("script"))

    def build(self, spec, i=None):
        from bfit import density, fit, greedy, grid, measure, model
        kind = spec["k"]
        tag = f"{kind}#{i}"
        if kind == "unused":
            return None
        if kind == "uni":
            return grid.UniformRadialGrid(spec["n"], spec["min"], spec["max"],
                                          **({"dtype": np.dtype(spec["dt"]).type}
                                             if "dt" in spec else {}))
        if kind == "clen":
            kw = {}
            if "dt" in spec:
                kw["dtype"] = np.dtype(spec["dt"]).type
            ext = spec.get("ext")
            if ext is not None:
                ext = self.give(tag + ".extra_pts", list(ext))
            return grid.ClenshawRadialGrid(spec["Z"], spec["nc"], spec["nd"], ext,
                                           spec.get("org", True), **kw)
        if kind == "cube":
            return grid.CubicGrid(self.give(tag + ".origin", arr(spec["o"])),
                                  self.give(tag + ".axes", arr(spec["ax"])), tuple(spec["sh"]))
        if kind == "cubemol":
            return grid.CubicGrid.from_molecule(
                self.give(tag + ".nums", arr(spec["nums"])),
                self.give(tag + ".xyz", arr(spec["xyz"])),
                spec["sp"], spec["ex"], spec["rot"])
        if kind == "trapz":
            return TrapzGrid(self.give(tag + ".points", arr(spec["pts"])))
        if kind == "wgrid":
            return WeightGrid(self.give(tag + ".points", arr(spec["pts"])),
                              self.give(tag + ".weights", arr(spec["wts"])))
        if kind == "fgrid":
            return FaultGrid(self.obj(spec["base"]), self.script(i, spec))
        if kind == "dens":
            value = density_values(spec["d"], self, self.obj(spec["grid"]))
            return self.give(tag, laid_out(value, spec["d"].get("lay")))
        if kind == "array":
            return self.give(tag, arr(spec["v"]))
        if kind == "gpoints":
            # the points of a grid, as handed out by the grid
            return self.give(tag, self.obj(spec["grid"]).points)
        if kind == "atom":
            points = self.obj(spec["pts"])
            points = points if isinstance(points, np.ndarray) else self.give(
                tag + ".points", points.points)
            ctr = spec.get("ctr")
            return model.AtomicGaussianDensity(
                points, None if ctr is None else self.give(tag + ".center", arr(ctr)),
                spec["s"], spec["p"], spec["norm"])
        if kind == "mol":
            points = self.obj(spec["pts"])
            points = points if isinstance(points, np.ndarray) else self.give(
                tag + ".points", points.points)
            return model.MolecularGaussianDensity(
                points, self.give(tag + ".coords", arr(spec["xyz"])),
                self.give(tag + ".basis", np.array(spec["basis"], dtype=int)), spec["norm"])
        if kind == "fmodel":
            return RecordingModel(self.obj(spec["base"]), self.script(i, spec))
        if kind == "sd":
            return measure.SquaredDifference()
        if kind == "kl":
            return measure.KLDivergence(spec.get("mask", 1e-12), spec.get("neg", 100000.0))
        if kind == "ts":
            return measure.TsallisDivergence(spec["al"], spec.get("mask", 1e-12))
        if kind == "fmeas":
            return fault_measure(self.obj(spec["base"]), self.script(i, spec))
        if kind == "fpi":
            return fit.KLDivergenceFPI(self.obj(spec["grid"]), self.obj(spec["dens"]),
                                       self.obj(spec["model"]), spec.get("mask", 0.0),
                                       spec.get("N"), spec.get("sph", False))
        if kind == "sci":
            w = spec.get("w")
            weights = None if w is None else self.obj(w)
            return fit.ScipyFit(self.obj(spec["grid"]), self.obj(spec["dens"]),
                                self.obj(spec["model"]), self.obj(spec["meas"]),
                                spec.get("method", "SLSQP"), weights, spec.get("N"),
                                spec.get("sph", False), spec.get("mask", 1e-18))
        if kind == "gls":
            return greedy.GreedyLeastSquares(self.obj(spec["grid"]), self.obj(spec["dens"]),
                                             spec.get("choice", "pick-one"), **spec.get("kw", {}))
        if kind == "gkl":
            return greedy.GreedyKLFPI(self.obj(spec["grid"]), self.obj(spec["dens"]),
                                      spec.get("choice", "pick-one"), **spec.get("kw", {}))
        if kind == "slater":
            return density.SlaterAtoms(spec["el"], spec.get("an", False), spec.get("cat", False))
        raise ValueError(kind)

    # -- calls ---------------------------------------------------------------------------------
    def arg(self, label, value):
        """An argument: {"o": i} is an object, {"v": ...} or a list is a fresh array."""
        if isinstance(value, dict) and "o" in value:
            value = self.obj(value["o"])
            if self.caller == "buffers" and isinstance(value, np.ndarray):
                return self.buffered(label, np.array(value))
            return value
        if isinstance(value, dict) and "pts" in value:
            return self.obj(value["pts"]).points
        if isinstance(value, dict) and "str" in value:
            return value["str"]
        if isinstance(value, (list, dict)):
            value = arr(value)
            if self.caller == "buffers" and value.flags.c_contiguous:
                return self.buffered(label, value)
            return self.give(label, value)
        return value

    def buffered(self, label, value):
        """The values in the caller's only array of this kind, used for every call."""
        key = (label.rpartition(".")[2], str(value.dtype), value.shape)
        buffer = self.buffers.setdefault(key, value)
        buffer[...] = value
        return buffer

    def call(self, spec):
        """Run one call of the public API; the raw result."""
        from bfit import _slater, greedy, parse_ugbs
        func = spec["f"]
        args = [self.arg(f"{func}.arg{j}", a) for j, a in enumerate(spec.get("a", []))]
        kw = {k: self.arg(f"{func}.{k}", v) for k, v in spec.get("kw", {}).items()}
        if func == "load_slater":
            return _slater.load_slater_wfn(*args, **kw)
        if func == "ugbs":
            return parse_ugbs.get_ugbs_exponents(*args)
        if func == "build":
            # construct a new object next to the existing ones
            obj = self.build(spec["spec"], "new")
            if "then" in spec:
                return self._method(obj, spec["then"], spec.get("ta", []), spec.get("tkw", {}))
            return obj
        if func == "helper":
            return getattr(greedy, spec["name"])(*args, **kw)
        target = self.obj(spec["o"])
        if func == "prop":
            while "base" in vars(target) and "script" in vars(target):
                target = target.base
            return [getattr(target, name) for name in spec["names"]]
        return getattr(target, func)(*args, **kw)

    def _method(self, obj, name, args, kwargs):
        args = [self.arg(f"new.{name}.arg{j}", a) for j, a in enumerate(args)]
        kwargs = {k: self.arg(f"new.{name}.{k}", v) for k, v in kwargs.items()}
        return getattr(obj, name)(*args, **kwargs)

    def try_call(self, spec, raw=None):
        """Canonical result of a call, or its exception."""
        try:
            value = self.call(spec)
        except Exception as exc:       # pylint: disable=broad-except
            return exc_canon(exc)
        if raw is not None:
            raw.append(value)
        return canon(value)


def quiet():
    """Warnings are part of the output, not printed."""
    warnings.simplefilter("ignore")


def is_finite(x):
    try:
        return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))
    except (TypeError, ValueError):
        return False


def isclose(a, b, rtol, atol=0.0):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
