"""The harness' own formulas: Gaussian models, quadrature weights, objectives."""
import numpy as np


def base_spec(specs, i):
    spec = specs[i]
    while spec["k"] in ("fmodel", "fgrid"):
        spec = specs[spec["base"]]
    return spec


def centers(spec, dim):
    """[(centre, number of s, number of p)] of a model."""
    if spec["k"] == "atom":
        ctr = spec.get("ctr")
        ctr = np.zeros(dim) if ctr is None else np.array(ctr, dtype=float)
        return [(ctr, spec["s"], spec["p"])]
    return [(np.array(x, dtype=float), s, p) for x, (s, p) in zip(spec["xyz"], spec["basis"])]


def basis_values(spec, points, expons):
    """Values of every basis function: (points, functions), and the squared radii used."""
    points = np.asarray(points, dtype=np.longdouble)
    dim = 1 if points.ndim == 1 else points.shape[1]
    coords = points.reshape(len(points), dim)
    out, radii = [], []
    k = 0
    for ctr, ns, npp in centers(spec, dim):
        r2 = np.sum((coords - ctr) ** 2, axis=1)
        for j in range(ns + npp):
            a = np.longdouble(expons[k])
            g = np.exp(-a * r2)
            if j >= ns:
                g = g * r2
                if spec["norm"]:
                    g = g * (2.0 / 3.0) * a ** 2.5 / np.longdouble(np.pi) ** 1.5
            elif spec["norm"]:
                g = g * (a / np.longdouble(np.pi)) ** 1.5
            out.append(g)
            radii.append(r2)
            k += 1
    return np.array(out).T, radii


def model_values(spec, points, coeffs, expons):
    vals, _ = basis_values(spec, points, expons)
    return vals @ np.asarray(coeffs, dtype=np.longdouble)


def weights(grid, spherical):
    """Quadrature weights of a grid (linear functionals only), incl. 4 pi r^2 if spherical."""
    n = len(grid.points)
    out = np.zeros(n, dtype=np.longdouble)
    unit = np.zeros(n)
    for i in range(n):
        unit[i] = 1.0
        out[i] = grid.integrate(unit)
        unit[i] = 0.0
    if spherical:
        out = out * 4.0 * np.longdouble(np.pi) * np.asarray(grid.points, dtype=np.longdouble) ** 2
    return out


def kl(w, f, m):
    f = np.asarray(f, dtype=np.longdouble)
    with np.errstate(all="ignore"):
        return float(np.sum(w * f * np.log(f / m)))
