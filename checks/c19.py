"""C19: B-spline basis functions against scipy and their defining properties."""
import numpy as np
from scipy.interpolate import BSpline

RULE = ("one case = one basis value or one sum over all basis functions at one point; key = (observation, degree, point class, knot kind).  Oracle: scipy's basis_element "
        "(independent implementation), exact zeros outside the support, partition of unity, signs.  Non-trivial: random irregular knots, the same points with some knots moved, points at knots, beside knots, outside.")
ASSUMPTIONS = ["strictly increasing knots", "at knots the degree-0 function may take either side, as long as exactly one of them is one"]
REQUIRED = ["value|p0", "value|p1", "value|p2", "value|p3", "value|p4", "value|p5", "sum|", "support|", "knot", "outside", "interior", "moved knots", "B0|"]


def tasks(tier, seed):
    q = tier == "quick"
    return [dict(name="basis-p%d-%d" % (p, i), p=p, reps=(60 if p < 4 else 25) if q else (500 if p < 4 else 200)) for p in range(6) for i in range(1 if q else 4)]


def run(spec, mon):
    from interpolation.splines import basis_splines as M
    p = spec["p"]
    rng = mon.rng()
    prev = None
    for r in range(spec["reps"]):
        m = p + 2 + int(rng.integers(0, 9))
        kind = ["irregular", "uniform", "int", "tiny", "far"][r % 5]
        u = np.cumsum(np.exp(rng.uniform(-2, 2, m)))
        if kind == "uniform":
            u = np.linspace(-2, 3, m)
        elif kind == "int":
            u = np.cumsum(rng.integers(1, 5, m)).astype(float) - 7
        elif kind == "tiny":
            u = u * 1e-6
        elif kind == "far":
            u = u + 1000.0
        again = r % 3 == 1 and prev is not None and kind != "int"
        if again:  # the knots of the previous round, some of them moved; the same points
            u, xs = prev[0].copy(), prev[1]
            m = len(u)
            s = np.diff(u)
            for j in rng.choice(m, max(1, m // 3), replace=False):
                u[j] += rng.uniform(-0.4, 0.4) * min(s[j - 1] if j else s[0], s[j] if j < m - 1 else s[-1])
            if not np.all(np.diff(u) > 0):
                continue
            mon.cover("moved knots|p%d" % p)
        nb = m - p - 1
        xs = [(float(x), "interior") for x in rng.uniform(u[0], u[-1], 6)] + [(float(u[rng.integers(m)]), "knot") for _ in range(4)] + [(float(u[0]), "knot"), (float(u[-1]), "knot")]
        j = int(rng.integers(m - 1))
        xs += [(float(u[j] + 1e-6 * (u[j + 1] - u[j])), "beside"), (float(u[j + 1] - 1e-6 * (u[j + 1] - u[j])), "beside"), (float(u[0] - (u[-1] - u[0]) * rng.uniform(0.01, 2)), "outside"),
               (float(u[-1] + (u[-1] - u[0]) * rng.uniform(0.01, 2)), "outside")]
        if again:
            xs = [(x, "knot" if x in u else "outside" if not u[0] <= x <= u[-1] else "interior") for x, _ in prev[1]]
        prev = u, xs
        uu = u if r % 3 else u.tolist()
        h = np.diff(u).min()
        tol = 1e-11 + 256 * np.finfo(float).eps * np.abs(u).max() / h
        mon.sample(degree=p, knots=m, kind=kind)
        for x, cls in xs:
            tot = 0.0
            for i in range(nb):
                v = mon.do("B", M.B, p, uu, i, x)
                kk = "|p%d|%s|%s" % (p, cls, kind)
                v = float(v)
                tot += v
                t = u[i:i + p + 2]
                mon.true("nonnegative", v >= -tol, "B(%d, u, %d, %r) = %r" % (p, i, x, v), key="sign" + kk)
                if x < t[0] or x > t[-1]:
                    mon.true("zero outside its knots", v == 0.0, "B(%d, u, %d, %r) = %r, support %r" % (p, i, x, v, (t[0], t[-1])), key="support" + kk)
                elif p > 0 or cls != "knot":
                    w = BSpline.basis_element(t, extrapolate=False)(x)
                    w = 0.0 if not np.isfinite(w) else float(w)
                    if p == 0:
                        w = 1.0
                    mon.close("standard B-spline", v, w, tol, key="value" + kk)
                else:
                    mon.true("zero or one at knots", v in (0.0, 1.0), repr(v), key="value" + kk)
                    if p == 0:
                        mon.close("B0", mon.do("B0", M.B0, uu, i, x), v, 0, key="B0" + kk)
            # full set of p+1 functions: u[p] <= x < u[m-p-1]
            if nb >= p + 1 and u[p] <= x < u[m - p - 1]:
                mon.close("sum to one", tot, 1.0, tol * (p + 1), key="sum|p%d|%s|%s" % (p, cls, kind))
