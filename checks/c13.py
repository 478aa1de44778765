"""C13: cubic Hermite interpolation against the Newton form of the Hermite cubic in extended precision."""
import numpy as np
from mon import gen, ref
from mon.common import nclass

L = np.longdouble
RULE = ("one case = one oracle-checked result; key = (entry point, number of abscissas class, spacing, point class).  Oracle: confluent divided differences of "
        "the two end values and slopes (extended precision), constant outside.  Non-trivial: random values and slopes of different magnitudes, points at nodes, "
        "bounds, interior, just beside nodes and far outside.")
ASSUMPTIONS = ["strictly increasing finite abscissas, finite values and slopes", "agreement up to rounding"]
REQUIRED = ["scalar|", "vect|", "jit scalar|", "jit vector|", "jit matrix|", "local|", "basis|", "|node", "|in", "|below", "|above", "|lo", "|hi", "|n2|", "slopes|", "cubics|", "integers|", "one cell|"]


def tasks(tier, seed):
    q = tier == "quick"
    return [dict(name="hermite-%d" % i, i=i, reps=400 if q else 3000, cost=1) for i in range(4 if q else 8)] + \
           [dict(name="hermite-nojit-%d" % i, i=i, env="nojit", reps=60 if q else 1000, cost=1) for i in range(1 if q else 2)]


def model(x, y, yp, P):
    x, y, yp = (np.asarray(v).astype(L) for v in (x, y, yp))
    P = np.asarray(P, dtype=float).astype(L)
    i = np.clip(np.searchsorted(x, P, side="right") - 1, 0, len(x) - 2)
    h = x[i + 1] - x[i]
    s = P - x[i]
    dd = (y[i + 1] - y[i]) / h
    c2 = (dd - yp[i]) / h
    c3 = (yp[i + 1] - 2 * dd + yp[i]) / (h * h)
    v = y[i] + s * (yp[i] + s * (c2 + (P - x[i + 1]) * c3))
    v = np.where(P <= x[0], y[0], np.where(P >= x[-1], y[-1], v))
    sc = (np.abs(y[i]) + np.abs(y[i + 1]) + h * (np.abs(yp[i]) + np.abs(yp[i + 1]))).astype(float)
    # neighbouring cells matter for points rounded onto a node
    rel = 1e-12 + 64 * ref.EPS * np.max(np.abs(x).astype(float)) / h.astype(float)
    return v.astype(float), sc * rel + 1e-300


def run(spec, mon):
    from interpolation.splines import hermite as H
    rng = mon.rng()
    jit = spec["env"] != "nojit"
    if jit:
        from numba import njit

        @njit
        def js(x0, x, y, yp):
            return H_hermite(x0, x, y, yp)
        H_hermite = H.hermite
    for r in range(spec["reps"]):
        n = int([2, 2, 3, 4, 5, 9, 17, 50, 200][rng.integers(9)])
        if r % 40 == 6:
            n = 4000
        x = gen.grid1d(rng, "n", n)
        sp = "irregular"
        if rng.random() < 0.2:
            x = np.linspace(x[0], x[-1], n)
            sp = "regular"
        h = np.diff(x)
        y = gen.values(rng, (n,))
        yp = rng.standard_normal(n) * (np.abs(y).max() + 1e-12) / h.mean() * float(10.0 ** rng.uniform(-1, 1))
        if r % 7 == 3:  # integer data
            x = np.cumsum(rng.integers(1, 5, n)).astype(float)
            y, yp = rng.integers(-9, 9, n).astype(float), rng.integers(-9, 9, n).astype(float)
            h = np.diff(x)
        N = [30, 1, 100, 0][rng.integers(4)] if r % 60 != 9 else 20000
        if N > 1000 and n > 50:
            N = 2000
        P, lab = gen.points(rng, (x,), N, "any")
        P = P[:, 0].copy()
        lab = [c[0] for c in lab]
        w, t = model(x, y, yp, P)
        xs, ys, yps = x, y, yp
        if r % 4 == 1:
            lay = ["A", "CR"][(r // 4) % 2]
            if r < 40:
                xs, ys, yps = gen.layout(x, lay), gen.layout(y, lay), gen.layout(yp, lay)
        kk = "|n%s|%s" % ("2" if n == 2 else "many", sp)
        ctx = lambda i: "x0=%r between %r" % (float(P[i[0]]) if i else None, (float(x[0]), float(x[-1])))
        mon.sample(n=n, N=N, spacing=sp, classes=lab[:4])
        got = mon.do("HermiteInterpolationVect", H.HermiteInterpolationVect, P, xs, ys, yps)
        mon.close("HermiteInterpolationVect", got, w, t, key="vect" + kk, ctx=ctx)
        for j in range(min(N, 12)):
            p = float(P[j])
            mon.close("HermiteInterpolation", mon.do("HermiteInterpolation", H.HermiteInterpolation, p, xs, ys, yps), w[j], t[j], key="scalar%s|%s" % (kk, lab[j]))
        if r % 7 == 3 and N:  # points and data of integer type
            Pi = np.round(np.clip(P, x[0] - 9, x[-1] + 9)).astype(np.int64)
            wi, ti = model(x, y, yp, Pi)
            mon.close("HermiteInterpolationVect at integers", mon.do("HermiteInterpolationVect at integers", H.HermiteInterpolationVect, Pi, xs, ys, yps), wi, ti, key="integers|points" + kk)
            mon.close("HermiteInterpolationVect of integer data", mon.do("HermiteInterpolationVect of integer data", H.HermiteInterpolationVect, Pi, *[v.astype(np.int64) for v in (x, y, yp)]), wi, ti, key="integers|all" + kk)
        # every abscissa gives its value
        got = mon.do("HermiteInterpolationVect at the abscissas", H.HermiteInterpolationVect, x.copy(), xs, ys, yps)
        mon.close("value at the abscissas", got, y, model(x, y, yp, x)[1], key="vect nodes" + kk)
        # slopes seen from both sides at interior nodes (exact for a cubic: 4-point fit inside one cell)
        j = int(rng.integers(n - 1))
        u = np.array([0.15, 0.4, 0.6, 0.85])
        q = x[j] + u * h[j]
        if np.all(np.diff(q) > 0) and h[j] > 1e-9 * np.abs(x).max():
            v = np.asarray(mon.do("HermiteInterpolationVect in one cell", H.HermiteInterpolationVect, q, xs, ys, yps))
            uu = (q - x[j]) / h[j]
            c = np.linalg.solve(np.vander(uu, 4, increasing=True), v)
            sc = (abs(y[j]) + abs(y[j + 1]) + h[j] * (abs(yp[j]) + abs(yp[j + 1]))) * (1e-9 + 1e5 * ref.EPS * np.abs(x).max() / h[j]) + 1e-300
            mon.close("values and slopes at both ends of a cell", [c[0], c[1], c.sum(), c @ np.arange(4)], [y[j], yp[j] * h[j], y[j + 1], yp[j + 1] * h[j]], sc, key="slopes" + kk)
        if r % 3 == 0:  # nothing but the two ends of the cell is used
            yb, yz = gen.spoil(rng, rng.standard_normal(n), (slice(j, j + 2),))
            pb, pz = gen.spoil(rng, rng.standard_normal(n), (slice(j, j + 2),))
            Q = x[j] + rng.uniform(0.03, 0.97, 5) * h[j]
            mon.close("uses the two ends of the cell only", mon.do("HermiteInterpolationVect (one cell)", H.HermiteInterpolationVect, Q, x, yb, pb), *model(x, yz, pz, Q), key="one cell" + kk)
        # cubic data are reproduced
        co = rng.standard_normal(4)
        z = (x - x[0]) / (x[-1] - x[0])
        yc, ypc = np.polynomial.polynomial.polyval(z, co), np.polynomial.polynomial.polyval(z, np.polynomial.polynomial.polyder(co)) / (x[-1] - x[0])
        Q = rng.uniform(x[0], x[-1], 20)
        mon.close("cubic polynomials reproduced", mon.do("HermiteInterpolationVect", H.HermiteInterpolationVect, Q, x, yc, ypc),
                  np.polynomial.polynomial.polyval((Q - x[0]) / (x[-1] - x[0]), co), 1e-9 + 1e4 * ref.EPS * np.abs(x).max() / h.min(), key="cubics" + kk)
        # the local formula and basis polynomials
        if hasattr(H, "hermite_interp"):
            p = float(x[j] + rng.uniform(0, 1) * h[j])
            mon.close("hermite_interp", mon.do("hermite_interp", H.hermite_interp, p, float(x[j]), float(x[j + 1]), float(y[j]), float(y[j + 1]), float(yp[j]), float(yp[j + 1])),
                      *[v[0] for v in model(x[j:j + 2], y[j:j + 2], yp[j:j + 2], [p])], key="local" + kk)
        if hasattr(H, "hermite_splines"):
            s = float(rng.uniform(0, 1)) if r % 3 else float([0.0, 1.0, 0.5][r % 9 // 3])
            want = [(1 + 2 * s) * (1 - s) ** 2, s * (1 - s) ** 2, s * s * (3 - 2 * s), s * s * (s - 1)]
            mon.close("hermite_splines", mon.do("hermite_splines", H.hermite_splines, s), want, 1e-13, key="basis|%s" % ("end" if s in (0.0, 1.0) else "in"))
        if jit:
            if N:
                mon.close("hermite in jitted code (scalar)", mon.do("jitted hermite scalar", js, float(P[0]), x, y, yp), w[0], t[0], key="jit scalar%s|%s" % (kk, lab[0]))
            mon.close("hermite in jitted code (vector)", mon.do("jitted hermite vector", js, P, x, y, yp), w, t, key="jit vector" + kk, ctx=ctx)
            mon.close("hermite in jitted code (matrix)", mon.do("jitted hermite matrix", js, P[:, None].copy(), x, y, yp), w, t, key="jit matrix" + kk, ctx=ctx)
