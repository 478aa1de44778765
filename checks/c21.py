"""C21: metamorphic monitor: units, linearity in the data, order of the axes, order and number of the points."""
import numpy as np
from mon import gen
from mon.core import ApiFailed

RULE = ("one case = one pair (or triple) of calls related by a transformation under which the result must transform in a known way; key = (entry point, transformation).  "
        "Transformations: data times a power of two, times -1, plus a constant, sum of two data sets; coordinates times a power of two, shifted by a whole number of steps, mirrored; "
        "axes permuted; points permuted, repeated, split into parts, merged into a larger batch; components permuted.  No reference model is involved.  "
        "Non-trivial: random data, points in all cells, on nodes, beside nodes and outside.")
ASSUMPTIONS = ["scalings by powers of two are exact in floating point (no overflow, no underflow)", "shifts of grids with dyadic steps are exact",
               "derivatives of linear splines are compared away from nodes where axes are mirrored (there they have two one-sided values)"]
EP = ["eval_linear", "eval_linear irregular", "eval_cubic", "derivatives", "derivatives cubic", "interp", "mlinterp", "filter_cubic", "hermite", "gradient", "CubicSpline", "LinearSplines",
      "CompletePolynomial", "Smolyak", "B", "mlinspace"]
REQUIRED = [e + "|" for e in EP] + ["|data scaled", "|negated", "|sum", "|coordinates scaled", "|shifted", "|mirrored", "|axes", "|points permuted", "|split", "|merged"]
MODES = ["constant", "nearest", "linear"]


def tasks(tier, seed):
    q = tier == "quick"
    L = []
    for d in (1, 2, 3):
        for k, kinds, c in ((1, "u", 14), (1, "n", 14), (3, "u", 24)):
            L.append(dict(name="spline-k%d%s-d%d" % (k, kinds, d), fam="spline", k=k, kinds=kinds * d, reps=(60 if q else 1500), cost=c * d))
    L.append(dict(name="spline-mixed", fam="spline", k=1, kinds="un", reps=60 if q else 1500, cost=20))
    for n, c in (("filter", 12), ("interp1", 10), ("interp2", 12), ("hermite", 5), ("gradient", 15), ("objects", 15), ("poly", 20), ("smolyak", 3), ("basis", 1), ("cart", 1)):
        L.append(dict(name=n, fam=n, reps=(40 if q else 1000), cost=c))
    return L


def pw(rng, big=True):
    return float(2.0 ** int(rng.choice([-300, -120, -40, -11, 11, 40, 120, 300] if big else [-40, -20, -5, 5, 20, 40])))


def dyadic(rng, kind, n):
    """a dimension whose nodes are small multiples of a power of two: scalings and shifts are exact"""
    h = 2.0 ** int(rng.integers(-4, 4))
    if kind == "u":
        m = n - 1
        w = 2 ** int(np.ceil(np.log2(max(m, 1))))
        a = float(rng.integers(-20, 20)) * h
        return (a, a + m * h, n) if rng.random() < 0.6 else (a, a + w * h, n)
    return (np.cumsum(rng.integers(1, 12, n)) - float(rng.integers(0, 40))) * h


def nodes(g):
    return np.linspace(g[0], g[1], g[2]) if isinstance(g, tuple) else g


def span(g):
    z = nodes(g)
    return float(z[0]), float(z[-1])


def pts(rng, grid, N):
    """dyadic points: everywhere inside, at and beside nodes, and outside"""
    P = np.empty((N, len(grid)))
    for j, g in enumerate(grid):
        a, b = span(g)
        z = nodes(g)
        w = b - a
        u = a + w * (rng.integers(-300, 1325, N) / 1024.0)
        at = rng.random(N) < 0.15
        P[:, j] = np.where(at, z[rng.integers(len(z), size=N)], u)
        be = rng.random(N) < 0.05
        P[be, j] = z[rng.integers(len(z), size=be.sum())] * (1 + 2.0 ** -30)
    return P


def inner(grid, P):
    """rows away from all nodes and bounds"""
    ok = np.ones(len(P), bool)
    for j, g in enumerate(grid):
        z = nodes(g)
        ok &= np.abs(P[:, j:j + 1] - z[None]).min(axis=1) > 1e-6 * np.diff(z).min()
    return ok


def scaled(g, s):
    return (g[0] * s, g[1] * s, g[2]) if isinstance(g, tuple) else g * s


def moved(g, s):
    return (g[0] + s, g[1] + s, g[2]) if isinstance(g, tuple) else g + s


def mirror(g):
    return (-g[1], -g[0], g[2]) if isinstance(g, tuple) else np.ascontiguousarray(-g[::-1])


def run(spec, mon):
    rng = mon.rng()
    import interpolation as I
    import interpolation.splines as S
    from interpolation.splines import extrap_options as xo
    from interpolation.splines.eval_splines import eval_spline
    OPT = dict(constant=xo.CONSTANT, nearest=xo.NEAREST, linear=xo.LINEAR)

    def check(ep, how, got, want, scale, tol=1e-11, keep=None):
        got, want = np.asarray(got), np.asarray(want)
        if keep is not None:
            got, want = got[keep], want[keep]
        return mon.close("%s: %s" % (ep, how), got, want, tol * (scale + np.zeros(want.shape)), key="%s|%s" % (ep, how))

    def relations(ep, f, grid, V, P, T=None, mirrors=True, axes=True, consts=True, big=True, tol=1e-11, order=0, kinky=False, shift=True, bigx=True, uniform=True):
        """f(grid, V, P) -> one result per point (array whose first axis is the points); order: order of derivative per
        column of the last axis is scaled by the units of the coordinates (None: plain values)"""
        d = len(grid)
        N = len(P)
        base = np.asarray(mon.do(ep, f, grid, V, P))
        # rounding is relative to the data, for derivatives: to the data over the step
        h = [np.diff(nodes(g)).min() for g in grid]
        m = np.abs(base).max(initial=0) + np.abs(V).max(initial=0) * (1 if order == 0 else max(np.prod([x ** -o for x, o in zip(h, oo)]) for oo in order))
        mon.sample(entry=ep, grid=grid, points=P[:3])
        s = pw(rng, big)
        check(ep, "data scaled", np.asarray(mon.do(ep + " (data scaled)", f, grid, V * s, P)) / s, base, m, tol)
        check(ep, "negated", -np.asarray(mon.do(ep + " (negated)", f, grid, -V, P)), base, m, tol)
        W = rng.standard_normal(V.shape) * np.abs(V).max(initial=0)
        fw = np.asarray(mon.do(ep, f, grid, W, P))
        m2 = m + np.abs(fw).max(initial=0)
        check(ep, "sum", np.asarray(mon.do(ep + " (sum)", f, grid, V + W, P)), base + fw, m2, tol)
        if consts:
            c = float(rng.integers(1, 9)) * np.abs(V).max(initial=0)
            k = np.asarray(mon.do(ep, f, grid, np.full_like(V, c), P))
            check(ep, "constant", np.asarray(mon.do(ep + " (plus a constant)", f, grid, V + c, P)), base + k, m + abs(c), tol)
        s = pw(rng, bigx)
        for how, ss in (("coordinates scaled", [s] * d), ("one coordinate scaled", [s if j == 0 else 1.0 for j in range(d)])) if d > 1 and uniform else (("coordinates scaled", [s] * d),):
            g2, P2 = tuple(scaled(g, x) for g, x in zip(grid, ss)), P * np.array(ss)
            r = np.asarray(mon.do("%s (%s)" % (ep, how), f, g2, V, P2))
            if order:
                r = r * np.array(order_units(order, ss))
            check(ep, how, r, base, m, tol)
        if shift:
            n = [float(int(x)) * 2.0 ** int(np.floor(np.log2(max(abs(span(g)[1]), abs(span(g)[0]), 1e-3)))) for x, g in zip(rng.integers(-6, 7, d), grid)]
            g2, P2 = tuple(moved(g, x) for g, x in zip(grid, n)), P + np.array(n)
            keep = None
            if kinky:
                keep = inner(grid, P)
            check(ep, "shifted", np.asarray(mon.do(ep + " (shifted)", f, g2, V, P2)), base, m, tol * 30, keep)
        if mirrors:
            for j in range(d):
                g2 = tuple(mirror(g) if i == j else g for i, g in enumerate(grid))
                P2 = P.copy()
                P2[:, j] *= -1
                r = np.asarray(mon.do(ep + " (mirrored)", f, g2, np.ascontiguousarray(np.flip(V, j)), P2))
                if order:
                    r = r * np.array([(-1.0) ** o[j] for o in order])
                check(ep, "mirrored", r, base, m, tol * 30, inner(grid, P) if kinky else None)
        if axes and d > 1:
            p = rng.permutation(d)
            if np.array_equal(p, np.arange(d)):
                p = p[::-1]
            q = list(p) + list(range(d, V.ndim))
            r = np.asarray(mon.do(ep + " (axes permuted)", f, tuple(grid[i] for i in p), np.ascontiguousarray(V.transpose(q)), np.ascontiguousarray(P[:, p]), *([p] if order else [])))
            check(ep, "axes", r, base, m, tol * 10)
        batches(ep, lambda Q: f(grid, V, Q), P, base, m, tol)

    def order_units(order, ss):
        return [np.prod([x ** o for x, o in zip(ss, oo)]) for oo in order]

    def batches(ep, f, P, base, m, tol=1e-11):
        N = len(P)
        p = rng.permutation(N)
        check(ep, "points permuted", mon.do(ep + " (points permuted)", f, np.ascontiguousarray(P[p])), base[p], m, tol)
        check(ep, "points sorted", mon.do(ep + " (points sorted)", f, np.ascontiguousarray(P[np.argsort(P[:, 0])])), base[np.argsort(P[:, 0])], m, tol)
        c = int(rng.integers(1, N)) if N > 1 else 0
        if c:
            check(ep, "split", np.concatenate([np.asarray(mon.do(ep + " (split)", f, np.ascontiguousarray(P[:c]))), np.asarray(mon.do(ep + " (split)", f, np.ascontiguousarray(P[c:])))]), base, m, tol)
        i = rng.integers(N, size=int(rng.choice([2 * N, 3 * N + 1, 129, 1000])))
        check(ep, "merged", mon.do(ep + " (merged)", f, np.ascontiguousarray(P[i])), base[i], m, tol)

    fam = spec["fam"]
    for r in range(spec["reps"]):
        try:
            one(fam, spec, mon, rng, I, S, OPT, eval_spline, relations, batches, check, r)
        except ApiFailed:
            break
    mon.note("rounds", spec["reps"])


def one(fam, spec, mon, rng, I, S, OPT, eval_spline, relations, batches, check, r):
    N = [12, 40, 3][r % 3]
    if fam == "spline":
        k, kinds = spec["k"], spec["kinds"]
        d = len(kinds)
        ns = [int(x) for x in rng.integers(2, [40, 9, 6][d - 1], d)]
        grid = tuple(dyadic(rng, c, n) for c, n in zip(kinds, ns))
        P = pts(rng, grid, N)
        vv = r % 4 == 3 and d < 3
        V = gen.values(rng, tuple(n + (k == 3) * 2 for n in ns) + ((int(rng.integers(1, 4)),) if vv else ()))
        mode = MODES[r % 3]
        ev = S.eval_cubic if k == 3 else S.eval_linear
        ep = ("eval_cubic" if k == 3 else "eval_linear") + (" irregular" if "n" in kinds else "")
        # extrapolated values may be large against the data: the scale of the comparison is the largest result
        relations(ep, lambda g, V, P: ev(g, V, P, OPT[mode]), grid, V, P)
        if r % 3 == 0 and d < 3:
            orders = [tuple(1 if i == j else 0 for i in range(d)) for j in range(d)] + ([(1, 1)] if d == 2 else [])
            V = V if not vv else np.ascontiguousarray(V[..., 0])

            def der(g, V, P, p=None):
                o = orders if p is None else [tuple(x[i] for i in p) for x in orders]
                # one fixed request, so that nothing is compiled per permutation; the columns are reordered instead
                res = np.asarray(eval_spline(g, V, P, out=None, k=k, diff=str(tuple(orders)), extrap_mode="linear"))
                return res[:, [orders.index(x) for x in o]]
            relations("derivatives" + (" cubic" if k == 3 else ""), der, grid, V, P, order=orders, consts=False, kinky=k == 1, tol=1e-10, bigx=False, big=False)
    elif fam == "filter":
        d = 1 + r % 3
        ns = [int(x) for x in rng.integers(2, [60, 12, 6][d - 1], d)]
        grid = tuple(dyadic(rng, "u", n) for n in ns)
        V = gen.values(rng, tuple(ns))
        ep = "filter_cubic"
        f = lambda V, g=grid: np.asarray(mon.do(ep, S.filter_cubic, g, V))
        base = f(V)
        m = np.abs(base).max(initial=0)
        s = pw(rng)
        check(ep, "data scaled", f(V * s) / s, base, m)
        check(ep, "negated", -f(-V), base, m)
        W = rng.standard_normal(V.shape) * np.abs(V).max()
        fw = f(W)
        check(ep, "sum", f(V + W), base + fw, m + np.abs(fw).max())
        check(ep, "constant", f(V + 3 * m), base + 3 * m, 10 * m)
        s = pw(rng)
        check(ep, "coordinates scaled", f(V, tuple(scaled(g, s) for g in grid)), base, m)
        check(ep, "shifted", f(V, tuple(moved(g, 8.0) for g in grid)), base, m)
        for j in range(d):
            check(ep, "mirrored", np.flip(f(np.ascontiguousarray(np.flip(V, j))), j), base, m)
        p = rng.permutation(d)
        check(ep, "axes", f(np.ascontiguousarray(V.transpose(p)), tuple(grid[i] for i in p)), base.transpose(p), m)
        # components: each is filtered like scalar data
        X = np.stack([V, W, V + W], -1)
        check(ep, "components permuted", f(np.ascontiguousarray(X[..., [2, 0, 1]])), f(X)[..., [2, 0, 1]], 3 * m + np.abs(fw).max())
        check(ep, "components", f(X)[..., 0], base, m)
    elif fam in ("interp1", "interp2"):
        d = int(fam[-1])
        ns = [int(x) for x in rng.integers(2, 12, d)]
        kinds = ["u" if (r // 2 + j) % 2 else "n" for j in range(d)]
        grid = tuple(dyadic(rng, c, n) for c, n in zip(kinds, ns))
        P = pts(rng, grid, N)
        V = gen.values(rng, tuple(ns))
        if r % 2:
            relations("mlinterp", lambda g, V, P: I.mlinterp(g, V, P), grid, V, P)
        elif d == 1:
            relations("interp", lambda g, V, P: I.interp(g[0], V, P[:, 0].copy()), grid, V, P)
        else:
            relations("interp", lambda g, V, P: I.interp(g[0], g[1], V, P), grid, V, P)
    elif fam == "hermite":
        from interpolation.splines import hermite as H
        n = int(rng.integers(2, 30))
        x = dyadic(rng, "n", n)
        y, yp = gen.values(rng, (n,)), gen.values(rng, (n,))
        P = pts(rng, (x,), N)[:, 0].copy()
        ep = "hermite"
        f = lambda P=P, x=x, y=y, yp=yp: np.asarray(mon.do(ep, H.HermiteInterpolationVect, P, x, y, yp))
        base = f()
        m = np.abs(y).max() + np.abs(yp).max() * np.diff(x).max()
        s = pw(rng)
        check(ep, "data scaled", f(y=y * s, yp=yp * s) / s, base, m)
        check(ep, "negated", -f(y=-y, yp=-yp), base, m)
        y2, yp2 = rng.standard_normal(n) * np.abs(y).max(), rng.standard_normal(n)
        check(ep, "sum", f(y=y + y2, yp=yp + yp2), base + f(y=y2, yp=yp2), m + np.abs(y2).max() + np.abs(yp2).max() * np.diff(x).max())
        check(ep, "constant", f(y=y + 5 * m), base + 5 * m, 10 * m)
        check(ep, "coordinates scaled", f(P=P * s, x=x * s, yp=yp / s), base, m)
        h = float(rng.integers(-20, 20)) * 2.0 ** int(np.floor(np.log2(np.abs(x).max() + 1e-9)))
        check(ep, "shifted", f(P=P + h, x=x + h), base, m, 1e-9)
        check(ep, "mirrored", f(P=-P, x=-x[::-1].copy(), y=y[::-1].copy(), yp=-yp[::-1].copy()), base, m, 1e-10)
        batches(ep, lambda Q: H.HermiteInterpolationVect(Q[:, 0].copy(), x, y, yp), P[:, None], base, m)
    elif fam == "gradient":
        from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
        d = 1 + r % 3
        ns = [int(x) for x in rng.integers(2, [30, 8, 5][d - 1], d)]
        grid = tuple(dyadic(rng, "u", n) for n in ns)
        P = pts(rng, grid, N)
        V = gen.values(rng, tuple(n + 2 for n in ns) + (2,))

        def f(g, V, P, p=None):
            a, b, n = (np.array([x[i] for x in g], dtype=t) for i, t in ((0, float), (1, float), (2, int)))
            v, dv = vec_eval_cubic_splines_G(a, b, n, np.ascontiguousarray(V), np.ascontiguousarray(P))
            dv = np.asarray(dv)  # N x d x components
            if p is not None:
                dv = dv[:, np.argsort(p), :]
            # columns: value of the first component, then its partial derivatives
            return np.concatenate([np.asarray(v)[:, :1], dv[:, :, 0]], axis=1)
        orders = [(0,) * d] + [tuple(1 if i == j else 0 for i in range(d)) for j in range(d)]
        relations("gradient", f, grid, V, P, order=orders, consts=False, tol=1e-10, bigx=False, big=False)
    elif fam == "objects":
        d = 1 + r % 2
        ns = [int(x) for x in rng.integers(2, [30, 8][d - 1], d)]
        grid = tuple(dyadic(rng, "u", n) for n in ns)
        P = pts(rng, grid, N)
        cls = ["CubicSpline", "LinearSplines", "CubicSplines", "LinearSpline"][(r // 2) % 4]
        V = gen.values(rng, tuple(ns) + ((2,) if cls.endswith("s") else ()))

        def f(g, V, P):
            return getattr(S, cls)([x[0] for x in g], [x[1] for x in g], [x[2] for x in g], V)(P)
        relations(cls, f, grid, V, P, tol=1e-10)
    elif fam == "poly":
        import interpolation.complete_poly as C
        n, dg = 1 + r % 3, [1, 2, 3, 2, 4, 5][r % 6]
        dg = min(dg, 3 if n == 3 else 5)
        m = C.n_complete(n, dg)
        s = rng.uniform(-1, 1, (3 * m + 20, n))
        x = rng.standard_normal((len(s), 2))
        x = x if r % 2 else x[:, 0].copy()
        Q = rng.uniform(-1, 1, (N, n))
        ep = "CompletePolynomial"

        def f(s=s, x=x, Q=Q, p=None):
            c = C.CompletePolynomial(n, dg)
            mon.do(ep + ".fit_values", c.fit_values, s, x)
            return np.asarray(mon.do(ep, c, Q)), np.asarray(mon.do(ep + ".der", c.der, Q, 0 if p is None else int(np.argsort(p)[0])))
        v, g = f()
        sc, sg = np.abs(v).max() + 1, np.abs(g).max() + 1

        def both(how, r, tol=1e-8, dscale=1.0):
            check(ep, how, r[0], v, sc, tol)
            check(ep, how, r[1] * dscale, g, sg, tol)
        t = pw(rng)
        a = f(x=x * t)
        both("data scaled", (a[0] / t, a[1] / t))
        a = f(x=-x)
        both("negated", (-a[0], -a[1]))
        x2 = rng.standard_normal(x.shape)
        a, b = f(x=x2), f(x=x + x2)
        both("sum", (b[0] - a[0], b[1] - a[1]))
        a = f(x=x + 4)
        both("constant", (a[0] - 4, a[1]))
        t = 2.0 ** int(rng.integers(-2, 3))
        both("coordinates scaled", f(s=s * t, Q=Q * t), dscale=t)
        both("shifted", f(s=s + 0.5, Q=Q + 0.5))
        both("mirrored", f(s=-s, Q=-Q), dscale=-1)
        p = rng.permutation(n)
        both("axes", f(s=s[:, p], Q=Q[:, p], p=p))
        i = rng.permutation(len(s))
        both("observations permuted", f(s=s[i], x=x[i]))
        both("observations doubled", f(s=np.concatenate([s, s]), x=np.concatenate([x, x])))
        c = C.CompletePolynomial(n, dg)
        c.fit_values(s, x)
        batches(ep, lambda Q: c(Q), Q, v, sc, 1e-10)
        # the basis itself
        for dd in range(6):
            z = rng.integers(-64, 64, (n, 9)) / 32.0
            B = np.asarray(mon.do("complete_polynomial", C.complete_polynomial, z, dd))
            B2 = np.asarray(mon.do("complete_polynomial", C.complete_polynomial, 2 * z, dd))
            q = B2 / np.where(B == 0, 1, B)
            deg = np.log2(np.where(B == 0, 1, np.abs(q)))
            mon.true("basis rows are homogeneous", np.all((deg == np.round(deg)) & (deg >= 0) & (deg <= dd)) and np.array_equal(B == 0, B2 == 0), "degree %d, %d variables" % (dd, n), key="complete_polynomial|coordinates scaled")
            mon.close("basis: points permuted", mon.do("complete_polynomial", C.complete_polynomial, z[:, ::-1].copy(), dd), B[:, ::-1], 1e-13 * (1 + np.abs(B).max()), key="complete_polynomial|points permuted")
            mon.close("basis: axes", np.sort(mon.do("complete_polynomial", C.complete_polynomial, z[::-1].copy(), dd), axis=0), np.sort(B, axis=0), 1e-13 * (1 + np.abs(B).max()), key="complete_polynomial|axes")
    elif fam == "smolyak":
        import interpolation.smolyak as M
        d = 2 + r % 2
        mu = int(rng.integers(1, 4)) if r % 3 else [int(x) for x in rng.integers(1, 4, d)]
        a = rng.integers(-20, 10, d) * 2.0 ** int(rng.integers(-3, 3))
        b = a + 2.0 ** rng.integers(-2, 5, d)
        ep = "Smolyak"
        sg = mon.do("SmolyakGrid", M.SmolyakGrid, d, mu, a, b)
        f0 = gen.values(rng, (len(sg.grid),))
        Q = a + (b - a) * rng.integers(0, 257, (N, d)) / 256.0

        def f(y=f0, g=sg, Q=Q):
            v, dv = mon.do(ep, M.SmolyakInterp(g, y).interpolate, Q, deriv=True)
            return np.concatenate([np.asarray(v)[:, None], np.asarray(dv)], axis=1)
        base = f()
        m = np.abs(base).max(axis=0) + np.concatenate([[np.abs(f0).max()], np.abs(f0).max() / (b - a)])
        s = pw(rng)
        check(ep, "data scaled", f(f0 * s) / s, base, m, 1e-10)
        check(ep, "negated", -f(-f0), base, m, 1e-10)
        y = rng.standard_normal(f0.shape) * np.abs(f0).max()
        w = f(y)
        check(ep, "sum", f(f0 + y), base + w, m + np.abs(w).max(axis=0), 1e-10)
        c = np.abs(f0).max()
        check(ep, "constant", f(f0 + c) - np.array([c] + [0] * d), base, 3 * m, 1e-10)
        s = pw(rng)
        g2 = mon.do("SmolyakGrid", M.SmolyakGrid, d, mu, a * s, b * s)
        mon.close("Smolyak grid scales", np.asarray(g2.grid) / s, sg.grid, 1e-13 * np.abs(sg.grid).max(), key="Smolyak grid|coordinates scaled")
        check(ep, "coordinates scaled", f(g=g2, Q=Q * s) * np.array([1] + [s] * d), base, m, 1e-10)
        h = float(rng.integers(-8, 9))
        g2 = mon.do("SmolyakGrid", M.SmolyakGrid, d, mu, a + h, b + h)
        mon.close("Smolyak grid moves", np.asarray(g2.grid) - h, sg.grid, 1e-13 * (8 + np.abs(sg.grid).max()), key="Smolyak grid|shifted")
        check(ep, "shifted", f(g=g2, Q=Q + h), base, m, 1e-8)
        lut = lambda g: {tuple(np.round(p, 9)): i for i, p in enumerate(np.asarray(g.cube_grid) + 0.0)}
        one_, two = np.round(np.asarray(sg.cube_grid), 9) + 0.0, None
        # axes: the same grid with its dimensions in another order
        p = rng.permutation(d)
        g2 = mon.do("SmolyakGrid", M.SmolyakGrid, d, mu if np.isscalar(mu) else [mu[i] for i in p], a[p], b[p])
        two = np.round(np.asarray(g2.cube_grid), 9) + 0.0
        idx = {tuple(row): i for i, row in enumerate(one_[:, p])}
        if mon.true("Smolyak grid with permuted dimensions is the same set of points", len(two) == len(one_) and all(tuple(row) in idx for row in two), key="Smolyak grid|axes"):
            r2 = f(f0[[idx[tuple(row)] for row in two]], g2, np.ascontiguousarray(Q[:, p]))
            check(ep, "axes", r2[:, [0] + [1 + int(i) for i in np.argsort(p)]], base, m, 1e-10)
        # mirrored
        q = one_.copy()
        q[:, 0] *= -1
        idx = {tuple(row): i for i, row in enumerate(q + 0.0)}
        if mon.true("Smolyak grid is symmetric", all(tuple(row) in idx for row in one_), key="Smolyak grid|mirrored"):
            a2, b2 = a.copy(), b.copy()
            a2[0], b2[0] = -b[0], -a[0]
            g2 = mon.do("SmolyakGrid", M.SmolyakGrid, d, mu, a2, b2)
            Q2 = Q.copy()
            Q2[:, 0] *= -1
            r2 = f(f0[[idx[tuple(row)] for row in one_]], g2, Q2)
            r2[:, 1] *= -1
            check(ep, "mirrored", r2, base, m, 1e-9)
        it = M.SmolyakInterp(sg, f0)
        batches(ep, lambda Q: it.interpolate(Q), Q, base[:, 0], m[0], 1e-10)
    elif fam == "basis":
        from interpolation.splines import basis_splines as M
        p = r % 5
        u = dyadic(rng, "n", p + 6)
        i = int(rng.integers(4))
        ep = "B"
        X = pts(rng, (u,), 30)[:, 0]
        base = np.array([float(mon.do(ep, M.B, p, u, i, float(x))) for x in X])
        s, h = pw(rng), float(rng.integers(-8, 9)) * 2.0 ** int(np.floor(np.log2(np.abs(u).max() + 1e-9)))
        check(ep, "coordinates scaled", [float(mon.do(ep, M.B, p, u * s, i, float(x * s))) for x in X], base, 1)
        check(ep, "shifted", [float(mon.do(ep, M.B, p, u + h, i, float(x + h))) for x in X], base, 1, 1e-9)
        far = inner((u,), X[:, None])
        check(ep, "mirrored", [float(mon.do(ep, M.B, p, -u[::-1], len(u) - p - 2 - i, float(-x))) for x in X], base, 1, 1e-9, far)
    elif fam == "cart":
        from interpolation.cartesian import cartesian, mlinspace
        d = 1 + r % 4
        ns = [int(x) for x in rng.integers(2, [60, 12, 7, 5][d - 1], d)]
        g = [dyadic(rng, "u", n) for n in ns]
        a, b = np.array([x[0] for x in g]), np.array([x[1] for x in g])
        ep = "mlinspace"
        f = lambda a=a, b=b, n=ns, o="C": np.asarray(mon.do(ep, mlinspace, a, b, n, o))
        base = f()
        m = np.abs(base).max()
        s = pw(rng)
        check(ep, "coordinates scaled", f(a * s, b * s) / s, base, m, 1e-13)
        check(ep, "shifted", f(a + 16, b + 16) - 16, base, m + 16, 1e-13)
        check(ep, "mirrored", -f(-b, -a)[::-1], base, m, 1e-13)
        check(ep, "axes", f(a[::-1].copy(), b[::-1].copy(), ns[::-1], "F")[:, ::-1], base, m, 1e-13)
        x = [nodes(y) for y in g]
        c = np.asarray(mon.do("cartesian", cartesian, x))
        mon.close("cartesian: axes", np.asarray(mon.do("cartesian", cartesian, x[::-1], "F"))[:, ::-1], c, 0, key="cartesian|axes")
        mon.close("cartesian: scaled", np.asarray(mon.do("cartesian", cartesian, [y * s for y in x])) / s, c, 0, key="cartesian|coordinates scaled")
