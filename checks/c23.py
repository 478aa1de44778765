"""C23: requests outside what the library supports are refused and leave no trace."""
import copy
import numpy as np
from mon import gen, ref
from mon.core import digest

RULE = ("one case = one unsupported request that must end in an exception, or the supported request repeated after refusals that must give the same result as before; key = (entry point, "
        "kind of unsupported request, variant).  Oracle: an exception of any type; bitwise equal results and digests of the arguments before and after.  Non-trivial: random dimensions, "
        "the offending element at a random position, the nearest supported request must be answered.")
ASSUMPTIONS = ["requests the statement lists; DESIGN.md lists others that the package answers although they make little sense", "the type of the exception is not judged"]
REQUIRED = ["eval_spline|order", "eval_spline|irregular cubic", "eval_cubic|irregular cubic", "eval_spline|derivative order", "eval_spline|derivative length", "eval_linear|option", "eval_cubic|option",
            "eval_linear|rank of values", "eval_linear|rank of points", "prefilter|order", "prefilter|rank", "filter_cubic|rank", "interp|", "mlinterp|", "SmolyakGrid|dimension", "SmolyakGrid|density", "SmolyakGrid|bounds",
            "SmolyakInterp|values", "SmolyakInterp|points", "object|constructor", "object|columns", "object|rank", "object|size", "object|no values", "object|non-finite", "object|derivatives", "CompletePolynomial|degree",
            "poly|derivative", "unchanged|", "nearest supported|"]


def tasks(tier, seed):
    q = tier == "quick"
    L = []
    for d in (1, 2, 3):
        for i in range(4 if q else 12):
            L.append(dict(name="spline-d%d-%d" % (d, i), fam="spline", d=d, env="jit", first=i, reps=1 if q else 4, cost=10 * d))
    L.append(dict(name="interp", fam="interp", env="jit", reps=4 if q else 30, cost=25))
    L.append(dict(name="smolyak", fam="smolyak", env="jit", reps=12 if q else 200, cost=3))
    L.append(dict(name="objects", fam="objects", env="jit", reps=6 if q else 60, cost=15))
    L.append(dict(name="poly", fam="poly", env="jit", reps=40 if q else 400, cost=4))
    return L


class Supported:
    """supported calls of one round: their results are recorded, and required again after every few refusals"""

    def __init__(self, mon):
        self.mon, self.L = mon, []

    def add(self, label, fn, *args, **kw):
        r = self.mon.do(label, fn, *args, **kw)
        self.L.append((label, fn, args, kw, copy.deepcopy(r), digest(args)))
        self.mon.cover("nearest supported|" + label)
        return r

    def again(self):
        for label, fn, args, kw, r, h in self.L:
            self.mon.true("arguments as before the refusals", digest(args) == h, label, key="unchanged|arguments|" + label)
            self.mon.same("same answer as before the refusals", self.mon.do(label + " (again)", fn, *args, **kw), r, key="unchanged|" + label)


def wrong_shapes(rng, shp):
    """shapes with another number of entries than shp"""
    s = list(shp)
    i = int(rng.integers(len(s)))
    a, b = s[:], s[:]
    a[i] += 1
    b[i] -= 1
    return [("one more", tuple(a))] + ([("one less", tuple(b))] if b[i] > 0 else []) + [("one more dimension", tuple(s) + (2,)), ("flat", (int(np.prod(s)) + int(rng.integers(1, 3)),))]


def run(spec, mon):
    rng = mon.rng()
    globals()["run_" + spec["fam"]](spec, mon, rng)


def run_spline(spec, mon, rng):
    from interpolation.splines import eval_spline, eval_linear, eval_cubic, prefilter, filter_cubic, extrap_options as xto
    d = spec["d"]
    for r in range(spec["first"], spec["first"] + 12 * spec["reps"], 12):
        ns = [int(rng.integers(4, 8)) for _ in range(d)]
        vec, batch = bool((r // 2) % 2), bool(r % 2 == 0)
        kinds = ["u"] * d
        bad = (d - 1 - r) % d  # the irregular dimension
        ks = kinds[:]
        ks[bad] = "n"
        if r % 3 == 2:
            ks = ["n"] * d
        gu, gn = gen.grid(rng, kinds, ns, "asym"), gen.grid(rng, ks, ns, "asym")
        tail = (2,) if vec else ()
        C1 = gen.values(rng, tuple(ns) + tail, "normal")
        C3 = gen.values(rng, tuple(n + 2 for n in ns) + tail, "normal")
        P = gen.points(rng, gu, 6, "in")[0]
        Q = P if batch else P[0].copy()
        kk = "|d%d|%s|%s" % (d, "vector" if vec else "scalar", "batch" if batch else "single")
        S = Supported(mon)
        zero = str((0,) * d)
        one = [0] * d
        one[bad] = 1
        diff1 = str((tuple(one), (0,) * d)) if not vec or batch else None
        S.add("eval_spline k=1", eval_spline, gu, C1, Q, None, 1, "None", "linear")
        S.add("eval_spline k=1 irregular", eval_spline, gn, C1, Q, None, 1, "None", "linear")
        S.add("eval_spline k=3", eval_spline, gu, C3, Q, None, 3, "None", "linear")
        if diff1:
            S.add("eval_spline k=3 derivative", eval_spline, gu, C3, Q, None, 3, diff1, "linear")
        S.add("eval_linear", eval_linear, gu, C1, Q, xto.CONSTANT)
        mon.sample(grid=gn, vector=vec, batch=batch, irregular=bad)
        for k in rng.permutation([0, 2, 4, 5, -1, 7, -3])[:4]:
            for C in ((C1, C3) if r % 4 == 0 else (C3,)):
                mon.expect_raise("eval_spline(k=%d)" % k, eval_spline, gu, C, Q, None, int(k), "None", ["linear", "constant", "nearest"][r % 3], key="eval_spline|order|%d%s" % (k, kk))
        for mode in ("linear", "constant", "nearest")[r % 2:2 + r % 2]:
            mon.expect_raise("eval_spline(k=3, irregular, %s)" % mode, eval_spline, gn, C3, Q, None, 3, "None", mode, key="eval_spline|irregular cubic|" + mode + kk)
        if batch and not vec:
            mon.expect_raise("eval_spline(k=3, irregular, out)", eval_spline, gn, C3, Q, np.zeros(len(P)), 3, "None", "linear", key="eval_spline|irregular cubic|out" + kk)
        if diff1:
            mon.expect_raise("eval_spline(k=3, irregular, derivatives)", eval_spline, gn, C3, Q, None, 3, diff1, "linear", key="eval_spline|irregular cubic|derivatives" + kk)
        mon.expect_raise("eval_cubic(irregular)", eval_cubic, gn, C3, Q, key="eval_cubic|irregular cubic" + kk)
        mon.expect_raise("eval_cubic(irregular, option)", eval_cubic, gn, C3, Q, [xto.CONSTANT, xto.LINEAR, xto.NEAREST][r % 3], key="eval_cubic|irregular cubic|option" + kk)
        # derivatives
        if not vec or batch:
            for o in rng.permutation([2, 3, 4, -1])[:2]:
                t = [0] * d
                t[bad] = int(o)
                ds = str(((0,) * d, tuple(t))) if r % 2 else str((tuple(t),))
                mon.expect_raise("eval_spline(k=3, diff=%s)" % ds, eval_spline, gu, C3, Q, None, 3, ds, "linear", key="eval_spline|derivative order|%d%s" % (o, kk))
            for t, nm in (((0,) * (d - 1) + (1, 0), "too long"), ((1,) * (d - 1), "too short")):
                if not len(t):
                    continue
                for k, C in ((1, C1), (3, C3)):
                    mon.expect_raise("eval_spline(k=%d, diff=%s)" % (k, (t,)), eval_spline, gu, C, Q, None, k, str((t,)), "linear", key="eval_spline|derivative length|%s|k%d%s" % (nm, k, kk))
        # options
        for o, nm in ((3, "number"), ("cubic", "name"), (((None,), (None,) * 4), "unknown")):
            mon.expect_raise("eval_linear(option %s)" % nm, eval_linear, gu, C1, Q, o, key="eval_linear|option|" + nm + kk)
            mon.expect_raise("eval_cubic(option %s)" % nm, eval_cubic, gu, C3, Q, o, key="eval_cubic|option|" + nm + kk)
        # ranks
        if not vec:
            for x, nm in ((C1.ravel()[0], "number"), *(((C1[..., None, None].copy(), "two more"),) if batch else ())) + (((C1[0].copy(), "one less"),) if d > 1 else ()):
                for k in (1, 3):
                    mon.expect_raise("eval(values of rank %s, k=%d)" % (nm, k), eval_linear if k == 1 else eval_cubic, gu, x, Q, key="%s|rank of values|%s%s" % ("eval_linear" if k == 1 else "eval_cubic", nm, kk))
        for x, nm in ((P[None].copy(), "3"), (0.5, "0")):
            mon.expect_raise("eval_linear(points of rank %s)" % nm, eval_linear, gu, C1, x, key="eval_linear|rank of points|" + nm + kk)
            mon.expect_raise("eval_cubic(points of rank %s)" % nm, eval_cubic, gu, C3, x, key="eval_cubic|rank of points|" + nm + kk)
        # prefiltering
        V = gen.values(rng, tuple(ns), "normal")
        S.add("prefilter k=3", prefilter, gu, V, k=3)
        S.add("filter_cubic", filter_cubic, gu, V)
        for k in rng.permutation([0, 2, 4, 5, -1])[:3]:
            mon.expect_raise("prefilter(k=%d)" % k, prefilter, gu, V, k=int(k), key="prefilter|order|%d|d%d" % (k, d))
        if d > 1:
            mon.expect_raise("filter_cubic(rank too small)", filter_cubic, gu, V[0].copy(), key="filter_cubic|rank|small|d%d" % d)
            mon.expect_raise("prefilter(rank too small)", prefilter, gu, V[0].copy(), k=3, key="prefilter|rank|small|d%d" % d)
        g5 = gen.grid(rng, "u" * 5, [2] * 5, "unit")
        if d == 3:
            mon.expect_raise("filter_cubic(5 dimensions)", filter_cubic, g5, np.zeros((2,) * 5), key="filter_cubic|rank|5")
        S.again()


def run_interp(spec, mon, rng):
    from interpolation import interp, mlinterp
    for r in range(spec["reps"]):
        ns = [int(rng.integers(3, 7)) for _ in range(3)]
        G = [gen.grid1d(rng, "n", n, "asym") for n in ns]
        V = [gen.values(rng, tuple(ns[:i + 1]), "normal") for i in range(3)]
        pts = [gen.points(rng, tuple(G[:i + 1]), 4, "in")[0] for i in range(3)]
        S = Supported(mon)
        S.add("interp 1d", interp, G[0], V[0], pts[0][:, 0].copy())
        S.add("interp 1d scalar", interp, G[0], V[0], float(pts[0][0, 0]))
        S.add("interp 2d", interp, G[0], G[1], V[1], pts[1])
        S.add("mlinterp 2d", mlinterp, (G[0], G[1]), V[1], pts[1])
        S.add("mlinterp 2d tuple", mlinterp, (G[0], G[1]), V[1], (float(pts[1][0, 0]), float(pts[1][0, 1])))
        mon.sample(ns=ns)
        E = lambda nm, f, *a: mon.expect_raise("%s(%s)" % (f.__name__, nm), f, *a, key="%s|%s" % (f.__name__, nm))
        E("vector values", interp, G[0], np.stack([V[0], V[0]], -1), pts[0][:, 0].copy())
        E("vector values 2d", interp, G[0], G[1], np.stack([V[1]] * 2, -1), pts[1])
        E("rank of values too small", interp, G[0], G[1], V[0], pts[1])
        E("scalars and arrays mixed", interp, G[0], G[1], V[1], pts[1][:, 0].copy(), 0.5)
        E("points of rank 3", interp, G[0], G[1], V[1], pts[1][None].copy())
        E("no points", interp, G[0], V[0])
        E("values of rank 1 for 2 dimensions", mlinterp, (G[0], G[1]), V[0], pts[1])
        E("values of rank 3 for 2 dimensions", mlinterp, (G[0], G[1]), V[2], pts[1])
        E("values of rank 2 for 3 dimensions", mlinterp, tuple(G), V[1], pts[2])
        E("coordinates missing", mlinterp, (G[0], G[1], G[2]), V[2], (0.5, 0.5))
        E("coordinates missing, numbers", mlinterp, (G[0], G[1]), V[1], (0.5,))
        E("coordinate too many", mlinterp, (G[0], G[1]), V[1], (0.5, 0.5, 0.5))
        E("points of rank 3", mlinterp, (G[0], G[1]), V[1], pts[1][None].copy())
        S.again()


def run_smolyak(spec, mon, rng):
    from interpolation.smolyak import SmolyakGrid, SmolyakInterp
    for r in range(spec["reps"]):
        d = int(rng.integers(2, 5))
        mu = int(rng.integers(1, 4)) if d < 4 else int(rng.integers(1, 3))
        lb = rng.uniform(-2, 0, d)
        ub = lb + rng.uniform(0.5, 3, d)
        S = Supported(mon)
        sg = S.add("SmolyakGrid", lambda d, mu, lb, ub: SmolyakGrid(d, mu, lb, ub).grid, d, mu, lb, ub)
        S.add("SmolyakGrid anisotropic", lambda d, mu: SmolyakGrid(d, mu).grid, d, [1 + (i + r) % 2 for i in range(d)])
        sg = SmolyakGrid(d, mu, lb, ub)
        X = np.array(sg.grid)
        v = gen.values(rng, (len(X),), "normal")
        si = SmolyakInterp(sg, v)
        P = lb + (ub - lb) * rng.random((5, d))
        S.add("SmolyakInterp", si.interpolate, P)
        mon.sample(d=d, mu=mu)
        E = lambda nm, f, *a, **k: mon.expect_raise(nm, f, *a, key=nm + "|d%d" % d, **k)
        for x in (1, 0, -1, -2):
            E("SmolyakGrid|dimension|%d" % x, SmolyakGrid, x, mu)
        E("SmolyakGrid|dimension|1 with one density", SmolyakGrid, 1, [mu])
        for x in (0, -1, -3):
            E("SmolyakGrid|density|%d" % x, SmolyakGrid, d, x)
            E("SmolyakGrid|density|%d, bounds" % x, SmolyakGrid, d, x, lb, ub)
        for x, nm in ((-1, "negative"), (0, "zero")):
            m = [int(a) for a in rng.integers(1, 3, d)]
            m[int(rng.integers(d))] = x
            E("SmolyakGrid|density|list with %s" % nm, SmolyakGrid, d, m)
            E("SmolyakGrid|density|list with %s, bounds" % nm, SmolyakGrid, d, m, lb, ub)
        E("SmolyakGrid|density|list too long", SmolyakGrid, d, [1] * (d + 1))
        E("SmolyakGrid|density|list too short", SmolyakGrid, d, [2] * (d - 1))
        E("SmolyakGrid|density|fraction", SmolyakGrid, d, 1.5)
        E("SmolyakGrid|density|name", SmolyakGrid, d, "2")
        for a, b, nm in ((np.append(lb, 0.0), ub, "lower too long"), (lb, np.append(ub, 9.0), "upper too long"), (lb[:-1].copy(), ub, "lower too short"), (lb, ub[:-1].copy(), "upper too short"),
                         (np.append(lb, 0.0), np.append(ub, 9.0), "both too long"), (lb[:-1].copy(), ub[:-1].copy(), "both too short"), (list(lb) + [0.0], list(ub) + [1.0], "lists too long")):
            if d == 2 and "short" in nm:
                a, b = (np.array([]) if len(a) == 1 else a), (np.array([]) if len(b) == 1 else b)
            E("SmolyakGrid|bounds|" + nm, SmolyakGrid, d, mu, a, b)
        for n, nm in ((len(X) - 1, "one less"), (len(X) + 1, "one more"), (2 * len(X), "twice")):
            E("SmolyakInterp|values|" + nm, SmolyakInterp, sg, np.ones(n))
            E("SmolyakInterp|values|update " + nm, si.update_theta, np.ones(n))
        if d > 2:
            E("SmolyakInterp|points|column missing", si.interpolate, P[:, :2].copy())
        E("SmolyakInterp|points|column too many", si.interpolate, np.column_stack([P, P[:, :1]]))
        E("SmolyakInterp|points|rank 1", si.interpolate, P[0].copy())
        S.again()


def run_objects(spec, mon, rng):
    import interpolation.splines as M
    for r in range(spec["reps"]):
        d = 1 + r % 3
        ns = [int(rng.integers(3, 6)) for _ in range(d)]
        g = gen.grid(rng, "u" * d, ns, "asym")
        a, b = [x[0] for x in g], [x[1] for x in g]
        P = gen.points(rng, g, 5, "in")[0]
        nx = int(rng.integers(1, 4))
        for cls in ("CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines"):
            K = getattr(M, cls, None)
            if K is None:
                from interpolation.splines import multilinear
                K = getattr(multilinear, cls)
            multi, cubic = cls.endswith("s"), cls.startswith("Cubic")
            shp = tuple(ns) + ((nx,) if multi else ())
            V = gen.values(rng, shp, "normal")
            try:
                s = mon.do(cls, K, a, b, ns, V)
                S = Supported(mon)
                S.add(cls, s, P)
            except Exception:
                if cls == "LinearSplines" and not mon.violations:
                    raise
                raise
            S.add(cls + " one point", s, P[0].copy())
            kk = "|%s|d%d" % (cls, d)
            E = lambda nm, f, *args, **k: mon.expect_raise("%s %s" % (cls, nm), f, *args, key="object|" + nm + kk, **k)
            if cubic:
                E("constructor|upper bounds too long", K, a, b + [b[-1] + 1], ns)
                E("constructor|lower bounds too long", K, a + [a[-1] - 1], b, ns)
                E("constructor|orders too long", K, a, b, ns + [4])
                if d > 1:
                    E("constructor|upper bounds too short", K, a, b[:-1], ns, V)
                    E("constructor|orders too short", K, a, b, ns[:-1], V)
                E("constructor|bounds too long, values", K, a, b + [b[-1] + 1], ns, V)
                E("columns|too many", s, np.column_stack([P, P[:, :1]]))
                E("columns|too many, interpolate", s.interpolate, np.column_stack([P, P[:, :1]]))
                if d > 1:
                    E("columns|too few", s, P[:, 1:].copy())
                    E("columns|too few, interpolate", s.interpolate, P[:, 1:].copy())
                    E("columns|transposed", s, np.ascontiguousarray(P[:4 + (d == 4)].T))
                bad = P.copy()
                bad[int(rng.integers(5)), int(rng.integers(d))] = [np.nan, np.inf, -np.inf][r % 3]
                E("non-finite|points", s, bad)
                E("non-finite|points, interpolate", s.interpolate, bad)
                E("non-finite|one point", s, bad[np.argmax(~np.isfinite(bad).all(axis=1))].copy())
                badv = V.copy()
                badv.ravel()[int(rng.integers(V.size))] = [np.inf, np.nan, -np.inf][r % 3]
                E("non-finite|values", s.set_values, badv)
                E("non-finite|constructor", K, a, b, ns, badv)
                if multi:
                    E("non-finite|points with derivatives", s.interpolate, bad, True)
                    E("columns|too many, derivatives", s.interpolate, np.column_stack([P, P[:, :1]]), True)
                    E("rank|one point in interpolate", s.interpolate, P[0].copy())
                else:
                    E("derivatives", s.interpolate, P, with_derivatives=True)
                    E("derivatives|one point", s.interpolate, P[0].copy(), with_derivatives=True)
            E("rank|3", s, P[None].copy())
            E("no values", K(a, b, ns), P)
            for nm, w in wrong_shapes(rng, ns):
                if multi:
                    if nm in ("flat", "one more dimension"):
                        continue
                    w = w + (nx,)
                E("size|" + nm, s.set_values, np.ones(w))
                E("size|constructor " + nm, K, a, b, ns, np.ones(w))
            S.again()
        mon.sample(ns=ns, nx=nx)


def run_poly(spec, mon, rng):
    from interpolation.complete_poly import complete_polynomial, complete_polynomial_der, CompletePolynomial
    for r in range(spec["reps"]):
        n, deg = int(rng.integers(1, 4)), int(rng.integers(1, 6))
        Z = rng.uniform(-1, 1, (n, 90))
        X = np.ascontiguousarray(Z.T)
        y = rng.standard_normal((90, 2) if r % 2 else 90)
        S = Supported(mon)
        cp = CompletePolynomial(n, deg)
        mon.do("fit_values", cp.fit_values, X, y)
        S.add("CompletePolynomial", cp, X)
        S.add("complete_polynomial", complete_polynomial, Z, deg)
        S.add("complete_polynomial_der", complete_polynomial_der, Z, deg, n - 1)
        mon.sample(n=n, degree=deg)
        E = lambda nm, f, *a, **k: mon.expect_raise(nm, f, *a, key=nm + "|n%d" % n, **k)
        big = int(rng.integers(6, 9))
        E("CompletePolynomial|degree|too large", lambda: CompletePolynomial(n, big).fit_values(X, y))
        E("CompletePolynomial|degree|negative", lambda: CompletePolynomial(n, -1).fit_values(X, y))
        for z, nm in ((Z, "matrix"), (Z[:, 0].copy(), "vector")):
            E("poly|degree|too large, " + nm, complete_polynomial, z, big)
            E("poly|degree|negative, " + nm, complete_polynomial, z, -int(rng.integers(1, 3)))
            E("poly|derivative|of a missing variable, " + nm, complete_polynomial_der, z, deg, n + int(rng.integers(0, 3)))
            E("poly|derivative|negative, " + nm, complete_polynomial_der, z, deg, -int(rng.integers(1, 3)))
            E("poly|derivative|degree too large, " + nm, complete_polynomial_der, z, big, 0)
            E("poly|derivative|degree negative, " + nm, complete_polynomial_der, z, -1, 0)
        E("CompletePolynomial|derivative of a missing variable", cp.der, X, n)
        E("CompletePolynomial|derivative negative", cp.der, X, -1)
        E("CompletePolynomial|fewer values than samples", cp.fit_values, X, y[:-1])
        E("CompletePolynomial|more values than samples", cp.fit_values, X[:-1].copy(), y)
        S.again()
