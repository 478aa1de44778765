"""C03: cubic prefiltering against the dense natural-spline system."""
import numpy as np
from mon import gen, ref
from mon.core import ApiFailed
from mon.common import api, pick_ns

RULE = ("one case = one coefficient array compared element by element with the solution of the dense natural-spline system "
        "(interpolation at every node, zero second difference at both ends of every dimension); key = (entry point, dimension, value rank, "
        "input layout, output layout, node-count class).  Non-trivial: random / spiky / alternating / large-offset data.")
ASSUMPTIONS = ["finite data", "agreement up to rounding: 1e-11 of |M||V| (M the dense inverse) + 1e-14 max|V|"]
REQUIRED = ["filter_cubic", "prefilter", "filter_coeffs", "filter_mcoeffs", "CubicSpline", "k=1", "d1", "d2", "d3", "d4", "inplace", "vv"]

_cache = {}


def nat(n):
    if n not in _cache:
        _cache[n] = ref.natural_matrix(n)
    return _cache[n]


def expected(ns, V):
    C = np.asarray(V, dtype=float)
    A = np.abs(C)
    for i, n in enumerate(ns):
        C = np.moveaxis(np.tensordot(nat(n), C, axes=(1, i)), 0, i)
        A = np.moveaxis(np.tensordot(np.abs(nat(n)), A, axes=(1, i)), 0, i)
    return C, 1e-11 * A + 1e-14 * (np.abs(V).max() if V.size else 0.0)


def tasks(tier, seed):
    T = []
    reps = 24 if tier == "quick" else 250
    for d in (1, 2, 3, 4):
        for fam in ("alloc", "inplace", "legacy", "layouts"):
            T.append(dict(name="prefilter-d%d-%s" % (d, fam), d=d, fam=fam, reps=reps if d < 4 else reps * 2 // 3, cost=d))
    return T


def run(spec, mon):
    _, _, _, filter_cubic, prefilter, _ = api()
    from interpolation.splines.filter_cubic import filter_coeffs, filter_mcoeffs
    from interpolation.splines import CubicSpline, CubicSplines
    d, fam = spec["d"], spec["fam"]
    rng = mon.rng()
    limit = {1: 1200, 2: 3000, 3: 4000, 4: 5000}[d]

    for r in range(spec["reps"]):
        ns = pick_ns(rng, d, limit, cubic=True)
        if r == 0:
            ns = [2] * d
        if r == 1:
            ns = [2 + i for i in range(d)]
        if r == 2:
            ns = [6 - i for i in range(d)]
        if r == 3:
            ns = [3] * d
        if r == 4 and d == 1:
            ns = [1000 if spec["fam"] != "alloc" else 2500]
        if r == 4 and d == 2:
            ns = [2, 300]
        if r == 5 and d == 2:
            ns = [300, 2]
        if r == 7 and fam != "layout":
            ns = [int(x) for x in rng.permutation([[700], [130, 90], [30, 24, 20], [9, 8, 10, 7]][d - 1])]
        if r == 6 and d >= 2:  # same sizes: an exchanged axis would not show in the shape
            ns = [4] * d
        g = gen.grid(rng, "u" * d, ns)
        V = gen.values(rng, tuple(ns))
        nx = gen.ncomp(rng)
        VV = gen.values(rng, tuple(ns) + (nx,))
        W, tol = expected(ns, V)
        WW, ttol = expected(ns, VV)
        ncl = "n2" if min(ns) == 2 else "n3" if min(ns) == 3 else "n4+"
        kk = "|d%d|%s" % (d, ncl)
        mon.sample(grid=[list(x) for x in g], nx=nx, spread=float(np.ptp(V)))
        cx = lambda i: "grid=%s" % (g,)

        def chk(name, f, want, t, key):
            got = mon.do(name, f)
            return mon.close(name, got, want, t, key=key, ctx=cx)

        if fam == "alloc":
            chk("filter_cubic", lambda: filter_cubic(g, V), W, tol, "filter_cubic" + kk)
            chk("filter_cubic vv", lambda: filter_cubic(g, VV), WW, ttol, "filter_cubic vv" + kk)
            chk("prefilter k=3", lambda: prefilter(g, V, k=3), W, tol, "prefilter" + kk)
            chk("prefilter k=3 vv", lambda: prefilter(g, VV, k=3), WW, ttol, "prefilter vv" + kk)
            chk("prefilter k=1", lambda: prefilter(g, V, k=1), V, 0.0, "prefilter k=1" + kk)
            chk("prefilter k=1 vv", lambda: prefilter(g, VV, k=1), VV, 0.0, "prefilter k=1 vv" + kk)
            # components are independent: a huge or zero companion changes nothing
            V2 = np.stack([V, np.zeros_like(V), 1e12 * rng.standard_normal(V.shape)], -1)
            got = mon.do("filter_cubic companion", filter_cubic, g, V2)
            mon.close("component filtered independently", np.asarray(got)[..., 0], W, tol, key="filter_cubic companions" + kk, ctx=cx)
            mon.close("zero component stays zero", np.asarray(got)[..., 1], W * 0, 0.0, key="filter_cubic zero companion" + kk, ctx=cx)
        elif fam == "inplace":
            def ip(f, shape, fill):
                o = np.full(shape, fill)
                def go():
                    f(o)
                    return o
                return go
            fill = [np.nan, 0.0, 1e30, -3.0][r % 4]
            chk("filter_cubic inplace", ip(lambda o: filter_cubic(g, V, o), W.shape, fill), W, tol, "filter_cubic inplace" + kk)
            chk("filter_cubic vv inplace", ip(lambda o: filter_cubic(g, VV, o), WW.shape, fill), WW, ttol, "filter_cubic vv inplace" + kk)
            chk("prefilter inplace", ip(lambda o: prefilter(g, V, o, k=3), W.shape, fill), W, tol, "prefilter inplace" + kk)
            chk("prefilter vv inplace", ip(lambda o: prefilter(g, VV, o, k=3), WW.shape, fill), WW, ttol, "prefilter vv inplace" + kk)
        elif fam == "legacy":
            a = np.array([x[0] for x in g])
            b = np.array([x[1] for x in g])
            o = np.array(ns)
            chk("filter_coeffs", lambda: filter_coeffs(a, b, o, V), W, tol, "filter_coeffs" + kk)
            chk("filter_coeffs flat", lambda: filter_coeffs(list(a), list(b), ns, V.ravel()), W, tol, "filter_coeffs flat" + kk)
            chk("filter_mcoeffs", lambda: filter_mcoeffs(a, b, o, VV), WW, ttol, "filter_mcoeffs" + kk)
            # the spline objects filter through the same path: their coefficients show in evaluations
            if r % 3 == 0:
                m = 40
                P, _ = gen.points(rng, g, m)
                w, t = ref.evaluate(3, g, W, P)
                t = t + 1e-9 * np.abs(V).max()
                cs = mon.do("CubicSpline", CubicSpline, a, b, ns, V)
                chk("CubicSpline call", lambda: cs(P), w, t, "CubicSpline" + kk)
                ww, tt = ref.evaluate(3, g, WW, P)
                cms = mon.do("CubicSplines", CubicSplines, a, b, ns, VV)
                chk("CubicSplines call", lambda: cms(P), ww, tt + 1e-9 * np.abs(VV).max(), "CubicSplines" + kk)
        else:
            li = gen.LAYOUTS[r % 6]
            lo = ["C", "F", "A"][(r // 6) % 3] if d < 4 else ["C", "F"][(r // 6) % 2]
            Vl, VVl = gen.layout(V, li), gen.layout(VV, li)
            if d == 4 and r % 6 > 2:  # each layout combination compiles anew
                continue
            chk("filter_cubic layout", lambda: filter_cubic(g, Vl), W, tol, "filter_cubic layout %s" % li + kk)
            oc = gen.layout(np.full(W.shape, np.nan), lo)
            def go():
                filter_cubic(g, Vl, oc)
                return oc
            chk("filter_cubic layout inplace", go, W, tol, "filter_cubic inplace %s->%s" % (li, lo) + kk)
            if r % 2 == 0:
                chk("filter_cubic vv layout", lambda: filter_cubic(g, VVl), WW, ttol, "filter_cubic vv layout %s" % li + kk)
