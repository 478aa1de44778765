"""C06: every calling convention of the spline evaluators gives the same numbers, types and shapes."""
import itertools
import numpy as np
from mon import gen, ref
from mon.core import ApiFailed
from mon.common import api, kind_patterns, pick_ns, nclass, desc, ctx_points

RULE = ("one case = one call in one convention; its result is compared with the reference value of the same (grid, data, points) which all conventions share, "
        "and its type/shape with the documented one; key = (family, spline order, dimension, grid pattern, convention incl. memory layouts).  "
        "Non-trivial: random data, points inside and outside (linear extension), batches of 0, 1, few and many points.")
ASSUMPTIONS = ["float64 data, aligned arrays", "agreement up to rounding"]
REQUIRED = ["layout|k1", "layout|k3", "jit|k1", "jit|k3", "guvectorize", "legacy", "shape", "empty", "tuple", "inplace", "spline=linear"]


def tasks(tier, seed):
    rng = np.random.default_rng(seed + 606)
    q = tier == "quick"
    T = []
    for k, d, pats in [(1, 1, ["u", "n"]), (1, 2, ["uu", "un", "nu", "nn"]), (1, 3, ["uuu", "nun"]), (3, 1, ["u"]), (3, 2, ["uu"])] + \
            ([] if q else [(1, 3, ["nnn", "uun"]), (3, 3, ["uuu"]), (1, 4, ["unun"])]):
        for pat in pats:
            ncomb = {1: 12, 2: 10, 3: 6, 4: 5}[d] if q else {1: 40, 2: 36, 3: 12, 4: 8}[d]
            if k == 3 and q:
                ncomb = 8 if d == 1 else 5
            T.append(dict(name="layout-k%d-d%d-%s" % (k, d, pat), fam="layout", k=k, d=d, pat=pat, n=ncomb, cost=k * d * 2))
            T.append(dict(name="shape-k%d-d%d-%s" % (k, d, pat), fam="shape", k=k, d=d, pat=pat, n=6 if q else 30, cost=k * d * 2))
            T.append(dict(name="jit-k%d-d%d-%s" % (k, d, pat), fam="jit", k=k, d=d, pat=pat, n=3 if q else 10, cost=k * d * 2))
    for d in (1, 2, 3):
        T.append(dict(name="legacy-d%d" % d, fam="legacy", k=0, d=d, pat="u" * d, n=6 if q else 40, cost=d * 4))
    T.append(dict(name="gu", fam="gu", k=1, d=1, pat="n", n=6, cost=4))
    return T


def run(spec, mon):
    eval_linear, eval_cubic, eval_spline, filter_cubic, prefilter, xo = api()
    k, d, pat, fam = spec["k"], spec["d"], spec["pat"], spec["fam"]
    rng = mon.rng()
    limit = {1: 200, 2: 600, 3: 1500, 4: 2500}[d]
    ev = eval_linear if k == 1 else eval_cubic
    kk = "|k%d|d%d|%s|" % (k, d, pat)

    def case(kk_, N, where="any"):
        ns = pick_ns(rng, d, limit, cubic=True) if N < 1000 else [int(x) for x in rng.integers(2, 9, d)]
        g = gen.grid(rng, pat, ns)
        shp = tuple(n + (2 if kk_ == 3 else 0) for n in ns)
        P, _ = gen.points(rng, g, N, where)
        nx = gen.ncomp(rng) if N < 1000 else 2
        C, CC = gen.values(rng, shp), gen.values(rng, shp + (nx,))
        return g, P, nx, C, CC, ref.evaluate(kk_, g, C, P), ref.evaluate(kk_, g, CC, P)

    broken = set()

    def chk(form, f, w, P, g, sig=None):
        if form in broken:
            return None
        try:
            got = mon.do(form + kk, f)
        except ApiFailed:
            broken.add(form)
            return None
        if not mon.close("%s k=%d" % (sig or form, k), got, w[0], w[1], key=fam + kk + form, ctx=ctx_points(g, P)):
            broken.add(form)
        return got

    def ip(f, shape, layout="C", arr=None):
        o = gen.layout(np.full(shape, np.nan), layout) if arr is None else arr
        def go():
            f(o)
            return o
        return go

    if fam == "layout":
        L = gen.LAYOUTS
        combos = list(itertools.product(L, L, ["C", "F", "A"]))
        pick = [combos[i] for i in rng.permutation(len(combos))]
        # every coefficient layout and every point layout at least once
        chosen = [(L[i % 6], L[(i + 1 + i // 6) % 6], ["C", "F", "A"][i % 3]) for i in range(6)] + pick
        for i, (lc, lp, lo) in enumerate(chosen[:spec["n"]]):
            g, P, nx, C, CC, w, ww = case(k, [9, 1, 30, 4][i % 4])
            if "n" in pat:
                lg = L[(i + 2) % 6]
                g = tuple(x if isinstance(x, tuple) else gen.layout(x, lg) for x in g)
            else:
                lg = "-"
            form = "C=%s P=%s" % (lc, lp)
            Pl = gen.layout(P, lp)
            chk("batch %s G=%s" % (form, lg), lambda: ev(g, gen.layout(C, lc), Pl), w, P, g, "layouts batch")
            chk("batch vv inplace %s out=%s" % (form, lo), ip(lambda o: ev(g, gen.layout(CC, lc), Pl, o), ww[0].shape, lo), ww, P, g, "layouts batch vv inplace")
            if i % 2 == 0:
                p = gen.layout(P[0], lp)
                chk("point %s" % form, lambda: ev(g, gen.layout(C, lc), p), (w[0][0], w[1][0]), P[:1], g, "layouts point")
                # a row of a larger array, and a column of a transposed one
                row = gen.layout(P, "C")[0]
                col = np.ascontiguousarray(P.T)[:, 0]
                chk("point vv row", lambda: ev(g, CC, row), (ww[0][0], ww[1][0]), P[:1], g, "layouts row")
                chk("point vv column", lambda: ev(g, CC, col), (ww[0][0], ww[1][0]), P[:1], g, "layouts column")
            else:
                chk("spline batch vv %s" % form, lambda: eval_spline(g, gen.layout(CC, lc), Pl, out=None, k=k, diff="None", extrap_mode="linear"), ww, P, g, "layouts eval_spline")

    elif fam == "shape":
        orders = ((0,) * d, (1,) + (0,) * (d - 1))
        diff = str(orders)
        es = lambda C, p, o=None, df="None": eval_spline(g, C, p, out=o, k=k, diff=df, extrap_mode="linear")
        for i in range(spec["n"]):
            N = [0, 1, 5, 50, 2, 400 if d > 2 else 12000 // d][i % 6]
            g, P, nx, C, CC, w, ww = case(k, N, "any")
            tag = "empty " if N == 0 else ""

            def typed(form, got, shape):
                mon.true("%s returns a float64 array of shape %s" % (form, "documented"), isinstance(got, np.ndarray) and got.dtype == np.float64 and got.shape == shape,
                         "%s: got %s %s, expected shape %s" % (form, type(got).__name__, getattr(got, "shape", None), shape), key="shape" + kk + tag + form)

            for form, f, wv in (("option batch", lambda: ev(g, C, P), w), ("option batch vv", lambda: ev(g, CC, P), ww),
                                ("spline batch", lambda: es(C, P), w), ("spline batch vv", lambda: es(CC, P), ww)):
                got = chk(tag + form, f, wv, P, g)
                if got is not None:
                    typed(form, got, wv[0].shape)
            chk(tag + "option inplace", ip(lambda o: ev(g, C, P, o), (N,)), w, P, g)
            chk(tag + "option vv inplace", ip(lambda o: ev(g, CC, P, o), (N, nx)), ww, P, g)
            chk(tag + "spline inplace", ip(lambda o: es(C, P, o), (N,)), w, P, g)
            for form, CX, shape in (("spline diff", C, (N, 2)), ("spline diff vv", CC, (N, nx, 2))):
                try:
                    got = mon.do(form, es, CX, P, None, diff)
                    typed(form, got, shape)
                    mon.close("value column of " + form, np.asarray(got)[..., 0], (w if CX is C else ww)[0], (w if CX is C else ww)[1],
                              key="shape" + kk + tag + form, ctx=ctx_points(g, P))
                except ApiFailed:
                    pass
            # data with a single component equal scalar data
            C1 = C[..., None].copy()
            chk(tag + "one component", lambda: np.asarray(ev(g, C1, P))[..., 0], w, P, g)
            for j in range(min(N, 2)):
                pa, pt = P[j].copy(), tuple(float(v) for v in P[j])
                wj, wwj = (w[0][j], w[1][j]), (ww[0][j], ww[1][j])
                for form, f in (("point", lambda: ev(g, C, pa)), ("tuple", lambda: ev(g, C, pt)), ("spline point", lambda: es(C, pa)), ("spline tuple", lambda: es(C, pt))):
                    got = chk(form, f, wj, P[j:j + 1], g)
                    if got is not None:
                        mon.true(form + " returns a float", isinstance(got, float), "got %r" % type(got), key="shape" + kk + form)
                for form, f in (("point vv", lambda: ev(g, CC, pa)), ("tuple vv", lambda: ev(g, CC, pt)), ("spline point vv", lambda: es(CC, pa))):
                    got = chk(form, f, wwj, P[j:j + 1], g)
                    if got is not None:
                        typed(form, got, (nx,))
                chk("point vv inplace", ip(lambda o: ev(g, CC, pa, o), (nx,)), wwj, P[j:j + 1], g)
                chk("tuple vv inplace", ip(lambda o: ev(g, CC, pt, o), (nx,)), wwj, P[j:j + 1], g)
                try:
                    got = mon.do("spline point diff", es, C, pa, None, diff)
                    mon.true("spline point diff is a tuple of floats", isinstance(got, tuple) and len(got) == 2 and all(isinstance(x, float) for x in got),
                             "got %r" % (got,), key="shape" + kk + "point diff")
                    got = mon.do("spline point vv diff", es, CC, pa, None, diff)
                    typed("spline point vv diff", got, (nx, 2))
                except ApiFailed:
                    pass
            # a batch is the stack of its points (same numbers up to rounding, any batch split)
            if N > 2:
                h = N // 2
                chk("split batch", lambda: np.concatenate([ev(g, C, P[:h]), ev(g, C, P[h:])]), w, P, g)
            chk("spline=linear" if k == 1 else "spline=cubic", lambda: es(CC, P) - ev(g, CC, P), (ww[0] * 0, ww[1]), P, g)

    elif fam == "jit":
        from numba import njit
        LIN, NEA, CON = xo.LINEAR, xo.NEAREST, xo.CONSTANT

        @njit
        def j_batch(g, C, P):
            return ev(g, C, P)

        @njit
        def j_batch_near(g, C, P):
            return ev(g, C, P, NEA)

        @njit
        def j_inplace(g, C, P, o):
            ev(g, C, P, o)

        @njit
        def j_inplace_con(g, C, P, o):
            ev(g, C, P, o, CON)

        @njit
        def j_loop(g, C, P):
            o = np.empty(P.shape[0])
            for i in range(P.shape[0]):
                o[i] = ev(g, C, P[i, :])
            return o

        if k == 1:
            @njit
            def j_spline(g, C, P):
                return eval_spline(g, C, P, out=None, k=1, diff="None", extrap_mode="linear")
        else:
            @njit
            def j_spline(g, C, P):
                return eval_spline(g, C, P, out=None, k=3, diff="None", extrap_mode="linear")

            @njit
            def j_filter(g, V):
                return filter_cubic(g, V)

            @njit
            def j_prefilter(g, V):
                return prefilter(g, V, k=3)

        for i in range(spec["n"]):
            g, P, nx, C, CC, w, ww = case(k, [12, 1, 40, 12, 1, 8000 if d < 3 else 500][i % 6])
            near = ref.evaluate(k, g, C, P, mode="nearest")
            con = ref.evaluate(k, g, CC, P, mode="constant")
            chk("jitted batch", lambda: j_batch(g, C, P), w, P, g)
            chk("jitted batch vv", lambda: j_batch(g, CC, P), ww, P, g)
            chk("jitted batch nearest", lambda: j_batch_near(g, C, P), near, P, g)
            chk("jitted inplace vv", ip(lambda o: j_inplace(g, CC, P, o), ww[0].shape), ww, P, g)
            chk("jitted inplace vv constant", ip(lambda o: j_inplace_con(g, CC, P, o), ww[0].shape), con, P, g)
            chk("jitted loop over points", lambda: j_loop(g, C, P), w, P, g)
            chk("jitted spline", lambda: j_spline(g, CC, P), ww, P, g)
            if k == 3:
                V = gen.values(rng, tuple(x[2] for x in g), "normal")
                want = ref.prefilter(V.shape, V)
                chk("jitted filter_cubic", lambda: j_filter(g, V), (want, 1e-10 * np.abs(V).max()), P, g)
                chk("jitted prefilter", lambda: j_prefilter(g, V), (want, 1e-10 * np.abs(V).max()), P, g)

    elif fam == "legacy":
        from interpolation.splines.eval_cubic import eval_cubic_spline, vec_eval_cubic_spline, eval_cubic_splines, vec_eval_cubic_splines, get_grid
        from interpolation.splines.multilinear_numba import vec_multilinear_interpolation, multilinear_interpolation
        for i in range(spec["n"]):
            N = [20, 1, 0, 60, 3, 7][i % 6]
            k = 3
            kk = "|k3|d%d|" % d
            g, P, nx, C, CC, w, ww = case(3, N)
            a, b, o = np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array([x[2] for x in g])
            chk("legacy vec_eval_cubic_spline", lambda: vec_eval_cubic_spline(a, b, o, C, P), w, P, g)
            chk("legacy vec_eval_cubic_spline inplace", ip(lambda v: vec_eval_cubic_spline(a, b, o, C, P, v), (N,)), w, P, g)
            chk("legacy vec_eval_cubic_splines", lambda: vec_eval_cubic_splines(a, b, o, CC, P), ww, P, g)
            chk("legacy vec_eval_cubic_splines inplace", ip(lambda v: vec_eval_cubic_splines(a, b, o, CC, P, v), (N, nx)), ww, P, g)
            for j in range(min(N, 3)):
                p = P[j].copy()
                chk("legacy eval_cubic_spline", lambda: eval_cubic_spline(a, b, o, C, p), (w[0][j], w[1][j]), P[j:j + 1], g)
                chk("legacy eval_cubic_splines", lambda: eval_cubic_splines(a, b, o, CC, p), (ww[0][j], ww[1][j]), P[j:j + 1], g)
                chk("legacy eval_cubic_splines inplace", ip(lambda v: eval_cubic_splines(a, b, o, CC, p, v), (nx,)), (ww[0][j], ww[1][j]), P[j:j + 1], g)
            k = 1
            kk = "|k1|d%d|" % d
            V, VV = gen.values(rng, tuple(o)), gen.values(rng, tuple(o) + (nx,))
            w, ww = ref.evaluate(1, g, V, P), ref.evaluate(1, g, VV, P)
            chk("legacy multilinear_interpolation", lambda: multilinear_interpolation(a, b, o, V, P), w, P, g)
            chk("legacy multilinear_interpolation inplace", ip(lambda v: multilinear_interpolation(a, b, o, V, P, v), (N,)), w, P, g)
            chk("legacy vec_multilinear_interpolation", lambda: vec_multilinear_interpolation(a, b, o, VV, P), ww, P, g)
            chk("legacy vec_multilinear_interpolation inplace", ip(lambda v: vec_multilinear_interpolation(a, b, o, VV, P, v), (N, nx)), ww, P, g)
            gg = mon.do("get_grid", get_grid, a, b, o, V)
            mon.true("get_grid describes the grid", tuple(tuple(x) for x in gg) == tuple(tuple(x) for x in g), "%s vs %s" % (gg, g), key="legacy get_grid d%d" % d)

    elif fam == "gu":
        from numba import guvectorize, f8

        @guvectorize([(f8[:], f8[:], f8[:, :], f8[:])], "(i),(i),(j,k)->(j)", nopython=True)
        def gu_lin(xs, v, P, out):
            eval_linear((xs,), v, P, out)

        @guvectorize([(f8[:], f8[:], f8[:], f8[:], f8[:])], "(n),(c),(k),(s)->(s)", nopython=True)
        def gu_cub(ab, C, p, dummy, out):
            out[0] = eval_cubic(((ab[0], ab[1], C.shape[0] - 2),), C, p)

        @guvectorize([(f8[:], f8[:, :], f8[:, :], f8[:, :])], "(i),(i,x),(j,k)->(j,x)", nopython=True)
        def gu_vv(xs, v, P, out):
            eval_linear((xs,), v, P, out, xo.NEAREST)

        for i in range(spec["n"]):
            n = int(rng.integers(2, 30))
            x = gen.grid1d(rng, "n", n)
            g = (x,)
            P, _ = gen.points(rng, g, 15, "any")
            V = rng.standard_normal((4, n))
            VV = rng.standard_normal((4, n, 3))
            got = mon.do("guvectorize eval_linear", gu_lin, x, V, P, np.full((4, 15), np.nan))
            for b in range(4):
                w, t = ref.evaluate(1, g, V[b], P)
                mon.close("guvectorized eval_linear", got[b], w, t, key="guvectorize linear", ctx=ctx_points(g, P))
            got = mon.do("guvectorize eval_linear vv", gu_vv, x, VV, P, np.full((4, 15, 3), np.nan))
            for b in range(4):
                w, t = ref.evaluate(1, g, VV[b], P, mode="nearest")
                mon.close("guvectorized eval_linear vv", got[b], w, t, key="guvectorize vv nearest", ctx=ctx_points(g, P))
            gu = (gen.grid1d(rng, "u", n),)
            Q, _ = gen.points(rng, gu, 9, "any")
            C = rng.standard_normal(n + 2)
            got = mon.do("guvectorize eval_cubic", gu_cub, np.array(gu[0][:2]), C, Q, np.zeros((9, 1)))
            w, t = ref.evaluate(3, gu, C, Q)
            mon.close("guvectorized eval_cubic", got[:, 0], w, t, key="guvectorize cubic", ctx=ctx_points(gu, Q))
