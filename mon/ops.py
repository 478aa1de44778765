"""Catalogue of API calls over all parts of the package, used by the purity and determinism monitors.

An op is a dict: name; arrays: list of input arrays; call(arrays) -> result (allocating form) or
call(arrays, outs) with outs: list of output shapes (in-place form); alloc: allocating call giving the same result as the
in-place one; blas: result comes from BLAS/LAPACK or vectorised libm (compared up to rounding).
Functions are looked up by name at call time, as a user's code would."""
import numpy as np
from mon import gen

FAMILIES = ["lin1", "lin2", "lin3", "linstr", "cub1", "cub2", "cubstr", "diff1", "diff3", "interp1", "interp2", "mlinterp", "filter12", "filter3", "filterleg", "grad",
            "difford", "layouts", "hermite", "poly", "polyfit", "smolyak", "smolint", "cart", "objlin", "objcub", "legacy", "basis",
            "special", "smolmap", "smolsets", "confuse", "persist", "rearranged", "large", "minimal"]


def splines():
    import interpolation.splines as S
    return S


def A(g):
    """the array parts of a grid"""
    return [x for x in g if not isinstance(x, tuple)]


def regrid(g, arrs):
    it = iter(arrs)
    return tuple(x if isinstance(x, tuple) else next(it) for x in g)


def evals(rng, pat, k, which, ns, N, nx, scale=None):
    S = splines()
    d = len(pat)
    g = gen.grid(rng, pat, ns, scale)
    na = len(A(g))
    shp = tuple(n + (2 if k == 3 else 0) for n in ns)
    C, CC = gen.values(rng, shp, "normal"), gen.values(rng, shp + (nx,), "normal")
    P, _ = gen.points(rng, g, N, "any")
    ev = lambda *a: (S.eval_linear if k == 1 else S.eval_cubic)(*a)
    nm = "eval_linear" if k == 1 else "eval_cubic"
    O = S.extrap_options
    base = "%s %s " % (nm, pat)
    ar = lambda c, p: A(g) + [c, p]
    go = lambda *opt: (lambda a: ev(regrid(g, a[:na]), a[na], a[na + 1], *opt))
    gi = lambda *opt: (lambda a, o: ev(regrid(g, a[:na]), a[na], a[na + 1], o[0], *opt))
    orders = ((0,) * d,) + tuple(tuple(1 if i == j else 0 for i in range(d)) for j in range(d))
    no = len(orders)
    es = lambda df="None", mode="linear": (lambda a: S.eval_spline(regrid(g, a[:na]), a[na], a[na + 1], out=None, k=k, diff=df, extrap_mode=mode))
    esi = lambda df="None", mode="linear": (lambda a, o: S.eval_spline(regrid(g, a[:na]), a[na], a[na + 1], out=o[0], k=k, diff=df, extrap_mode=mode))
    df = str(orders)
    L = []
    if which == "option":
        for mn, opt in (("linear", O.LINEAR), ("nearest", O.NEAREST), ("constant", O.CONSTANT)):
            L.append(dict(name=base + "batch " + mn, arrays=ar(C, P), call=go(opt)))
            L.append(dict(name=base + "batch vv inplace " + mn, arrays=ar(CC, P), call=gi(opt), outs=[(N, nx)], alloc=go(opt)))
            L.append(dict(name=base + "point vv " + mn, arrays=ar(CC, P[0].copy()), call=go(opt)))
            L.append(dict(name=base + "point vv inplace " + mn, arrays=ar(CC, P[1 % N].copy()), call=gi(opt), outs=[(nx,)], alloc=go(opt)))
        L.append(dict(name=base + "batch default", arrays=ar(C, P), call=go()))
        L.append(dict(name=base + "batch inplace default", arrays=ar(C, P), call=gi(), outs=[(N,)], alloc=go()))
        L.append(dict(name=base + "batch vv default", arrays=ar(CC, P), call=go()))
        L.append(dict(name=base + "point default", arrays=ar(C, P[0].copy()), call=go()))
        L.append(dict(name=base + "empty", arrays=ar(C, P[:0].copy()), call=go()))
    elif which == "string":
        for mn in ("linear", "nearest", "constant"):
            L.append(dict(name=base + "spline batch " + mn, arrays=ar(C, P), call=es(mode=mn)))
            L.append(dict(name=base + "spline batch vv inplace " + mn, arrays=ar(CC, P), call=esi(mode=mn), outs=[(N, nx)], alloc=es(mode=mn)))
        L.append(dict(name=base + "spline point", arrays=ar(C, P[0].copy()), call=es()))
    else:
        for mn in ("linear", "constant") if k == 1 else ("linear",):
            L.append(dict(name=base + "diff batch " + mn, arrays=ar(C, P), call=es(df, mn)))
            L.append(dict(name=base + "diff batch vv inplace " + mn, arrays=ar(CC, P), call=esi(df, mn), outs=[(N, nx, no)], alloc=es(df, mn)))
            L.append(dict(name=base + "diff batch inplace " + mn, arrays=ar(C, P), call=esi(df, mn), outs=[(N, no)], alloc=es(df, mn)))
            L.append(dict(name=base + "diff point vv inplace " + mn, arrays=ar(CC, P[0].copy()), call=esi(df, mn), outs=[(nx, no)], alloc=es(df, mn)))
            L.append(dict(name=base + "diff point inplace " + mn, arrays=ar(C, P[0].copy()), call=esi(df, mn), outs=[(no,)],
                          alloc=lambda a, f=es(df, mn): np.array(f(a))))
            L.append(dict(name=base + "diff point " + mn, arrays=ar(C, P[0].copy()), call=es(df, mn)))
    return L


def ops(family, rng, v=0, small=False):
    """the ops of one family; v selects other data of the same types and shapes"""
    S = splines()
    r = rng
    N, nx = 9, 3
    if family == "lin1":
        return evals(r, "u", 1, "option", [7], N, nx) + evals(r, "n", 1, "option", [6], N, nx)
    if family == "lin2":
        return evals(r, "un", 1, "option", [5, 4], N, nx)
    if family == "lin3":
        return [o for o in evals(r, "uuu", 1, "option", [3, 4, 2], N, nx) if "default" in o["name"] or "constant" in o["name"]]
    if family == "linstr":
        return evals(r, "nu", 1, "string", [4, 5], N, nx)
    if family == "cub1":
        return evals(r, "u", 3, "option", [6], N, nx)
    if family == "cub2":
        return [o for o in evals(r, "uu", 3, "option", [4, 3], N, nx) if "nearest" not in o["name"]]
    if family == "cubstr":
        return evals(r, "u", 3, "string", [5], N, nx)
    if family == "diff1":
        return evals(r, "un", 1, "diff", [4, 5], N, nx) + evals(r, "n", 1, "diff", [5], N, nx)
    if family == "diff3":
        return evals(r, "u", 3, "diff", [5], N, nx)
    if family == "difford":
        # requests that differ only in the list of orders, the order k or the mode
        L = []
        for k, pat, ns, lists in ((1, "uu", [4, 4], (((0, 0), (1, 0)), ((1, 0), (0, 0)), ((0, 1), (0, 0)), ((1, 1), (0, 1)), ((1, 0),), ((0, 1),))),
                                  (1, "u", [6], (((0,), (1,)), ((1,), (0,)), ((1,),))), (3, "u", [4], (((0,), (1,)), ((1,), (0,)), ((1,),)))):
            g = gen.grid(r, pat, ns)
            C = r.standard_normal([n + (2 if k == 3 else 0) for n in ns])
            P, _ = gen.points(r, g, N, "in")
            for df in lists:
                for mode in ("linear", "constant") if df == lists[0] else ("linear",):
                    L.append(dict(name="difford k%d %s %s %s" % (k, pat, df, mode), arrays=[C, P],
                                  call=lambda a, g=g, k=k, df=str(df), mode=mode: S.eval_spline(g, a[0], a[1], out=None, k=k, diff=df, extrap_mode=mode)))
        return L
    if family == "layouts":
        L = []
        for k, pat, ns in ((1, "uu", [4, 5]), (3, "u", [5])):
            g = gen.grid(r, pat, ns)
            C = r.standard_normal([n + (2 if k == 3 else 0) for n in ns])
            P, _ = gen.points(r, g, N, "any")
            for lay, cv in (("CC", lambda x: x), ("FF", np.asfortranarray), ("A", lambda x: np.repeat(x, 2, axis=-1)[..., ::2])):
                L.append(dict(name="layout %s k%d %s" % (lay, k, pat), arrays=[C, P],
                              call=lambda a, g=g, k=k, cv=cv: (S.eval_linear if k == 1 else S.eval_cubic)(g, cv(a[0]), cv(a[1]))))
            if k == 1:
                gi = tuple((int(i), int(i) + 3, n) for i, n in enumerate(ns))
                Ci = r.integers(-9, 9, ns)
                L.append(dict(name="layout ints k1", arrays=[Ci.astype(float), P], call=lambda a, gi=gi: S.eval_linear(tuple((float(x), float(y), n) for x, y, n in gi), a[0], a[1])))
        return L
    if family in ("interp1", "interp2", "mlinterp"):
        import interpolation as I
        L = []
        for pat in {"interp1": ["n", "u"], "interp2": ["nn", "un"], "mlinterp": ["n", "u", "nu", "uun"]}[family]:
            d = len(pat)
            ns = [5, 4, 3][:d]
            g = gen.grid(r, pat, ns)
            na = len(A(g))
            C = r.standard_normal(ns)
            P, _ = gen.points(r, g, N, "any")
            ar = A(g) + [C, P]
            if family == "mlinterp":
                L.append(dict(name="mlinterp %s list" % pat, arrays=ar, call=lambda a, g=g, na=na: I.mlinterp(regrid(g, a[:na]), a[na], a[na + 1])))
                pt = tuple(float(x) for x in P[0])
                L.append(dict(name="mlinterp %s tuple" % pat, arrays=A(g) + [C], call=lambda a, g=g, na=na, pt=pt: I.mlinterp(regrid(g, a[:na]), a[na], pt)))
            else:
                L.append(dict(name="interp %s list" % pat, arrays=ar, call=lambda a, g=g, na=na: I.interp(*regrid(g, a[:na]), a[na], a[na + 1])))
                if d == 1:
                    L.append(dict(name="interp %s array" % pat, arrays=A(g) + [C, P[:, 0].copy()], call=lambda a, g=g, na=na: I.interp(*regrid(g, a[:na]), a[na], a[na + 1])))
                else:
                    L.append(dict(name="interp %s cartesian" % pat, arrays=A(g) + [C, P[:, 0].copy(), P[:4, 1].copy()],
                                  call=lambda a, g=g, na=na: I.interp(*regrid(g, a[:na]), a[na], a[na + 1], a[na + 2])))
                    L.append(dict(name="interp %s point" % pat, arrays=A(g) + [C, P[0].copy()], call=lambda a, g=g, na=na: I.interp(*regrid(g, a[:na]), a[na], a[na + 1])))
                pt = tuple(float(x) for x in P[0])
                L.append(dict(name="interp %s scalars" % pat, arrays=A(g) + [C], call=lambda a, g=g, na=na, pt=pt: I.interp(*regrid(g, a[:na]), a[na], *pt)))
        return L
    if family.startswith("filter"):
        L = []
        for d in {"filter12": (1, 2), "filter3": (3,), "filterleg": (1, 2, 3)}[family]:
            ns = [6, 4, 5][:d]
            g = gen.grid(r, "u" * d, ns)
            V, VV = r.standard_normal(ns), r.standard_normal(ns + [nx])
            sh = tuple(n + 2 for n in ns)
            a_, b_, o_ = np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array(ns)
            if family != "filterleg":
                L.append(dict(name="filter_cubic d%d" % d, arrays=[V], call=lambda a, g=g: S.filter_cubic(g, a[0])))
                L.append(dict(name="filter_cubic vv d%d" % d, arrays=[VV], call=lambda a, g=g: S.filter_cubic(g, a[0])))
                L.append(dict(name="filter_cubic inplace d%d" % d, arrays=[V], call=lambda a, o, g=g: S.filter_cubic(g, a[0], o[0]), outs=[sh], alloc=lambda a, g=g: S.filter_cubic(g, a[0])))
                L.append(dict(name="filter_cubic vv inplace d%d" % d, arrays=[VV], call=lambda a, o, g=g: S.filter_cubic(g, a[0], o[0]), outs=[sh + (nx,)],
                              alloc=lambda a, g=g: S.filter_cubic(g, a[0])))
                L.append(dict(name="prefilter d%d" % d, arrays=[V], call=lambda a, g=g: S.prefilter(g, a[0], k=3)))
                L.append(dict(name="prefilter inplace d%d" % d, arrays=[V], call=lambda a, o, g=g: S.prefilter(g, a[0], o[0], k=3), outs=[sh], alloc=lambda a, g=g: S.prefilter(g, a[0], k=3)))
                L.append(dict(name="prefilter k=1 d%d" % d, arrays=[V], call=lambda a, g=g: S.prefilter(g, a[0], k=1), alias=True))
            else:
                def fc(a):
                    from interpolation.splines.filter_cubic import filter_coeffs
                    return filter_coeffs(a[0], a[1], a[2], a[3])

                def fm(a):
                    from interpolation.splines.filter_cubic import filter_mcoeffs
                    return filter_mcoeffs(a[0], a[1], a[2], a[3])
                L.append(dict(name="filter_coeffs d%d" % d, arrays=[a_, b_, o_, V], call=fc))
                L.append(dict(name="filter_mcoeffs d%d" % d, arrays=[a_, b_, o_, VV], call=fm))
        return L
    if family == "grad":
        L = []

        def G(a, o=()):
            from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
            return vec_eval_cubic_splines_G(a[0], a[1], a[2], a[3], a[4], *o)
        for d in (1, 2):
            ns = [5, 4][:d]
            g = gen.grid(r, "u" * d, ns)
            CC = r.standard_normal([n + 2 for n in ns] + [nx])
            P, _ = gen.points(r, g, N, "any")
            ar = [np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array(ns), CC, P]
            L.append(dict(name="gradient d%d" % d, arrays=ar, call=G))
            L.append(dict(name="gradient inplace d%d" % d, arrays=ar, call=G, outs=[(N, nx), (N, d, nx)], alloc=G))
        return L
    if family == "hermite":
        from interpolation.splines import hermite as H
        x = gen.grid1d(r, "n", 7)
        y, yp = r.standard_normal(7), r.standard_normal(7)
        p = np.sort(r.uniform(x[0] - 1, x[-1] + 1, N))
        return [dict(name="HermiteInterpolationVect", arrays=[p, x, y, yp], call=lambda a: H.HermiteInterpolationVect(*a)),
                dict(name="HermiteInterpolation", arrays=[x, y, yp], call=lambda a, q=float(r.uniform(x[0], x[-1])): H.HermiteInterpolation(q, *a))]
    if family == "poly":
        import interpolation.complete_poly as C
        L = []
        for n in (1, 3):
            z, zv = r.standard_normal((n, 5)), r.standard_normal(n)
            for deg in (0, 1, 2, 3, 4, 5):
                L.append(dict(name="complete_polynomial n%d deg%d" % (n, deg), arrays=[z], call=lambda a, deg=deg: C.complete_polynomial(a[0], deg)))
                L.append(dict(name="complete_polynomial vec n%d deg%d" % (n, deg), arrays=[zv], call=lambda a, deg=deg: C.complete_polynomial(a[0], deg)))
                L.append(dict(name="complete_polynomial_der n%d deg%d" % (n, deg), arrays=[z], call=lambda a, deg=deg, n=n: C.complete_polynomial_der(a[0], deg, n - 1)))
                L.append(dict(name="complete_polynomial_der vec n%d deg%d" % (n, deg), arrays=[zv], call=lambda a, deg=deg: C.complete_polynomial_der(a[0], deg, 0)))
        L.append(dict(name="n_complete", arrays=[], call=lambda a: [C.n_complete(n, m) for n in range(1, 7) for m in range(6)]))
        return L
    if family == "polyfit":
        import interpolation.complete_poly as C

        def fit(a, damp=0.0):
            cp = C.CompletePolynomial(2, 3)
            cp.fit_values(a[0], a[1])
            if damp:
                cp.fit_values(a[0], a[2], damp=damp)
            return [cp.coefs, cp(a[3]), cp.der(a[3], 1)]
        s, q = r.standard_normal((40, 2)), r.standard_normal((6, 2))

        def wide(a):
            cp = C.CompletePolynomial(3, 2)
            cp.fit_values(a[0], a[1])
            return [cp(a[2]), cp.der(a[2], 0), cp.der(a[2], 2)]
        return [dict(name="CompletePolynomial damped", arrays=[s, r.standard_normal(40), r.standard_normal(40), q], call=lambda a: fit(a, 0.25), blas=True),
                dict(name="CompletePolynomial vector", arrays=[s, r.standard_normal((40, 2)), r.standard_normal((40, 2)), q], call=fit, blas=True),
                dict(name="CompletePolynomial one column", arrays=[s, r.standard_normal((40, 1)), r.standard_normal((40, 1)), q], call=lambda a: fit(a, 0.5), blas=True),
                dict(name="CompletePolynomial F-ordered", arrays=[np.asfortranarray(s), np.asfortranarray(r.standard_normal((40, 3))), np.asfortranarray(r.standard_normal((40, 3))), np.asfortranarray(q)],
                     call=lambda a: fit(a, 0.5), blas=True),
                dict(name="CompletePolynomial three variables", arrays=[r.standard_normal((10, 3)), r.standard_normal((10, 2)), r.standard_normal((5, 3))], call=wide, blas=True),
                dict(name="CompletePolynomial scalar", arrays=[s, r.standard_normal(40), r.standard_normal(40), q], call=fit, blas=True),
                dict(name="CompletePolynomial vector damped", arrays=[s, r.standard_normal((40, 3)), r.standard_normal((40, 3)), q], call=lambda a: fit(a, 0.3), blas=True)]
    if family == "smolyak":
        import interpolation.smolyak as M
        from interpolation.smolyak import grid as MG
        L = []
        for tag, d, mu, in (("2,2", 2, 2), ("3,1", 3, 1), ("2,[1,3]", 2, np.array([1, 3])), ("3,[2,1,2]", 3, np.array([2, 1, 2]))):
            lb, ub = r.uniform(-2, -1, d), r.uniform(1, 3, d)
            marr = [] if isinstance(mu, int) else [mu]

            def mk(a, d=d, mu=mu):
                g = M.SmolyakGrid(d, mu if isinstance(mu, int) else a[2], a[0], a[1])
                return [g.grid, g.cube_grid, g.B, g.B_L, g.B_U, g.lb + 0.0, g.ub + 0.0]
            L.append(dict(name="SmolyakGrid " + tag, arrays=[lb, ub] + marr, call=mk, blas=True))
            pts = r.uniform(-1, 1, (7, d))
            L.append(dict(name="build_B " + tag, arrays=[pts] + marr, call=lambda a, d=d, mu=mu: list(MG.build_B(d, mu if isinstance(mu, int) else a[1], a[0], deriv=True)), blas=True))
            L.append(dict(name="smol_inds " + tag, arrays=marr, call=lambda a, d=d, mu=mu: sorted([list(map(int, x)) for x in M.smol_inds(d, mu if isinstance(mu, int) else a[0])])))
            L.append(dict(name="build_grid " + tag, arrays=marr, call=lambda a, d=d, mu=mu: M.build_grid(d, mu if isinstance(mu, int) else a[0]), blas=True))
        return L
    if family == "smolint":
        import interpolation.smolyak as M
        L = []
        for tag, d, mu in (("2,3", 2, 3), ("3,[1,2,2]", 3, [1, 2, 2])):
            lb, ub = r.uniform(-2, -1, d), r.uniform(1, 3, d)
            n = M.SmolyakGrid(d, mu).grid.shape[0]
            f1, f2 = r.standard_normal(n), r.standard_normal(n)
            pts = lb + (ub - lb) * r.random((8, d))

            def go(a, d=d, mu=mu):
                sg = M.SmolyakGrid(d, mu, a[0], a[1])
                si = M.SmolyakInterp(sg, a[2])
                r1 = si.interpolate(a[4], True, True, True, True)
                si.update_theta(a[3])
                return list(r1) + [si.interpolate(a[4]), si.theta]
            L.append(dict(name="SmolyakInterp " + tag, arrays=[lb, ub, f1, f2, pts], call=go, blas=True))
        return L
    if family == "cart":
        from interpolation import cartesian as K
        L = []
        arrs = [r.standard_normal(3), r.standard_normal(2), r.standard_normal(4)]
        for o in "CF":
            L.append(dict(name="cartesian " + o, arrays=arrs, call=lambda a, o=o: K.cartesian(a, o)))
            L.append(dict(name="cartesian 2 " + o, arrays=arrs[1:], call=lambda a, o=o: K.cartesian(a, o)))
            L.append(dict(name="mlinspace " + o, arrays=[np.array([0.0, -1.0]), np.array([1.0, 2.0]), np.array([3, 4])], call=lambda a, o=o: K.mlinspace(a[0], a[1], a[2], o)))
        x = np.sort(r.standard_normal(5))
        L.append(dict(name="nodes CGrid", arrays=[x], call=lambda a: S.nodes(S.CGrid((0.0, 1.0, 3), a[0]))))
        L.append(dict(name="nodes UCGrid", arrays=[], call=lambda a: S.nodes(S.UCGrid((0.0, 1.0, 3), (-2.0, 1.5, 4)))))
        return L
    if family in ("objlin", "objcub"):
        L = []
        lin = family == "objlin"
        for d in (1, 2):
            ns = [5, 4][:d]
            lo, hi = r.uniform(-2, -1, d), r.uniform(1, 2, d)
            V, VV = r.standard_normal(ns), r.standard_normal(ns + [nx])
            P = r.uniform(-3, 3, (N, d))

            def one(a, lin=lin):
                s = (S.LinearSpline if lin else S.CubicSpline)(a[0], a[1], a[2], a[3])
                return [s(a[4]), s(a[4][0]), s.grid]

            def many(a, lin=lin):
                s = (S.LinearSplines if lin else S.CubicSplines)(a[0], a[1], a[2], a[3])
                R = [s(a[4]), s(a[4][0]), s.grid]
                if not lin:
                    R += s.interpolate(a[4], diff=True)
                return R
            L.append(dict(name="%sSpline d%d" % (family[3:], d), arrays=[lo, hi, np.array(ns), V, P], call=one))
            L.append(dict(name="%sSplines d%d" % (family[3:], d), arrays=[lo, hi, np.array(ns), VV, P], call=many))
        return L
    if family == "legacy":
        L = []
        for d in (1, 2):
            ns = [5, 4][:d]
            g = gen.grid(r, "u" * d, ns)
            sh = tuple(n + 2 for n in ns)
            C, CC, V, VV = r.standard_normal(sh), r.standard_normal(sh + (nx,)), r.standard_normal(ns), r.standard_normal(ns + [nx])
            P, _ = gen.points(r, g, N, "any")
            pre = [np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array(ns)]

            def cub(name):
                def f(a, o=()):
                    import interpolation.splines.eval_cubic  # noqa
                    import sys
                    return getattr(sys.modules["interpolation.splines.eval_cubic"], name)(*a, *o)
                return f

            def mul(name):
                def f(a, o=()):
                    from interpolation.splines import multilinear_numba as m
                    return getattr(m, name)(*a, *o)
                return f
            for nm, c, f, out in (("vec_eval_cubic_spline", C, cub, (N,)), ("vec_eval_cubic_splines", CC, cub, (N, nx)),
                                  ("multilinear_interpolation", V, mul, (N,)), ("vec_multilinear_interpolation", VV, mul, (N, nx))):
                L.append(dict(name="%s d%d" % (nm, d), arrays=pre + [c, P], call=f(nm)))
                L.append(dict(name="%s inplace d%d" % (nm, d), arrays=pre + [c, P], call=f(nm), outs=[out], alloc=f(nm)))
            L.append(dict(name="eval_cubic_spline d%d" % d, arrays=pre + [C, P[0].copy()], call=cub("eval_cubic_spline")))
            L.append(dict(name="eval_cubic_splines inplace d%d" % d, arrays=pre + [CC, P[0].copy()], call=cub("eval_cubic_splines"), outs=[(nx,)], alloc=cub("eval_cubic_splines")))
        return L
    if family == "basis":
        from interpolation.splines import basis_splines as Bs
        u = np.cumsum(r.uniform(0.2, 1, 9))
        xs = r.uniform(u[0], u[-1], 6)
        return [dict(name="B p%d" % p, arrays=[u], call=lambda a, p=p: [Bs.B(p, a[0], i, float(x)) for i in range(8 - p) for x in xs]) for p in range(4)]
    if family == "special":
        # data with zeros: a zero component, all zeros, constants (work that looks avoidable)
        L = []
        for k, pat, ns in ((1, "un", [4, 3]), (3, "u", [5])):
            g = gen.grid(r, pat, ns)
            d = len(pat)
            shp = [n + (2 if k == 3 else 0) for n in ns]
            P, _ = gen.points(r, g, N, "any")
            ev = lambda *a, k=k: (S.eval_linear if k == 1 else S.eval_cubic)(*a)
            one = r.standard_normal(shp + [nx])
            one[..., int(r.integers(nx))] = 0.0
            two = r.standard_normal(shp + [nx])
            two[0] = 0.0
            for tag, CC in (("zero component", one), ("zero row", two), ("all zero", np.zeros(shp + [nx])), ("constant", np.full(shp + [nx], float(r.standard_normal())))):
                nm = "eval_%s %s " % ("linear" if k == 1 else "cubic", tag)
                go = lambda a, g=g, ev=ev: ev(g, a[0], a[1])
                gi = lambda a, o, g=g, ev=ev: ev(g, a[0], a[1], o[0])
                L.append(dict(name=nm + "batch", arrays=[CC, P], call=go))
                L.append(dict(name=nm + "batch inplace", arrays=[CC, P], call=gi, outs=[(N, nx)], alloc=go))
                L.append(dict(name=nm + "point inplace", arrays=[CC, P[0].copy()], call=gi, outs=[(nx,)], alloc=go))
                df = str(((0,) * d, (1,) + (0,) * (d - 1)))
                es = lambda a, o=None, g=g, k=k, df=df: S.eval_spline(g, a[0], a[1], out=o, k=k, diff=df, extrap_mode="linear")
                L.append(dict(name=nm + "diff inplace", arrays=[CC, P], call=lambda a, o, es=es: es(a, o[0]), outs=[(N, nx, 2)], alloc=es))
                if k == 1:
                    L.append(dict(name=nm + "constant extrapolation inplace", arrays=[CC, P], call=lambda a, o, g=g: S.eval_linear(g, a[0], a[1], o[0], S.extrap_options.CONSTANT), outs=[(N, nx)],
                                  alloc=lambda a, g=g: S.eval_linear(g, a[0], a[1], S.extrap_options.CONSTANT)))
                else:
                    V = np.ascontiguousarray(CC[1:-1])
                    fc = lambda a, g=g: S.filter_cubic(g, a[0])
                    L.append(dict(name=nm + "filter_cubic", arrays=[V], call=fc))
                    L.append(dict(name=nm + "filter_cubic inplace", arrays=[V], call=lambda a, o, g=g: S.filter_cubic(g, a[0], o[0]), outs=[tuple(shp) + (nx,)], alloc=fc))
                    L.append(dict(name=nm + "prefilter inplace", arrays=[V], call=lambda a, o, g=g: S.prefilter(g, a[0], o[0], k=3), outs=[tuple(shp) + (nx,)], alloc=fc))
                    pre = [np.array([g[0][0]]), np.array([g[0][1]]), np.array(ns)]

                    def G(a, o=()):
                        from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
                        return vec_eval_cubic_splines_G(*a, *o)
                    L.append(dict(name=nm + "gradient inplace", arrays=pre + [CC, P], call=G, outs=[(N, nx), (N, d, nx)], alloc=G))
        return L
    if family == "smolmap":
        # grids on the reference cube (the default), on scalar bounds, and on boxes
        import interpolation.smolyak as M
        L = []
        d = 3
        pts = r.uniform(-1, 1, (7, d))
        f = r.standard_normal(25)
        lb, ub = r.uniform(-2, -1, d), r.uniform(1, 3, d)
        for tag, bounds in (("default", None), ("scalar", (-1.0, 1.0)), ("unit arrays", (-np.ones(d), np.ones(d))), ("box", (lb, ub))):
            arr = list(bounds) if bounds and isinstance(bounds[0], np.ndarray) else []
            sc = bounds if bounds and not arr else ()
            mk = lambda a, arr=arr, sc=sc: M.SmolyakGrid(d, 2, *(a[:2] if arr else sc))
            na = len(arr)
            L.append(dict(name="SmolyakGrid map " + tag, arrays=arr + [pts, pts.copy()], call=lambda a, mk=mk, na=na: (lambda g: [g.dom2cube(a[na]), g.cube2dom(a[na + 1])])(mk(a)), blas=True))
            L.append(dict(name="SmolyakGrid nodes " + tag, arrays=arr, call=lambda a, mk=mk: (lambda g: [g.grid, g.cube_grid])(mk(a)), blas=True))
            L.append(dict(name="SmolyakInterp on " + tag, arrays=arr + [f, pts], blas=True,
                          call=lambda a, mk=mk, na=na: (lambda s: [s.interpolate(a[na + 1]), s.interpolate(a[na + 1], False, True), s.interpolate(a[na + 1], False, False, True), s.theta])(M.SmolyakInterp(mk(a), a[na]))))
            L.append(dict(name="find_theta " + tag, arrays=arr + [f], call=lambda a, mk=mk, na=na: M.interp.find_theta(mk(a), a[na]), blas=True))
        return L
    if family == "smolsets":
        import interpolation.smolyak as M
        from interpolation.smolyak import grid as MG
        L = []
        srt = lambda x: sorted([list(map(int, y)) for y in x])
        for d, mus in ((4, (3, [3, 1, 3, 2], [3, 3, 1, 2], [3, 3, 3, 3], 2, [1, 2, 2, 1])), (6, (4, [4, 4, 4, 4, 4, 1], [1, 1, 2, 1, 4, 3])), (3, (5, [5, 2, 3], [2, 5, 3]))):
            for mu in mus:
                m = mu if isinstance(mu, int) else np.array(mu)
                arr = [] if isinstance(mu, int) else [m]
                pick = lambda a, mu=mu: mu if isinstance(mu, int) else a[0]
                L.append(dict(name="smol_inds big %d %s" % (d, mu), arrays=arr, call=lambda a, d=d, pick=pick: srt(M.smol_inds(d, pick(a)))))
                L.append(dict(name="build_grid big %d %s" % (d, mu), arrays=arr, call=lambda a, d=d, pick=pick: M.build_grid(d, pick(a)), blas=True))
                L.append(dict(name="poly_inds big %d %s" % (d, mu), arrays=arr, call=lambda a, d=d, pick=pick: srt(MG.poly_inds(d, pick(a)))))
            L.append(dict(name="num_grid_points %d" % d, arrays=[], call=lambda a, d=d: [int(M.num_grid_points(d, m)) for m in (1, 2, 3)]))
        x = r.uniform(-1, 1, (3, 4))
        for n in (1, 2, 5, 9):
            L.append(dict(name="cheby2n %d" % n, arrays=[x], call=lambda a, n=n: MG.cheby2n(a[0], n), blas=True))
        for n in (2, 3, 4, 5):
            L.append(dict(name="chains %d" % n, arrays=[], call=lambda a, n=n: [[list(map(float, MG.a_chain(n)[i])) for i in range(1, n + 1)], [[int(q) for q in MG.phi_chain(n)[i]] for i in range(1, n + 1)]]))
        return L
    if family == "confuse":
        # different arguments that agree in much: same bounds, same end points, same sums, same sizes
        from interpolation import cartesian as K
        from interpolation.splines import basis_splines as Bs
        from interpolation.splines import hermite as H
        import interpolation as I
        L = []
        lo, hi = np.array([0.0, -1.0]), np.array([1.0, 2.0])
        for tag, ns, l, h in (("a", [3, 4], lo, hi), ("b", [4, 3], lo, hi), ("c", [3, 4], lo, hi + [0.0, 1.0]), ("d", [2, 6], lo, hi), ("e", [6, 2], lo, hi), ("f", [3, 4], lo[::-1].copy(), hi[::-1].copy())):
            V, VV = r.standard_normal(ns), r.standard_normal(ns + [nx])
            P = r.uniform(-2, 3, (N, 2))
            g = tuple((float(l[i]), float(h[i]), ns[i]) for i in range(2))
            n_ = np.array(ns)
            L.append(dict(name="mlinspace like " + tag, arrays=[l.copy(), h.copy(), n_], call=lambda a: [K.mlinspace(*a), K.mlinspace(*a, "F")]))
            L.append(dict(name="nodes like " + tag, arrays=[], call=lambda a, g=g: S.nodes(S.UCGrid(*g))))
            for nm, data in (("LinearSpline", V), ("CubicSpline", V), ("LinearSplines", VV), ("CubicSplines", VV)):
                L.append(dict(name="%s like %s" % (nm, tag), arrays=[l.copy(), h.copy(), n_, data, P], call=lambda a, nm=nm: (lambda s: [np.array(s.grid), s(a[4])])(getattr(S, nm)(*a[:4]))))
            L.append(dict(name="filter_cubic like " + tag, arrays=[V], call=lambda a, g=g: S.filter_cubic(g, a[0])))
            L.append(dict(name="eval_linear like " + tag, arrays=[V, P], call=lambda a, g=g: S.eval_linear(g, a[0], a[1])))
            L.append(dict(name="cartesian like " + tag, arrays=[np.linspace(0, 1, ns[0]), np.linspace(0, 1, ns[1]) ** 2], call=lambda a: [K.cartesian(a), K.cartesian(a, "F")]))
        u0 = np.arange(9.0)
        xs = [float(x) for x in r.uniform(0.1, 7.9, 5)] + [3.0]
        for t in range(4):
            u = u0.copy()
            inner = r.choice(np.arange(1, 8), 2 + t, replace=False)
            if t:
                u[inner] += r.uniform(-0.4, 0.4, len(inner))
            for p in range(6):
                L.append(dict(name="B like %d p%d" % (t, p), arrays=[u], call=lambda a, p=p: [Bs.B(p, a[0], i, x) for i in range(8 - p) for x in xs]))
            y = r.standard_normal(9)
            L.append(dict(name="interp like %d" % t, arrays=[u, y, np.array(xs)], call=lambda a: I.interp(*a)))
            L.append(dict(name="Hermite like %d" % t, arrays=[np.array(xs), u, y, y[::-1].copy()], call=lambda a: H.HermiteInterpolationVect(*a)))
            L.append(dict(name="eval_linear irregular like %d" % t, arrays=[u, y, np.array(xs)[:, None].copy()], call=lambda a: S.eval_linear((a[0],), a[1], a[2])))
        return L
    if family == "rearranged":
        # the same numbers in another arrangement: equal sums, norms, extremes, end points, shapes
        import interpolation as I
        import interpolation.smolyak as M
        import interpolation.complete_poly as C
        from interpolation.splines import hermite as H
        L = []

        def forms(x):
            """arrangements of one data set"""
            x = np.asarray(x)
            f = x.ravel()
            i, j = (int(q) for q in r.choice(np.arange(1, f.size - 1), 2, replace=False)) if f.size > 3 else (0, 1)
            while f.size > 3 and f[i] == np.abs(f).max():
                i = i % (f.size - 2) + 1
            sw = f.copy()
            sw[[i, j]] = sw[[j, i]]
            mid = f.copy()
            mid[1:-1] = mid[1:-1][::-1]
            sg = f.copy()
            sg[i] = -sg[i]
            cy = f.copy()
            cy[1:] += cy[1:].mean() - cy[1:][::-1]  # same mean
            out = [("itself", f), ("swap", sw), ("reversed", f[::-1]), ("inner reversed", mid), ("negated", -f), ("doubled", 2 * f), ("one sign", sg), ("sorted", np.sort(f)), ("same mean", cy), ("shifted", np.roll(f, 1))]
            out = [(t, y.reshape(x.shape).copy()) for t, y in out]
            if x.ndim >= 2 and x.shape[0] == x.shape[1]:
                out.append(("transposed", np.ascontiguousarray(np.swapaxes(x, 0, 1))))
            return out

        def add(name, data, call, blas=False, extra=()):
            for t, y in forms(data):
                L.append(dict(name="%s, data %s" % (name, t), arrays=[y] + [np.array(e) for e in extra], call=call, blas=blas))
        lo, hi = np.array([0.0, -1.0]), np.array([1.0, 2.0])
        n2 = np.array([4, 4])
        g1, g2 = ((0.0, 2.0, 6),), tuple((float(lo[i]), float(hi[i]), 4) for i in range(2))
        P1, P2 = r.uniform(-1, 3, (N, 1)), r.uniform(-2, 3, (N, 2))
        z = np.cumsum(r.uniform(0.1, 1, 6))
        add("filter_cubic d1", r.standard_normal(6), lambda a: S.filter_cubic(g1, a[0]))
        add("filter_cubic d2", r.standard_normal((4, 4)), lambda a: S.filter_cubic(g2, a[0]))

        def legacy(a, f):
            import importlib
            return getattr(importlib.import_module("interpolation.splines.filter_cubic"), f)(lo, hi, n2, a[0])
        add("filter_coeffs", r.standard_normal((4, 4)), lambda a: legacy(a, "filter_coeffs"))
        add("filter_mcoeffs", r.standard_normal((4, 4, 2)), lambda a: legacy(a, "filter_mcoeffs"))
        for nm in ("LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"):
            add(nm, r.standard_normal([4, 4] + ([2] if nm.endswith("s") else [])), lambda a, nm=nm: getattr(S, nm)(lo, hi, n2, a[0])(a[1]), extra=[P2])
        add("eval_linear", r.standard_normal((4, 4)), lambda a: S.eval_linear(g2, a[0], a[1]), extra=[P2])
        add("eval_cubic", r.standard_normal((6, 6)), lambda a: S.eval_cubic(g2, a[0], a[1]), extra=[P2])
        add("eval_linear points", P2[:8], lambda a: S.eval_linear(g2, a[1], a[0]), extra=[r.standard_normal((4, 4))])
        add("mlinterp", r.standard_normal((4, 4)), lambda a: I.mlinterp(g2, a[0], a[1]), extra=[P2])
        add("interp", r.standard_normal(6), lambda a: I.interp(a[1], a[0], a[2]), extra=[z, P1[:, 0]])
        add("HermiteInterpolationVect", r.standard_normal(6), lambda a: H.HermiteInterpolationVect(a[2], a[1], a[0], a[3]), extra=[z, r.uniform(0, 4, N), r.standard_normal(6)])
        add("complete_polynomial", r.standard_normal((3, 3)), lambda a: [C.complete_polynomial(a[0], 3), C.complete_polynomial_der(a[0], 3, 1)])

        def fit(a):
            c = C.CompletePolynomial(2, 2)
            c.fit_values(a[1], a[0])
            return [c(a[2]), c.der(a[2], 1)]
        add("CompletePolynomial", r.standard_normal(12), fit, blas=True, extra=[r.standard_normal((12, 2)), P2])
        add("SmolyakInterp", r.standard_normal(13), lambda a: list(M.SmolyakInterp(M.SmolyakGrid(2, 2, lo, hi), a[0]).interpolate(a[1], True, True)), blas=True, extra=[P2])
        add("SmolyakInterp points", r.uniform(-1, 1, (4, 2)), lambda a: list(M.SmolyakInterp(M.SmolyakGrid(2, 2), a[1]).interpolate(a[0], True, True)), blas=True, extra=[r.standard_normal(13)])
        return L
    if family == "large":
        # batches and tables of sizes at which implementations switch strategy
        import interpolation as I
        import interpolation.smolyak as M
        import interpolation.complete_poly as C
        from interpolation import cartesian as K
        from interpolation.splines import hermite as H
        from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
        L = []
        lo, hi = np.array([0.0, -1.0]), np.array([1.0, 2.0])
        g1, g2 = ((0.0, 2.0, 200),), ((0.0, 1.0, 24), (-1.0, 2.0, 17))
        n2 = np.array([24, 17])
        z = np.cumsum(r.uniform(0.1, 1, 150))
        V1, V2, W2 = r.standard_normal(200), r.standard_normal((24, 17)), r.standard_normal((24, 17, 3))
        Z = r.standard_normal(150)
        for m in (64, 1000):
            P1, P2 = r.uniform(-1, 3, (m, 1)), r.uniform(-2, 3, (m, 2))
            q = r.uniform(-5, z[-1] + 5, m)
            t = " %d" % m
            L.append(dict(name="large eval_linear d1" + t, arrays=[V1, P1], call=lambda a: S.eval_linear(g1, a[0], a[1])))
            L.append(dict(name="large eval_linear irregular" + t, arrays=[Z, q[:, None].copy()], call=lambda a: S.eval_linear((z,), a[0], a[1])))
            L.append(dict(name="large eval_linear vv" + t, arrays=[W2, P2], call=lambda a: S.eval_linear(g2, a[0], a[1])))
            L.append(dict(name="large eval_cubic d1" + t, arrays=[r.standard_normal(202), P1], call=lambda a: S.eval_cubic(g1, a[0], a[1])))
            L.append(dict(name="large eval_spline diff" + t, arrays=[V1, P1], call=lambda a: S.eval_spline(g1, a[0], a[1], out=None, k=1, diff="((0,),(1,))", extrap_mode="linear")))
            L.append(dict(name="large interp" + t, arrays=[z, Z, q], call=lambda a: I.interp(*a)))
            L.append(dict(name="large mlinterp" + t, arrays=[V2, P2], call=lambda a: I.mlinterp(g2, a[0], a[1])))
            L.append(dict(name="large hermite" + t, arrays=[q, z, Z, Z[::-1].copy()], call=lambda a: H.HermiteInterpolationVect(*a)))
            for nm in ("LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"):
                L.append(dict(name="large %s%s" % (nm, t), arrays=[W2 if nm.endswith("s") else V2, P2], call=lambda a, nm=nm: getattr(S, nm)(lo, hi, n2, a[0])(a[1])))
            for deg in range(1, 6):
                z2, z3 = r.standard_normal((2, m)), r.standard_normal((3, m))
                L.append(dict(name="large complete_polynomial deg%d%s" % (deg, t), arrays=[z2], call=lambda a, deg=deg: C.complete_polynomial(a[0], deg)))
                L.append(dict(name="large complete_polynomial 3 deg%d%s" % (deg, t), arrays=[z3], call=lambda a, deg=deg: C.complete_polynomial(a[0], deg)))
                L.append(dict(name="large complete_polynomial_der deg%d%s" % (deg, t), arrays=[z2], call=lambda a, deg=deg: C.complete_polynomial_der(a[0], deg, 1)))

                def fit(a, deg=deg):
                    c = C.CompletePolynomial(2, deg)
                    c.fit_values(a[0], a[1])
                    return [c(a[2]), c.der(a[2], 0)]
                if deg in (2, 4):
                    L.append(dict(name="large CompletePolynomial deg%d%s" % (deg, t), arrays=[r.standard_normal((m, 2)), r.standard_normal(m), P2], call=fit, blas=True))
            L.append(dict(name="large SmolyakInterp" + t, arrays=[r.standard_normal(65), r.uniform(-1, 1, (m, 2))], call=lambda a: list(M.SmolyakInterp(M.SmolyakGrid(2, 4), a[0]).interpolate(a[1], True, True)), blas=True))
            L.append(dict(name="large cartesian" + t, arrays=[r.standard_normal(m), r.standard_normal(3)], call=lambda a: [K.cartesian(a), K.cartesian(a, order="F")]))
        for nm in ("LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"):
            def update(a, nm=nm):
                o = getattr(S, nm)(lo, hi, n2, a[0])
                r1 = o(a[2])
                o.set_values(a[1])
                return [r1, o(a[2])]
            L.append(dict(name="large %s updated" % nm, arrays=[r.standard_normal((24, 17) + ((2,) if nm.endswith("s") else ())) for _ in range(2)] + [r.uniform(-2, 3, (30, 2))], call=update))

        def smol(a):
            it = M.SmolyakInterp(M.SmolyakGrid(2, 6), a[0])
            r1 = it.interpolate(a[2])
            it.update_theta(a[1])
            return [np.array(r1), it.interpolate(a[2])]
        L.append(dict(name="large SmolyakInterp updated", arrays=[r.standard_normal(321), r.standard_normal(321), r.uniform(-1, 1, (5, 2))], call=smol, blas=True))
        L.append(dict(name="large filter d1", arrays=[V1], call=lambda a: S.filter_cubic(g1, a[0])))
        L.append(dict(name="large filter d2", arrays=[V2], call=lambda a: S.filter_cubic(g2, a[0])))
        L.append(dict(name="large filter vv", arrays=[W2], call=lambda a: S.filter_cubic(g2, a[0])))
        L.append(dict(name="large gradient", arrays=[r.standard_normal((42, 2)), r.uniform(-1, 3, (300, 1))], call=lambda a: list(vec_eval_cubic_splines_G(np.array([0.0]), np.array([2.0]), np.array([40]), a[0], a[1]))))
        return L
    if family == "minimal":
        # the smallest admissible sizes: one dimension, one point, one component, one row, two nodes, degree 0 and 1
        import interpolation as I
        import interpolation.smolyak as M
        import interpolation.complete_poly as C
        from interpolation import cartesian as K
        from interpolation.splines import hermite as H
        from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
        L = []
        for o in "CF":
            L.append(dict(name="cartesian of one " + o, arrays=[r.standard_normal(4)], call=lambda a, o=o: K.cartesian(a, o)))
            L.append(dict(name="cartesian of one node " + o, arrays=[r.standard_normal(1)], call=lambda a, o=o: K.cartesian(a, o)))
            L.append(dict(name="cartesian with single nodes " + o, arrays=[r.standard_normal(1), r.standard_normal(5), r.standard_normal(1)], call=lambda a, o=o: K.cartesian(a, o)))
            L.append(dict(name="cartesian of integers " + o, arrays=[np.arange(4)], call=lambda a, o=o: K.cartesian(a, o)))
            L.append(dict(name="mlinspace of one " + o, arrays=[np.array([0.5]), np.array([2.0]), np.array([4])], call=lambda a, o=o: K.mlinspace(*a, o)))
        x2, x5 = np.array([-1.0, 2.5]), np.sort(r.standard_normal(5))
        L.append(dict(name="nodes of one", arrays=[x5], call=lambda a: S.nodes(S.CGrid(a[0]))))
        L.append(dict(name="nodes of one regular", arrays=[], call=lambda a: S.nodes(S.UCGrid((0.0, 1.5, 2)))))
        p1 = np.array([[0.4]])
        V2, W1 = r.standard_normal(2), r.standard_normal((2, 1))
        g = ((0.0, 1.0, 2),)
        ev = S.eval_linear
        L.append(dict(name="eval_linear minimal", arrays=[V2, p1], call=lambda a: ev(g, a[0], a[1])))
        L.append(dict(name="eval_linear minimal irregular", arrays=[x2, V2, p1], call=lambda a: ev((a[0],), a[1], a[2])))
        L.append(dict(name="eval_linear minimal vv", arrays=[W1, p1], call=lambda a: ev(g, a[0], a[1])))
        L.append(dict(name="eval_linear minimal vv point", arrays=[W1, p1[0].copy()], call=lambda a: ev(g, a[0], a[1])))
        L.append(dict(name="eval_linear empty batch", arrays=[V2, np.zeros((0, 1))], call=lambda a: ev(g, a[0], a[1])))
        L.append(dict(name="eval_cubic minimal", arrays=[r.standard_normal(4), p1], call=lambda a: S.eval_cubic(g, a[0], a[1])))
        L.append(dict(name="eval_cubic minimal vv", arrays=[r.standard_normal((4, 1)), p1], call=lambda a: S.eval_cubic(g, a[0], a[1])))
        L.append(dict(name="filter_cubic minimal", arrays=[V2], call=lambda a: S.filter_cubic(g, a[0])))
        L.append(dict(name="filter_cubic minimal vv", arrays=[W1], call=lambda a: S.filter_cubic(g, a[0])))
        L.append(dict(name="interp minimal", arrays=[x2, V2, p1[0].copy()], call=lambda a: I.interp(*a)))
        L.append(dict(name="mlinterp minimal", arrays=[x2, V2, p1], call=lambda a: I.mlinterp((a[0],), a[1], a[2])))
        L.append(dict(name="hermite minimal", arrays=[p1[0].copy(), x2, V2, r.standard_normal(2)], call=lambda a: H.HermiteInterpolationVect(*a)))
        L.append(dict(name="gradient minimal", arrays=[r.standard_normal((4, 1)), p1], call=lambda a: list(vec_eval_cubic_splines_G(np.array([0.0]), np.array([1.0]), np.array([2]), a[0], a[1]))))
        for nm in ("LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"):
            L.append(dict(name="minimal " + nm, arrays=[np.array([0.0]), np.array([1.0]), np.array([2]), W1 if nm.endswith("s") else V2, p1], call=lambda a, nm=nm: (lambda s: [s(a[4]), s(a[4][0]), s.grid])(getattr(S, nm)(*a[:4]))))
        for deg in range(4):
            for z in (r.standard_normal(1), r.standard_normal((1, 1)), r.standard_normal((1, 4)), r.standard_normal((3, 1)), r.standard_normal((2, 0))):
                t = "deg%d %s" % (deg, z.shape)
                L.append(dict(name="complete_polynomial minimal " + t, arrays=[z], call=lambda a, deg=deg: C.complete_polynomial(a[0], deg)))
                L.append(dict(name="complete_polynomial_der minimal " + t, arrays=[z], call=lambda a, deg=deg: C.complete_polynomial_der(a[0], deg, 0)))

            def fit(a, deg=deg):
                c = C.CompletePolynomial(1, deg)
                c.fit_values(a[0], a[1])
                c.fit_values(a[0], a[2], damp=0.5)
                return [c.coefs, c(a[3]), c.der(a[3], 0)]
            L.append(dict(name="CompletePolynomial minimal deg%d" % deg, arrays=[r.standard_normal((deg + 1, 1)), r.standard_normal(deg + 1), r.standard_normal(deg + 1), r.standard_normal((1, 1))], call=fit, blas=True))
        L.append(dict(name="SmolyakInterp minimal", arrays=[r.standard_normal(5), r.uniform(-1, 1, (1, 2))], call=lambda a: list(M.SmolyakInterp(M.SmolyakGrid(2, 1), a[0]).interpolate(a[1], True, True, True, True)), blas=True))
        L.append(dict(name="SmolyakGrid minimal", arrays=[np.array([-1.0, -1.0]), np.array([1.0, 1.0])], call=lambda a: (lambda s: [s.grid, s.cube_grid])(M.SmolyakGrid(2, 1, *a)), blas=True))
        return L
    if family == "persist":
        # objects that live as long as the process: same object, new numbers (sometimes in the same arrays)
        import interpolation.smolyak as M
        import interpolation.complete_poly as C
        L = []
        own = {}

        def get(key, mk):
            if key not in own:
                own[key] = mk()
            return own[key]
        P = r.uniform(-0.9, 0.9, (8, 2))
        lo, hi = np.array([-1.0, -1.0]), np.array([1.0, 1.5])
        n = 13

        def smol(a, flags=(True, False, False, False)):
            s = get("smol", lambda: M.SmolyakInterp(M.SmolyakGrid(2, 2, lo.copy(), hi.copy()), np.zeros(n)))
            s.update_theta(a[0])
            return s.interpolate(a[1], *flags)
        for fl in ((True, False, False, False), (True, True, False, False), (False, True, False, False), (True, False, True, True), (False, False, False, True)):
            L.append(dict(name="living SmolyakInterp %s" % (fl,), arrays=[r.standard_normal(n), P], call=lambda a, fl=fl: smol(a, fl), blas=True))

        def living_map(a):
            g = get("map", lambda: M.SmolyakGrid(2, 2, lo.copy(), hi.copy()))
            return [g.dom2cube(a[0]), g.cube2dom(a[0])]
        L.append(dict(name="living SmolyakGrid", arrays=[P], call=living_map, blas=True))
        for d_ in (2, 4):
            def poly(a, d_=d_):
                c = get("poly%d" % d_, lambda: C.CompletePolynomial(2, d_))
                c.fit_values(a[0], a[1])
                return [c(a[2]), c.der(a[2], 0), c.der(a[2], 1)]
            L.append(dict(name="living CompletePolynomial %d" % d_, arrays=[r.standard_normal((20, 2)), r.standard_normal(20), P], call=poly, blas=True))
        for nm in ("LinearSpline", "LinearSplines", "CubicSpline", "CubicSplines"):
            V = r.standard_normal([4, 5] + ([nx] if nm.endswith("s") else []))

            def obj(a, nm=nm, also=True):
                s = get(nm, lambda: getattr(S, nm)(lo.copy(), hi.copy(), np.array([4, 5])))
                s.set_values(a[0])
                return [s(a[1]), s(a[1][0]), s.interpolate(a[1])]
            L.append(dict(name="living " + nm, arrays=[V, P], call=obj))
        return L
    raise ValueError(family)
