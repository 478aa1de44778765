"""C20: the same numbers in another representation (number type, container, memory layout) give the same result."""
import numpy as np
from mon import gen, ref
from mon.core import ApiFailed

RULE = ("one case = one call with one argument (or all) in another representation, compared with the same call on plain C-contiguous doubles holding the same numbers; key = "
        "(entry point, argument, representation).  Representations: int64, int32, float32, numpy scalars, Python ints, lists, tuples, Fortran order, strided, reversed, "
        "read-only, broadcast.  Non-trivial: integer-valued data with fractional results at integer points.")
ASSUMPTIONS = ["representations the entry point accepts (points of eval_linear/eval_cubic/eval_spline must be double arrays, data and nodes must be arrays; a rejection with an exception is not judged there)",
               "single precision arguments: agreement to single precision", "in-place outputs are double arrays"]
REQUIRED = ["eval_linear|", "eval_cubic|", "filter_cubic|", "interp|", "mlinterp|", "LinearSpline|", "CubicSpline|", "LinearSplines|", "CubicSplines|", "hermite|", "complete_polynomial|", "fit|",
            "SmolyakInterp|", "SmolyakGrid|", "mlinspace|", "cartesian|", "B|", "|int64", "|int32", "|float32", "|list", "|tuple", "|F", "|A", "|R", "|CR", "|broadcast", "other arguments|fractions"]

FULL = ["int64", "int32", "float32", "F", "A", "R", "CR", "broadcast"]


def tasks(tier, seed):
    q = tier == "quick"
    L = []
    for nm, c in (("linear1", 14), ("linear2", 16), ("linear2v", 24), ("linear3", 8), ("lindiff", 5), ("cubic1", 18), ("cubic2", 26), ("cubic2v", 31), ("filter", 39), ("interp1", 12), ("interp2", 10), ("mlinterp", 12),
                  ("scalars", 18), ("objects-LinearSpline", 14), ("objects-CubicSpline", 14), ("objects-LinearSplines", 14), ("objects-CubicSplines", 14), ("hermite", 12), ("poly", 25), ("fit", 25), ("smolyak", 2), ("cart", 1), ("basis", 1), ("gradient", 16)):
        L.append(dict(name=nm, fam=nm, reps=3 if q else 25, cost=c))
    return L


def forms(a, names):
    """the numbers of `a` (integer valued) in other representations"""
    a = np.asarray(a, dtype=float)
    for n in names:
        if n in ("int64", "int32", "float32"):
            yield n, a.astype(n), a
        elif n == "list":
            yield n, a.tolist(), a
        elif n == "intlist":
            yield "list", a.astype(int).tolist(), a
        elif n == "tuple":
            yield n, tuple(a.tolist()), a
        elif n == "inttuple":
            yield "tuple", tuple(a.astype(int).tolist()), a
        elif n == "broadcast":
            if a.ndim and len(a):
                b = np.broadcast_to(a[:1], a.shape)
                yield n, b, np.ascontiguousarray(b).copy()
        elif n == "F" and a.ndim < 2:
            continue
        else:
            yield n, gen.layout(a, n), a


def nodes(rng, n):
    return np.cumsum(rng.integers(1, 4, n)).astype(float) - 3


def run(spec, mon):
    rng = mon.rng()
    fam = spec["fam"]
    import interpolation as I
    import interpolation.splines as S
    from interpolation.splines import extrap_options as xo
    from interpolation.splines.eval_splines import eval_spline
    broken = set()

    def sweep(op, call, args, vary, may=()):
        """args: dict of plain doubles; vary: {argument: representations}; may: pairs that may be rejected"""
        if op in broken:
            return
        names = list(args)
        try:
            base = mon.do(op, call, *[args[k] for k in names])
        except ApiFailed:
            broken.add(op)
            return

        def compare(k, f, got, want):
            single = f == "float32"
            key = "%s|%s|%s" % (op, k, f)
            got, want = (x if isinstance(x, (list, tuple)) else [x] for x in (got, want))
            if not mon.true("%s: same form of result" % op, len(got) == len(want), "%d parts, %d expected" % (len(got), len(want)), key=key):
                return
            for g, w in zip(got, want):
                w = np.asarray(w, dtype=float)
                sc = np.abs(w).max(initial=0)
                if not mon.close("%s with %s as %s" % (op, k, f), g, w, (3e-6 if single else 1e-11) * (sc + 1e-9), key=key):
                    return

        def vary_one(k, rest, base, others):
            for f, x, plain in forms(args[k], vary.get(k, [])):
                if (op, k, f) in broken:
                    continue
                a = [x if n == k else rest[n] for n in names]
                want = base
                try:
                    if plain is not args[k]:
                        want = mon.do(op, call, *[plain if n == k else rest[n] for n in names])
                    if (k, f) in may:
                        try:
                            got = call(*a)
                        except Exception:
                            mon.note("representations rejected")
                            continue
                    else:
                        got = mon.do("%s with %s as %s" % (op, k, f), call, *a)
                except ApiFailed:
                    broken.add((op, k, f))
                    continue
                compare(k, f, got, want)
                mon.cover("other arguments|" + others)
                mon.sample(entry=op, argument=k, representation=f, given=x)

        for k in names:
            # the other arguments hold whole numbers too, or fractions
            for others in ("whole", "fractions"):
                rest = {n: args[n] if others == "whole" or n in ("counts", "levels") else 0.75 * args[n] for n in names}
                rest[k] = args[k]
                if others == "fractions" and (len(names) == 1 or k not in vary):
                    continue
                try:
                    first = base if others == "whole" else mon.do(op, call, *[rest[n] for n in names])
                except ApiFailed:
                    broken.add(op)
                    return
                vary_one(k, rest, first, others)

    INT = ["int64", "int32", "float32"]
    LAY = ["F", "A", "R", "CR", "broadcast"]
    REJ = [("points", f) for f in INT]
    for r in range(spec["reps"]):
        N = [9, 1, 30][r % 3]
        if fam in ("linear1", "linear2", "linear2v", "linear3", "cubic1", "cubic2", "cubic2v", "lindiff"):
            d = 2 if fam == "lindiff" else int(fam[6 if fam[0] == "l" else 5])
            vv = fam.endswith("v")
            lin = fam.startswith("lin")
            ns = [int(x) for x in rng.integers(3, 8, d)]
            g = tuple((float(-rng.integers(0, 4)), float(rng.integers(2, 6)), n) for n in ns)
            gn = [nodes(rng, n) for n in ns]
            P = rng.integers(-3, 6, (N, d)).astype(float)
            C = rng.integers(-9, 10, [n + (0 if lin else 2) for n in ns] + ([2] if vv else [])).astype(float)
            ev, nm = (S.eval_linear, "eval_linear") if lin else (S.eval_cubic, "eval_cubic")
            nm += "|d%d%s" % (d, "vv" if vv else "")
            if fam == "lindiff":
                od = str(((0, 0), (1, 0), (0, 1)))
                sweep("eval_spline|diff", lambda V, P: eval_spline(g, V, P, out=None, k=1, diff=od, extrap_mode="linear"), dict(values=C, points=P), dict(values=INT + ["A"], points=INT + ["CR"]), REJ)
                sweep("eval_spline|diff irregular", lambda z, V: eval_spline((z, g[1]), V, P, out=None, k=1, diff=od, extrap_mode="nearest"), dict(nodes=gn[0], values=C), dict(nodes=["int64", "float32"], values=["int32"]))
                continue
            few = d == 3 or (not lin and d == 2)
            sweep(nm, lambda V, P: ev(g, V, P), dict(values=C, points=P), dict(values=(INT if not few else ["int64", "float32"]) + LAY, points=INT + (LAY if not few else ["F", "CR"])), REJ)
            if d <= 2:
                sweep(nm + "|nearest", lambda V: ev(g, V, P, xo.NEAREST), dict(values=C), dict(values=["int64"]))
                out = np.full((N, 2) if vv else N, np.nan)

                def inplace(V):
                    out[...] = np.nan
                    ev(g, V, P, out)
                    return out.copy()
                sweep(nm + "|in place", inplace, dict(values=C), dict(values=["int64", "float32"]))
            if lin:
                if d == 1:
                    sweep(nm + "|irregular", lambda z, V, P: ev((z,), V, P), dict(nodes=gn[0], values=C, points=P), dict(nodes=INT + ["A", "R", "CR"], values=["int64"]), REJ)
                elif d == 2:
                    sweep(nm + "|irregular", lambda z, u: ev((z, u), C, P), dict(nodes=gn[0], nodes2=gn[1]), dict(nodes=["int64", "float32", "A", "CR"], nodes2=["int32", "A"]))
                    sweep(nm + "|mixed", lambda z: ev((g[0], z), C, P), dict(nodes=gn[1]), dict(nodes=["int64", "CR"]))
            # bounds and counts as other scalars
            for f, h in (("int", tuple((int(a), int(b), n) for a, b, n in g)), ("float64", tuple((np.float64(a), np.float64(b), np.int64(n)) for a, b, n in g)),
                         ("int lower", tuple((int(a), b, n) for a, b, n in g)), ("int upper", tuple((a, int(b), n) for a, b, n in g))):
                if few and f not in ("int", "int upper") or (nm, f) in broken:
                    continue
                try:
                    mon.close("%s with bounds as %s" % (nm, f), mon.do("%s with bounds as %s" % (nm, f), ev, h, C, P), ev(g, C, P), 1e-11 * (np.abs(C).max() + 1) * 1e3, key="%s|bounds|%s" % (nm, f))
                except ApiFailed:
                    broken.add((nm, f))
        elif fam == "filter":
            for d in (1, 2, 3):
                ns = [int(x) for x in rng.integers(2, 7, d)]
                g = tuple((float(-rng.integers(0, 4)), float(rng.integers(2, 6)), n) for n in ns)
                for vv in (0, 1):
                    V = rng.integers(-9, 10, ns + [2] * vv).astype(float)
                    sweep("filter_cubic|d%d%s" % (d, "vv" * vv), lambda V: S.filter_cubic(g, V), dict(values=V), dict(values=(FULL if d < 3 and not vv else ["int64", "F", "float32"])))
                    h = tuple((int(a), int(b), n) for a, b, n in g)
                    w = S.filter_cubic(g, V)
                    mon.close("filter_cubic with bounds as int", mon.do("filter_cubic with bounds as int", S.filter_cubic, h, V), w, 1e-11 * (np.abs(w).max() + 1), key="filter_cubic|bounds|int%d%d" % (d, vv))
                if d < 3:
                    V = rng.integers(-9, 10, ns).astype(float)
                    sweep("prefilter|d%d" % d, lambda V: S.prefilter(g, V, k=3), dict(values=V), dict(values=["int64", "A"]))
                    sweep("prefilter k1|d%d" % d, lambda V: S.prefilter(g, V, k=1), dict(values=V), dict(values=["int64", "float32"]))
        elif fam in ("interp1", "interp2"):
            d = int(fam[-1])
            z = [nodes(rng, int(n)) for n in rng.integers(3, 8, d)]
            V = rng.integers(-9, 10, [len(x) for x in z]).astype(float)
            P = rng.integers(-3, 12, (N, d)).astype(float)
            if d == 1:
                sweep("interp|d1", lambda x, y, p: I.interp(x, y, p), dict(nodes=z[0], values=V, points=P[:, 0].copy()), dict(nodes=INT + ["A", "CR"], values=INT + ["A", "R", "CR"], points=INT + ["A", "CR", "broadcast"]))
                sweep("interp|d1 all", lambda x: I.interp(x, x, x), dict(nodes=z[0]), dict(nodes=["int64", "int32"]))
                g = (-2.0, 3.0, len(V))
                sweep("interp|regular", lambda y, p: I.interp(g, y, p), dict(values=V, points=P[:, 0].copy()), dict(values=["int64", "A"], points=["int64", "float32"]))
            else:
                sweep("interp|d2", lambda x, u, y, p: I.interp(x, u, y, p), dict(nodes=z[0], nodes2=z[1], values=V, points=P), dict(nodes=["int64", "float32"], nodes2=["int32"], values=INT + ["F", "A"], points=INT + ["F", "A", "CR"]))
                sweep("interp|cartesian", lambda p, q: I.interp(z[0], z[1], V, p, q), dict(points=P[:, 0].copy(), points2=P[:, 1].copy()), dict(points=["int64"], points2=["int64", "float32"]))
        elif fam == "mlinterp":
            for d in (1, 2, 3):
                ns = [int(n) for n in rng.integers(3, 6, d)]
                z = [nodes(rng, n) for n in ns]
                V = rng.integers(-9, 10, ns).astype(float)
                P = rng.integers(-3, 12, (N, d)).astype(float)
                full = d == 2
                sweep("mlinterp|d%d" % d, lambda y, p: I.mlinterp(tuple(z), y, p), dict(values=V, points=P), dict(values=["int64", "int32", "float32", "F", "A"] if full else ["int64"], points=["int64", "float32", "F", "A", "CR"] if full else ["int64", "float32"]))
                if d < 3:
                    sweep("mlinterp|nodes d%d" % d, lambda x: I.mlinterp((x,) + tuple(z[1:]), V, P), dict(nodes=z[0]), dict(nodes=["int64", "int32", "CR"]))
                t = tuple((float(-rng.integers(0, 4)), float(rng.integers(2, 6)), n) for n in ns)
                sweep("mlinterp|regular d%d" % d, lambda y, p: I.mlinterp(t, y, p), dict(values=V, points=P), dict(values=["int64"], points=["int64"]))
        elif fam == "scalars":
            # single points given as Python or numpy numbers
            for d in (1, 2, 3):
                ns = [int(n) for n in rng.integers(3, 6, d)]
                z = [nodes(rng, n) for n in ns]
                g = tuple((float(-rng.integers(0, 4)), float(rng.integers(2, 6)), n) for n in ns)
                V = rng.integers(-9, 10, ns).astype(float)
                C = S.filter_cubic(g, V)
                for _ in range(4):
                    p = [int(x) for x in rng.integers(-3, 9, d)]
                    cases = [("eval_linear", lambda t: S.eval_linear(g, V, t)), ("eval_linear irregular", lambda t: S.eval_linear(tuple(z), V, t)), ("mlinterp", lambda t: I.mlinterp(tuple(z), V, t))]
                    if d < 3:
                        cases += [("eval_cubic", lambda t: S.eval_cubic(g, C, t)), ("eval_linear constant", lambda t: S.eval_linear(g, V, t, xo.CONSTANT)), ("eval_linear nearest", lambda t: S.eval_linear(tuple(z), V, t, xo.NEAREST))]
                    if d == 1:
                        cases += [("interp", lambda t: I.interp(z[0], V, t[0]))]
                    if d == 2:
                        cases += [("interp", lambda t: I.interp(z[0], z[1], V, t[0], t[1])), ("interp tuple", lambda t: I.interp(z[0], z[1], V, t))]
                    for nm, f in cases:
                        if nm in broken:
                            continue
                        try:
                            w = mon.do(nm, f, tuple(float(x) for x in p))
                            for c, t in (("int", tuple(p)), ("float64", tuple(np.float64(x) for x in p)), ("int64", tuple(np.int64(x) for x in p)), ("mixed", tuple(float(x) if i % 2 else x for i, x in enumerate(p)))):
                                if c == "mixed":
                                    try:
                                        f(t)
                                    except Exception:
                                        mon.note("representations rejected")
                                        continue
                                mon.close("%s at a point of %s" % (nm, c), mon.do("%s at a point of %s" % (nm, c), f, t), w, 1e-11 * (abs(w) + 1), key="%s|point d%d|%s" % (nm, d, c))
                        except ApiFailed:
                            broken.add(nm)
        elif fam.startswith("objects"):
            for d in (1, 2, 3):
                ns = [int(n) for n in rng.integers(3, 6, d)]
                a, b = -rng.integers(0, 4, d).astype(float), rng.integers(2, 6, d).astype(float)
                P = rng.integers(-3, 6, (N, d)).astype(float)
                for cls in [fam[8:]]:
                    vv, cub = cls.endswith("s"), cls.startswith("C")
                    V = rng.integers(-9, 10, ns + [2] * vv).astype(float)

                    def build(a, b, n, V, P, cls=cls):
                        if not isinstance(n, (list, tuple)):
                            n = n.astype(int) if n.dtype == float else n
                        else:
                            n = type(n)(int(x) for x in n)
                        o = getattr(S, cls)(a, b, n, V)
                        G = np.asarray(o.grid)
                        return [o(P), o.interpolate(P), o(np.ascontiguousarray(G if cls.startswith("C") else G.T)), G]
                    seq = ["int64", "int32", "list", "tuple", "intlist", "inttuple"]
                    sweep(cls + "|d%d" % d, build, dict(lower=a, upper=b, counts=np.array(ns, dtype=float), values=V, points=P),
                          dict(lower=seq, upper=seq, counts=["int64", "int32", "list", "tuple"], values=["int64", "int32", "float32", "F", "A", "R", "CR"], points=INT[:1] + ["F", "A", "CR", "float32"]), REJ if cub else [])
        elif fam == "gradient":
            from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
            for d in (1, 2):
                ns = [int(n) for n in rng.integers(3, 6, d)]
                a, b = -rng.integers(0, 4, d).astype(float), rng.integers(2, 6, d).astype(float)
                C = rng.integers(-9, 10, [n + 2 for n in ns] + [2]).astype(float)
                P = rng.integers(-3, 6, (N, d)).astype(float)
                sweep("gradient|d%d" % d, lambda a, b, C, P: vec_eval_cubic_splines_G(a, b, np.array(ns), C, P), dict(lower=a, upper=b, values=C, points=P),
                      dict(lower=["int64"], upper=["int64"], values=["int64", "A"], points=["int64", "float32", "F"]), [("lower", "int64"), ("upper", "int64"), ("values", "int64"), ("values", "A"), ("points", "int64"), ("points", "float32")])
        elif fam == "hermite":
            from interpolation.splines import hermite as H
            n = int(rng.integers(2, 9))
            x, y, yp = nodes(rng, n), rng.integers(-9, 10, n).astype(float), rng.integers(-9, 10, n).astype(float)
            P = rng.integers(-3, 15, N).astype(float)
            v = ["int64", "int32", "float32", "A", "R", "CR"]
            sweep("hermite|vector", H.HermiteInterpolationVect, dict(points=P, nodes=x, values=y, slopes=yp), dict(points=v + ["broadcast"], nodes=v, values=v, slopes=v))
            sweep("hermite|all", lambda q: H.HermiteInterpolationVect(q + 1, q, q[::-1].copy(), 2 * q), dict(all=x), dict(all=["int64", "int32"]))
            sweep("hermite|scalar", lambda x, y, yp: [H.HermiteInterpolation(float(p), x, y, yp) for p in P[:5]], dict(nodes=x, values=y, slopes=yp), dict(nodes=["int64", "A"], values=["int64", "float32"], slopes=["int32"]))
            w = [H.HermiteInterpolation(float(p), x, y, yp) for p in P[:5]]
            for c, t in (("int", int), ("int64", np.int64), ("float32", np.float32)):
                mon.close("hermite at %s" % c, [mon.do("hermite at %s" % c, H.HermiteInterpolation, t(p), x, y, yp) for p in P[:5]], w, 1e-5 * (np.abs(w).max() + 1) if c == "float32" else 1e-11 * (np.abs(w).max() + 1), key="hermite|point|" + c)
        elif fam in ("poly", "fit"):
            import interpolation.complete_poly as C
            for n in (1, 2, 3):
                z = rng.integers(-4, 5, (n, N)).astype(float)
                for d in range(6 if fam == "poly" else 0):
                    der = int(rng.integers(n))
                    v = INT + ["F", "A", "CR", "R", "list", "intlist", "broadcast"]
                    sweep("complete_polynomial|matrix", lambda z: [C.complete_polynomial(z, d), C.complete_polynomial_der(z, d, der)], dict(points=z), dict(points=v))
                    sweep("complete_polynomial|vector", lambda z: [C.complete_polynomial(z, d), C.complete_polynomial_der(z, d, der)], dict(points=z[:, 0].copy()), dict(points=INT + ["A", "CR", "list", "intlist", "tuple", "inttuple"]))
                for d in (1, 2, 3) if fam == "fit" else ():
                    m = C.n_complete(n, d)
                    s = rng.integers(-6, 7, (4 * m + 10, n)).astype(float)
                    if np.linalg.cond(np.asarray(C.complete_polynomial(s.T.copy(), d)).T) > 1e6:
                        continue
                    for k in (0, 2):
                        x = rng.integers(-9, 10, (len(s),) + ((k,) if k else ())).astype(float)
                        Q = rng.integers(-5, 6, (7, n)).astype(float)

                        def fit(s, x, Q, damp=0.0):
                            c = C.CompletePolynomial(n, d)
                            c.fit_values(s, x)
                            c.fit_values(s, x[::-1].copy() if isinstance(x, np.ndarray) else x[::-1], damp=0.25)
                            return [c(Q)] + [c.der(Q, i) for i in range(n)]
                        sc = ["int64", "int32", "float32", "F", "A", "R", "CR"]
                        sweep("fit|n%d%s" % (n, "v" if k else ""), fit, dict(samples=s, values=x, points=Q), dict(samples=sc, values=sc, points=sc))
        elif fam == "smolyak":
            import interpolation.smolyak as M
            for d in (2, 3):
                mu = int(rng.integers(1, 4))
                lo, hi = -rng.integers(1, 5, d).astype(float), rng.integers(1, 6, d).astype(float)
                seq = ["int64", "int32", "float32", "list", "tuple", "intlist", "inttuple"]

                def grid(lo, hi):
                    sg = M.SmolyakGrid(d, mu, lo, hi)
                    return [sg.grid, sg.B, sg.cube2dom(sg.cube_grid), sg.dom2cube(sg.grid)]
                sweep("SmolyakGrid|d%d" % d, grid, dict(lower=lo, upper=hi), dict(lower=seq, upper=seq), [("lower", "tuple"), ("upper", "tuple")])
                mm = rng.integers(1, 4, d).astype(float)
                sweep("SmolyakGrid|levels", lambda m: [M.SmolyakGrid(d, [int(x) for x in m] if isinstance(m, list) else m.astype(m.dtype if m.dtype.kind == "i" else int)).grid], dict(levels=mm), dict(levels=["int64", "int32", "list"]))
                sg = M.SmolyakGrid(d, mu, lo, hi)
                f = rng.integers(-9, 10, len(sg.grid)).astype(float)
                Q = np.array([[float(rng.integers(int(l), int(h) + 1)) for l, h in zip(lo, hi)] for _ in range(N)])
                v = INT + ["F", "A", "R", "CR", "broadcast"]

                def smol(f, Q):
                    it = M.SmolyakInterp(sg, f)
                    y, dy = it.interpolate(Q, True, True)
                    it.update_theta(f[::-1])
                    return [y, dy, it.interpolate(Q), it.interpolate(Q, deriv=True)[1]]
                sweep("SmolyakInterp|d%d" % d, smol, dict(values=f, points=Q), dict(values=[x for x in v if x != "F"] + ["list"], points=v), [("values", "list")])
                sweep("SmolyakGrid|transforms", lambda Q: [sg.dom2cube(Q), sg.cube2dom(Q)], dict(points=Q), dict(points=v))
                Z = rng.integers(-1, 2, (N, d)).astype(float)
                sweep("SmolyakGrid|build_B", lambda Q: M.build_B(d, mu, Q), dict(points=Z), dict(points=v))
        elif fam == "cart":
            from interpolation.cartesian import cartesian, mlinspace
            for d in (1, 2, 3):
                a, b = -rng.integers(0, 9, d).astype(float), rng.integers(1, 9, d).astype(float)
                ns = rng.integers(2, 9, d).astype(float)
                seq = ["int64", "int32", "float32", "list", "tuple", "intlist", "inttuple", "A", "CR"]
                for o in "CF":
                    sweep("mlinspace|" + o, lambda a, b, n: mlinspace(a, b, n, o), dict(lower=a, upper=b, counts=ns.astype(float)), dict(lower=seq, upper=seq, counts=["int64", "int32", "intlist", "inttuple", "list"]))
                    x = [nodes(rng, int(n)) for n in ns]
                    sweep("cartesian|" + o, lambda u: cartesian([u] + x[1:], o), dict(nodes=x[0]), dict(nodes=seq + ["R", "broadcast"]))
                    sweep("cartesian|last " + o, lambda u: cartesian(x[:-1] + [u], o), dict(nodes=x[-1]), dict(nodes=seq + ["R"]))
                    w = cartesian(x, o)
                    mon.close("cartesian of a tuple", mon.do("cartesian of a tuple", cartesian, tuple(x), o), w, 0, key="cartesian|nodes|tuple of arrays")
                g = tuple(z.astype(t) for z, t in zip(x, ("int64", "float32", "int32")))
                mon.close("nodes() with integer dimensions", mon.do("nodes", S.nodes, g), cartesian(x), 0, key="nodes|dimensions|int")
                h = S.CGrid(*g)
                mon.true("CGrid keeps its dimensions", len(h) == len(g) and all(np.array_equal(p, q) for p, q in zip(h, g)), key="CGrid|dimensions|int")
        elif fam == "basis":
            from interpolation.splines import basis_splines as M
            for p in range(5):
                u = nodes(rng, p + 5)
                for _ in range(4):
                    i, x = int(rng.integers(4)), int(rng.integers(int(u[0]), int(u[-1])))
                    sweep("B|p%d" % p, lambda u: float(M.B(p, u, i, float(x))), dict(knots=u), dict(knots=["int64", "int32", "float32", "list", "tuple", "intlist", "A"]))
                    w = float(M.B(p, u, i, float(x)))
                    for c, t in (("int", int), ("int64", np.int64), ("float32", np.float32)):
                        mon.close("B at %s" % c, float(mon.do("B at %s" % c, M.B, p, u, i, t(x))), w, 1e-5 if c == "float32" else 1e-11, key="B|point|" + c)
                        mon.close("B at %s" % c, float(mon.do("B at %s, integer knots" % c, M.B, p, u.astype(int), i, t(x))), w, 1e-5 if c == "float32" else 1e-11, key="B|all|" + c)
    mon.note("rounds", spec["reps"])
