"""C04: cubic evaluation inside the grid against the B-spline weight model and scipy's natural spline."""
import numpy as np
from mon import gen, ref
from mon.common import api, pick_ns, nclass, desc, ctx_points

RULE = ("one case = one oracle-checked result array; key = (entry point, dimension, value rank, batch class, node-count class).  Oracles: uniform cubic "
        "B-spline weights in extended precision for arbitrary coefficients, the full weight matrix (identity coefficients), scipy's natural spline for "
        "filtered data, and exact affine data.  Non-trivial: random coefficients, points on nodes, cell boundaries +-1e-5 step, bounds, interior.")
ASSUMPTIONS = ["finite coefficients", "agreement up to rounding (1e-10 of the local stencil magnitude plus conditioning)",
               "kernels generated for explicit dimensions are also run as plain Python (numba disabled), where they need no compilation"]
REQUIRED = ["eval_cubic", "eval_spline", "weights", "one cell|", "natural", "affine", "kernel", "legacy", "d1", "d2", "d3", "d4"]


def tasks(tier, seed):
    T = []
    q = tier == "quick"
    for d in (1, 2, 3, 4):
        for fam in ("batch", "point", "spline", "natural", "weights"):
            T.append(dict(name="cubic-d%d-%s" % (d, fam), d=d, fam=fam, reps=(16 if q else 150) if d < 4 else (10 if q else 80), cost=d * 3))
        T.append(dict(name="kernels-d%d" % d, d=d, fam="kernels", env="nojit", reps=(8 if q else 60), cost=1))
    return T


def natural_ref(g, V, P):
    """tensor natural spline of data V (n1..nd[,nx]) at P, by scipy, one dimension after another"""
    from scipy.interpolate import CubicSpline
    out = np.empty((len(P),) + V.shape[len(g):])
    for j, p in enumerate(P):
        A = V
        for i, x in enumerate(g):
            z = ref.nodes1d(x).astype(float)
            if len(z) == 2:
                lam = (p[i] - z[0]) / (z[1] - z[0])
                A = (1 - lam) * A[0] + lam * A[1]
            else:
                # evaluate in the local coordinate: scipy's own powers lose digits far from the origin
                h = (z[-1] - z[0]) / (len(z) - 1)
                A = CubicSpline(np.arange(len(z)), A, axis=0, bc_type="natural")((p[i] - z[0]) / h)
        out[j] = A
    return out


def run(spec, mon):
    _, eval_cubic, eval_spline, filter_cubic, prefilter, _ = api()
    d, fam = spec["d"], spec["fam"]
    rng = mon.rng()
    limit = {1: 400, 2: 3000, 3: 4000, 4: 5000}[d]
    for r in range(spec["reps"]):
        ns = pick_ns(rng, d, limit, cubic=True)
        if r == 0:
            ns = [2] * d
        if r == 1:
            ns = [2 + i for i in range(d)]
        if r == 2:
            ns = [7 - i for i in range(d)]
        if r == 3:
            ns = [4] * d
        if r == 6 and d == 1 and fam in ("batch", "point", "spline"):
            ns = [6000]
        N = [40, 1, 60, 40, 7, 40][r % 6]
        if r == 8:
            N = 0
        big = r == 9 and fam in ("batch", "spline") and d < 4
        if big:
            N, ns = [0, 100000, 20000, 4000][d], [int(x) for x in rng.integers(2, 9, d)]
        g = gen.grid(rng, "u" * d, ns)
        shp = tuple(n + 2 for n in ns)
        if fam == "kernels":
            N = min(N, 20)
        P, lab = gen.points(rng, g, N)
        C = gen.values(rng, shp)
        nx = gen.ncomp(rng) if not big else 2
        CC = gen.values(rng, shp + (nx,))
        w, t = ref.evaluate(3, g, C, P)
        ww, tt = ref.evaluate(3, g, CC, P)
        ncl = "n2" if min(ns) == 2 else "n3+"
        kk = "|d%d|N%s|%s" % (d, nclass(N), ncl)
        mon.sample(grid=desc(g), N=N, classes=lab[:2], fam=fam)

        def chk(name, f, want, tol, P=P):
            got = mon.do(name, f)
            mon.close(name, got, want, tol, key=name + kk, ctx=ctx_points(g, P))

        if fam in ("batch", "point", "spline") and r % 2 == 0:
            # nothing but the 4^d local coefficients is used: the others are nan, infinite or huge
            P1, sl = gen.one_cell(rng, 3, g, 5, "in" if r % 4 else "out")
            Cb, Cz = gen.spoil(rng, gen.values(rng, shp, "normal"), sl)
            CCb, CCz = gen.spoil(rng, gen.values(rng, shp + (nx,), "normal"), sl)
            w1, t1 = ref.evaluate(3, g, Cz, P1)
            w2, t2 = ref.evaluate(3, g, CCz, P1)
            L = {"batch": (("eval_cubic", lambda: eval_cubic(g, Cb, P1), w1, t1), ("eval_cubic vv", lambda: eval_cubic(g, CCb, P1), w2, t2)),
                 "point": (("eval_cubic tuple", lambda: eval_cubic(g, Cb, tuple(float(v) for v in P1[0])), w1[0], t1[0]), ("eval_cubic point vv", lambda: eval_cubic(g, CCb, P1[0].copy()), w2[0], t2[0])),
                 "spline": (("eval_spline", lambda: eval_spline(g, Cb, P1, out=None, k=3, diff="None", extrap_mode="linear"), w1, t1),)}[fam]
            for name, f, a1, a2 in L:
                mon.close(name + " uses the local coefficients only", mon.do(name + " (one cell)", f), a1, a2, key="one cell|" + name + "|d%d" % d, ctx=ctx_points(g, P1))
        if fam == "batch":
            chk("eval_cubic batch", lambda: eval_cubic(g, C, P), w, t)
            chk("eval_cubic batch vv", lambda: eval_cubic(g, CC, P), ww, tt)
            o = np.full(ww.shape, np.nan)
            mon.do("eval_cubic batch vv inplace", eval_cubic, g, CC, P, o)
            mon.close("eval_cubic batch vv inplace", o, ww, tt, key="eval_cubic inplace" + kk, ctx=ctx_points(g, P))
        elif fam == "point":
            for j in range(min(N, 8)):
                pa, pt = P[j].copy(), tuple(float(v) for v in P[j])
                chk("eval_cubic point", lambda: eval_cubic(g, C, pa), w[j], t[j], pa)
                chk("eval_cubic tuple", lambda: eval_cubic(g, C, pt), w[j], t[j], pa)
                chk("eval_cubic point vv", lambda: eval_cubic(g, CC, pa), ww[j], tt[j], pa)
        elif fam == "spline":
            from interpolation.splines import eval_cubic as _  # noqa  (the package attribute stays the function)
            from interpolation.splines.eval_cubic import eval_cubic_spline, vec_eval_cubic_spline, eval_cubic_splines, vec_eval_cubic_splines
            a, b, o = np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array(ns)
            chk("eval_spline batch", lambda: eval_spline(g, C, P, out=None, k=3, diff="None", extrap_mode="linear"), w, t)
            chk("eval_spline constant batch vv", lambda: eval_spline(g, CC, P, out=None, k=3, diff="None", extrap_mode="constant"), ww, tt)
            if d < 4:
                chk("legacy vec_eval_cubic_spline", lambda: vec_eval_cubic_spline(a, b, o, C, P), w, t)
                chk("legacy vec_eval_cubic_splines", lambda: vec_eval_cubic_splines(a, b, o, CC, P), ww, tt)
                for j in range(min(N, 3)):
                    pa = P[j].copy()
                    chk("legacy eval_cubic_spline", lambda: eval_cubic_spline(a, b, o, C, pa), w[j], t[j], pa)
                    chk("legacy eval_cubic_splines", lambda: eval_cubic_splines(a, b, o, CC, pa), ww[j], tt[j], pa)
        elif fam == "natural":
            V = gen.values(rng, tuple(ns), ["normal", "int", "alt", "spike"][r % 4])
            Cn = mon.do("filter_cubic", filter_cubic, g, V)
            Q = P[:60]
            want = natural_ref(g, V, Q)
            du = sum(ref.rel_du(x, Q[:, i]) for i, x in enumerate(g)) if len(Q) else np.zeros(0)
            tol = (1e-9 + 1e3 * du) * (np.abs(V).max() + 1e-300)
            got = mon.do("eval_cubic natural", eval_cubic, g, Cn, Q)
            mon.close("natural spline of the data", got, want, tol, key="natural" + kk, ctx=ctx_points(g, Q))
            if np.prod(ns) < 3000:  # all nodes are reproduced
                Z = np.stack([m.ravel() for m in np.meshgrid(*[ref.nodes1d(x).astype(float) for x in g], indexing="ij")], -1)
                got = mon.do("eval_cubic at nodes", eval_cubic, g, Cn, Z)
                dz = sum(ref.rel_du(x, Z[:, i]) for i, x in enumerate(g))
                mon.close("data reproduced at the nodes", got, V.ravel(), (1e-9 + 1e3 * dz) * (np.abs(V).max() + 1e-300), key="natural nodes" + kk, ctx=ctx_points(g, Z))
            # affine functions (in the unit coordinates of the grid, to stay well conditioned)
            co = rng.standard_normal(d + 1)
            unit = [np.linspace(0, 1, n) for n in ns]
            A = co[0] + sum(np.meshgrid(*[c * u for c, u in zip(co[1:], unit)], indexing="ij"))
            Ca = mon.do("filter_cubic", filter_cubic, g, A)
            U = np.stack([(Q[:, i] - x[0]) / (x[1] - x[0]) for i, x in enumerate(g)], -1) if len(Q) else np.zeros((0, d))
            want = co[0] + U @ co[1:]
            got = mon.do("eval_cubic affine", eval_cubic, g, Ca, Q)
            mon.close("affine functions reproduced", got, want, 1e-9 + 1e3 * du, key="affine" + kk, ctx=ctx_points(g, Q))
        elif fam == "weights":
            ns2 = pick_ns(rng, d, 700, cubic=True) if r >= 2 else ns
            if d == 4 and r < 2:
                ns2 = [2, 2, 2, 3] if r else [2, 2, 2, 2]
            g2 = gen.grid(rng, "u" * d, ns2)
            sh2 = tuple(n + 2 for n in ns2)
            P2, _ = gen.points(rng, g2, 30)
            E = np.eye(int(np.prod(sh2))).reshape(sh2 + (-1,))
            want, tol = ref.evaluate(3, g2, E, P2)
            tol = tol + 1e-12 + 64 * sum(ref.rel_du(x, P2[:, i]) for i, x in enumerate(g2))[:, None]
            got = mon.do("eval_cubic identity", eval_cubic, g2, E, P2)
            mon.close("weights of all coefficients", got, want, tol, key="weights" + kk, ctx=ctx_points(g2, P2))
        elif fam == "kernels":
            import interpolation.splines.eval_cubic_numba as ker
            a, b, o = np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array(ns)
            f = getattr(ker, "vec_eval_cubic_spline_%d" % d, None)
            if f is not None:
                out = np.full(w.shape, np.nan)
                mon.do("kernel vec_eval_cubic_spline", f, a, b, o, C, P, out)
                mon.close("kernel vec_eval_cubic_spline", out, w, t, key="kernel vec_eval_cubic_spline" + kk, ctx=ctx_points(g, P))
            f = getattr(ker, "vec_eval_cubic_splines_%d" % d, None)
            if f is not None:
                out = np.full(ww.shape, np.nan)
                mon.do("kernel vec_eval_cubic_splines", f, a, b, o, CC, P, out)
                mon.close("kernel vec_eval_cubic_splines", out, ww, tt, key="kernel vec_eval_cubic_splines" + kk, ctx=ctx_points(g, P))
            f1, f2 = getattr(ker, "eval_cubic_spline_%d" % d, None), getattr(ker, "eval_cubic_splines_%d" % d, None)
            for j in range(min(N, 6)):
                pa = P[j].copy()
                if f1 is not None:
                    chk("kernel eval_cubic_spline", lambda: f1(a, b, o, C, pa), w[j], t[j], pa)
                if f2 is not None:
                    out = np.full(nx, np.nan)
                    mon.do("kernel eval_cubic_splines", f2, a, b, o, CC, pa, out)
                    mon.close("kernel eval_cubic_splines", out, ww[j], tt[j], key="kernel eval_cubic_splines" + kk, ctx=ctx_points(g, pa))
            # nothing to report if a later version drops the explicit kernels
            mon.cover("kernel run d%d" % d)
