"""C07: interp (clamped) and mlinterp (linearly extended) in all argument forms, from Python and jitted code."""
import numpy as np
from mon import gen, ref
from mon.core import ApiFailed
from mon.common import kind_patterns, pick_ns, nclass, desc, ctx_points

RULE = ("one case = one call of interp/mlinterp in one argument form, compared with the reference interpolant (clamped resp. linearly extended), in 1-d "
        "also with numpy.interp; key = (function, form, dimension, regular/irregular pattern, caller, batch class).  Non-trivial: random data, points inside, "
        "on nodes/bounds and outside on either side of any subset of coordinates.")
ASSUMPTIONS = ["scalar-valued data (vector-valued data are documented as unsupported)", "coordinates up to 4000 grid widths away"]
REQUIRED = ["interp|scalar", "interp|tuple", "interp|point", "interp|list", "interp|cartesian", "mlinterp|list", "mlinterp|tuple", "jitted", "python",
            "d1", "d2", "d3", "d4", "numpy.interp", "|N0", "one cell"]


def tasks(tier, seed):
    rng = np.random.default_rng(seed + 707)
    q = tier == "quick"
    T = []
    for d, cap in ((1, None), (2, None), (3, None), (4, 5 if q else None)):
        for pat in kind_patterns(d, rng, cap):
            for caller in ("python", "jitted"):
                if q and d == 4 and caller == "jitted" and pat != "uuuu":
                    continue
                T.append(dict(name="interp-d%d-%s-%s" % (d, pat, caller), d=d, pat=pat, caller=caller, reps=40 if q else 200, cost=d))
    return T


def run(spec, mon):
    from interpolation import interp, mlinterp
    d, pat, caller = spec["d"], spec["pat"], spec["caller"]
    rng = mon.rng()
    limit = {1: 400, 2: 2500, 3: 3000, 4: 3000}[d]
    INTERP, MLINTERP = interp, mlinterp
    if caller == "jitted":
        from numba import njit

        @njit
        def INTERP(*args):
            return interp(*args)

        @njit
        def MLINTERP(g, c, u):
            return mlinterp(g, c, u)

    broken = set()
    for r in range(spec["reps"]):
        ns = pick_ns(rng, d, limit)
        if r == 0:
            ns = [2] * d
        if r == 1:
            ns = [2 + i for i in range(d)]
        if r == 2:
            ns = [9 - 2 * i for i in range(d)]
        N = [20, 1, 50, 20, 0, 30, 400, 7][r % 8]
        if r == 14 and d < 4:
            N, ns = [0, 50000, 10000, 3000][d], [int(x) for x in rng.integers(2, 9, d)]
        g = gen.grid(rng, pat, ns)
        if r == 5:  # decreasing magnitudes, integer-valued nodes
            g = tuple((0.0, float(n - 1), n) if c == "u" else np.arange(n) * 1.0 for n, c in zip(ns, pat))
        same = d == 2 and r % 7 == 3
        if same:  # a square table of symmetric values on two different dimensions
            g = (g[0], gen.grid1d(rng, pat[1], ns[0]))
            ns = [ns[0]] * 2
        V = gen.values(rng, tuple(ns))
        if same:
            V = V + V.T
        P, lab = gen.points(rng, g, N, ["any", "in", "out"][r % 3])
        w, t = ref.evaluate(1, g, V, P, mode="nearest")
        e, et = ref.evaluate(1, g, V, P)
        mon.sample(grid=desc(g), caller=caller, N=N, classes=lab[:2])

        def chk(fn, form, f, want, tol, Q, n=None):
            key = "%s|%s|d%d|%s|%s" % (fn, form, d, pat, caller) + ("|N%s" % nclass(n) if n is not None else "")
            if (fn, form) in broken:
                return
            try:
                got = mon.do("%s %s (%s)" % (fn, form, caller), f)
            except ApiFailed:
                broken.add((fn, form))
                return
            if not mon.close("%s, %s argument" % (fn, form), got, want, tol, key=key, ctx=ctx_points(g, Q)):
                broken.add((fn, form))

        chk("interp", "list of points", lambda: INTERP(*g, V, P), w, t, P, N)
        chk("mlinterp", "list of points", lambda: MLINTERP(g, V, P), e, et, P, N)
        if r % 3 == 1:  # nothing but the corners of the cell is used
            P1, sl = gen.one_cell(rng, 1, g, 6, ["in", "out"][r // 3 % 2])
            Vb, Vz = gen.spoil(rng, gen.values(rng, tuple(ns), "normal"), sl)
            w1, t1 = ref.evaluate(1, g, Vz, P1, mode="nearest")
            e1, et1 = ref.evaluate(1, g, Vz, P1)
            for j in range(len(P1)):
                if ("in", "out")[r // 3 % 2] == "in":
                    chk("interp", "tuple (one cell)", lambda: INTERP(*g, Vb, tuple(float(x) for x in P1[j])), w1[j], t1[j], P1[j])
                chk("mlinterp", "tuple (one cell)", lambda: MLINTERP(g, Vb, tuple(float(x) for x in P1[j])), e1[j], et1[j], P1[j])
            chk("mlinterp", "list of points (one cell)", lambda: MLINTERP(g, Vb, P1), e1, et1, P1)
        Pf = gen.layout(P, ["F", "A", "CR"][r % 3])
        if r < 3:
            chk("interp", "list of points %s" % ["F", "A", "CR"][r % 3], lambda: INTERP(*g, gen.layout(V, ["F", "A", "CR"][r % 3]), Pf), w, t, P, N)
        for j in range(min(N, 5)):
            p = P[j].copy()
            pt = tuple(float(x) for x in p)
            chk("interp", "tuple", lambda: INTERP(*g, V, pt), w[j], t[j], p)
            chk("interp", "scalars", lambda: INTERP(*g, V, *pt), w[j], t[j], p)
            chk("mlinterp", "tuple", lambda: MLINTERP(g, V, pt), e[j], et[j], p)
            if d > 1:
                chk("interp", "point", lambda: INTERP(*g, V, p), w[j], t[j], p)
        if d == 1:
            u = P[:, 0].copy()
            chk("interp", "cartesian", lambda: INTERP(g[0], V, u), w, t, P, N)
            chk("interp", "point array", lambda: INTERP(g[0], V, u), w, t, P, N)
            z = ref.nodes1d(g[0]).astype(float)
            chk("interp", "numpy.interp", lambda: INTERP(g[0], V, u) - np.interp(u, z, V), w * 0, t + 1e-11 * np.abs(V).max(), P, N)
        if d == 2:
            m1, m2 = [(4, 9), (7, 3), (1, 5), (6, 6), (0, 3), (12, 1), (140, 90) if r == 6 else (4, 9)][r % 7]
            A, _ = gen.points(rng, g, m1, "any")
            B, _ = gen.points(rng, g, m2, "any")
            u, v = A[:, 0].copy(), B[:, 1].copy()
            if m1 == m2:  # the same axis twice (also in reverse order)
                v = u.copy() if r % 2 else u[::-1].copy()
            Q = np.stack([x.ravel() for x in np.meshgrid(u, v, indexing="ij")], -1)
            cw, ct = ref.evaluate(1, g, V, Q, mode="nearest")
            chk("interp", "cartesian", lambda: INTERP(*g, V, u, v), cw.reshape(m1, m2), ct.reshape(m1, m2), Q, m1 * m2)
        # clamping is exact: far away the bound value itself
        if r % 4 == 0 and d <= 2:
            lo = [ref.bounds(x)[0] - 1e9 for x in g]
            hi = [ref.bounds(x)[1] + 1e9 for x in g]
            for c, val in ((lo, V[(0,) * d]), (hi, V[(-1,) * d])):
                chk("interp", "scalars far away", lambda: INTERP(*g, V, *[float(x) for x in c]), val, 1e-9 * np.abs(V).max(), np.array(c))
        if d == 1 and r % 4 == 1:
            for x in (0, 1, -3, 100000):
                wq, tq = ref.evaluate(1, g, V, np.array([[float(x)]]), mode="nearest")
                chk("interp", "integer scalar", lambda: INTERP(g[0], V, x), wq[0], tq[0], np.array([x]))
