"""C11: spline objects against a model object (grid + last accepted values) through random histories."""
import copy, pickle
import numpy as np
from mon import gen, ref
from mon.common import pick_ns, desc, ctx_points
from mon.core import ApiFailed

RULE = ("one case = one observation (call, point, batch, in place, own grid, rejection) of an object after a random history of constructions, accepted, "
        "resubmitted (same array changed in place), rejected and wrongly shaped updates over several live objects (also with the same bounds and permuted node counts), and copies (deep copies, pickles), evaluated at new or refilled point arrays, compared with the model; key = (class, dimension, observation, kind of the last "
        "update, number of updates so far).  Oracle: reference natural spline / multilinear interpolant of the last accepted values.")
ASSUMPTIONS = ["finite values for linear objects (they do not promise a rejection)", "regular grids (the only ones objects accept)"]
REQUIRED = ["CubicSpline|", "CubicSplines|", "LinearSpline|", "LinearSplines|", "rejects non-finite values", "rejects non-finite points", "after rejected", "own grid", "mutated", "resubmitted", "relatives", "copies|", "after deepcopy", "after pickle", "refilled points", "point", "in place", "d1", "d2", "d3"]
CLS = ["CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines"]


def tasks(tier, seed):
    q = tier == "quick"
    L = []
    for c in CLS:
        for d in (1, 2, 3, 4):
            if d == 4 and q and c.startswith("Linear"):
                continue
            L.append(dict(name="%s-d%d" % (c, d), cls=c, d=d, hist=(10 if q else 120) if d < 4 else (4 if q else 40), steps=14 if q else 25, cost=d * (3 if "Cubic" in c else 1)))
    return L


class Model:
    def __init__(self, cls, g, own):
        self.cls, self.g, self.own = cls, g, own
        self.d = len(g)
        self.k = 3 if "Cubic" in cls else 1
        self.multi = cls.endswith("s")
        self.V, self.last, self.n = None, "none", 0
        self.handed = []

    def want(self, P):
        shp = tuple(x[2] for x in self.g)
        V = self.V
        C = ref.prefilter(shp, V) if self.k == 3 else V
        w, t = ref.evaluate(self.k, self.g, C, P)
        # conditioning of the prefilter / far extrapolation: relative to the largest value
        one, sc = ref.evaluate(self.k, self.g, np.ones(C.shape[:self.d]), P)
        m = np.abs(C).max(initial=0)
        t = t + (10 * sc.reshape((len(P),) + (1,) * (t.ndim - 1))) * m
        return w, t


def run(spec, mon):
    import interpolation.splines as S
    cls, d = spec["cls"], spec["d"]
    rng = mon.rng()
    K = getattr(S, cls)
    lim = {1: 200, 2: 600, 3: 800, 4: 700}[d]
    for h in range(spec["hist"]):
        objs = []
        buf = gen.Buffers()

        def values(m):
            shp = tuple(x[2] for x in m.g)
            nx = (gen.ncomp(rng),) if m.multi else ()
            V = gen.values(rng, shp + nx)
            form = ["exact", "flat", "F", "strided", "int", "list", "readonly"][rng.integers(7)]
            A = V
            if form == "flat":
                A = V.reshape((-1,) + nx).copy()
            elif form == "F":
                A = np.asfortranarray(V)
            elif form == "strided":
                A = gen.layout(V, "A")
            elif form == "int":
                V = np.round(np.clip(V, -1e6, 1e6))
                A = V.astype(np.int64)
            elif form == "list":
                A = V.tolist() if m.k == 3 else V.copy()
            elif form == "readonly":
                A = gen.layout(V, "CR")
            else:
                A = V.copy()
            return V.copy(), A, form

        def create():
            ns = pick_ns(rng, d, lim)
            if rng.random() < 0.3:
                ns = [int(rng.integers(2, 4)) for _ in range(d)]
            g = gen.grid(rng, "u" * d, ns)
            if objs and rng.random() < 0.45:
                # a relative of a living object: same bounds, other counts with the same product; or same counts, other bounds
                h = objs[rng.integers(len(objs))].g
                c = [x[2] for x in h]
                how = rng.integers(4)
                if how == 0:
                    g = h
                elif how == 1:
                    g = tuple((x[0], x[1], int(n)) for x, n in zip(h, rng.permutation(c)))
                elif how == 2:
                    g = tuple((x[0], x[1], int(n)) for x, n in zip(h, c[::-1]))
                else:
                    j = int(rng.integers(d))
                    g = tuple((x[0], x[1] + (x[1] - x[0] if i == j else 0), x[2]) for i, x in enumerate(h))
                ns = [x[2] for x in g]
                mon.cover("relatives|%s|d%d" % (cls, d))
            a, b, o = [x[0] for x in g], [x[1] for x in g], list(ns)
            if rng.random() < 0.5:
                a, b, o = np.array(a), np.array(b), np.array(o)
            m = Model(cls, g, None)
            if rng.random() < 0.5:
                V, A, form = values(m)
                m.own = mon.do(cls, K, a, b, o, A)
                m.V, m.last, m.n = V, "constructor " + form, 1
                m.handed = [A] if isinstance(A, np.ndarray) and form != "readonly" else []
            else:
                m.own = mon.do(cls, K, a, b, o)
                V, A, form = values(m)
                mon.do(cls + ".set_values", m.own.set_values, A)
                m.V, m.last, m.n = V, "set " + form, 1
                m.handed = [A] if isinstance(A, np.ndarray) and form != "readonly" else []
            if isinstance(a, np.ndarray):  # the caller's bound arrays are the caller's
                a[:] = a + 17.0
                b[:] = b + 99.0
                o[:] = 3
            objs.append(m)

        def observe(m):
            kk = "%s|d%d|%%s|%s|n%d" % (cls, d, m.last if m.last.startswith("after") else m.last.split(" ")[0], min(m.n, 3))
            what = ["batch", "batch", "point", "in place", "own grid", "own grid", "empty"][rng.integers(7)]
            if what == "own grid":
                G = np.asarray(mon.do(cls + ".grid", lambda: m.own.grid))
                E = np.stack([x.ravel() for x in np.meshgrid(*[ref.nodes1d(x).astype(float) for x in m.g], indexing="ij")], -1)
                if m.k == 1:
                    # documented layout of linear objects: one column per point
                    if not mon.true(cls + ".grid shape", G.shape == E.T.shape, "%s vs %s" % (G.shape, E.T.shape), key=kk % "grid shape"):
                        return
                    G = G.T
                elif not mon.true(cls + ".grid shape", G.shape == E.shape, "%s vs %s" % (G.shape, E.shape), key=kk % "grid shape"):
                    return
                mon.close(cls + ".grid", G, E, 1e-13 * (np.abs(E).max(axis=0) + 0) + 0 * E, key=kk % "grid")
                got = mon.do(cls + " at its own grid", m.own, np.ascontiguousarray(G))
                w = m.V.reshape(len(E), -1) if m.multi else m.V.ravel()
                _, t = m.want(E)
                mon.close(cls + " at its own grid", got, w, t, key=kk % "own grid", ctx=ctx_points(m.g, E))
                return
            N = 0 if what == "empty" else [1, 5, 30][rng.integers(3)]
            if what == "batch" and rng.random() < 0.05 and np.prod([x[2] for x in m.g]) < 200:
                N = 5000 // d
            P, _ = gen.points(rng, m.g, N, "any")
            if what == "empty" and m.multi and m.k == 3 and d == 0:
                return
            w, t = m.want(P)
            if what == "point":
                P = P[:1]
                got = mon.do(cls + " at a point", m.own, buf.put(P[0]) if rng.random() < 0.5 else P[0])
                mon.close(cls + " at a point", got, w[0], t[0], key=kk % "point", ctx=ctx_points(m.g, P[0]))
            elif what == "in place" and cls == "CubicSpline":
                out = np.full(N, np.nan)
                mon.do(cls + ".interpolate(values=)", m.own.interpolate, P, out)
                mon.close(cls + " in place", out, w, t, key=kk % "in place", ctx=ctx_points(m.g, P))
            else:
                f = m.own if rng.random() < 0.6 else m.own.interpolate
                if rng.random() < 0.3:
                    P = gen.layout(P, ["F", "A", "CR"][rng.integers(3)])
                elif rng.random() < 0.5:
                    P = buf.put(P)
                    mon.cover("refilled points|" + cls)
                got = mon.do(cls + " at points", f, P)
                mon.close(cls + " at points", got, w, t, key=kk % what, ctx=ctx_points(m.g, P))

        try:
            create()
            for s in range(spec["steps"]):
                if rng.random() < 0.12 and len(objs) < 4:
                    create()
                m = objs[rng.integers(len(objs))]
                if rng.random() < 0.07 and len(objs) < 5:  # a copy is an object of its own
                    how = ["deepcopy", "pickle"][rng.integers(2)]
                    c = Model(m.cls, m.g, mon.do("%s of a %s" % (how, cls), copy.deepcopy if how == "deepcopy" else lambda o: pickle.loads(pickle.dumps(o)), m.own))
                    c.V, c.last, c.n = m.V.copy(), "after " + how, m.n
                    objs.append(c)
                    mon.cover("copies|%s|%s" % (cls, how))
                    m = objs[rng.integers(len(objs))]
                a = rng.random()
                if a < 0.25:
                    V, A, form = values(m)
                    if rng.random() < 0.35:  # the accepted values in another arrangement
                        V = m.V.ravel().copy()
                        how = ["permuted", "reversed", "negated", "doubled", "swapped", "shifted"][rng.integers(6)]
                        if how == "permuted":
                            V = rng.permutation(V)
                        elif how == "reversed":
                            V = V[::-1]
                        elif how == "negated":
                            V = -V
                        elif how == "doubled":
                            V = 2 * V
                        elif how == "shifted":
                            V = np.roll(V, 1)
                        else:
                            i, j = rng.integers(V.size, size=2)
                            V[[i, j]] = V[[j, i]]
                        V = V.reshape(m.V.shape).copy()
                        A, form = V.copy(), how
                    mon.do(cls + ".set_values", m.own.set_values, A)
                    m.V, m.last, m.n = V, "set " + form, m.n + 1
                    m.handed = [A] if isinstance(A, np.ndarray) and form != "readonly" else []
                elif a < 0.40 and m.k == 3:
                    V, A, form = values(m)
                    B = np.array(A, dtype=float)
                    B.flat[rng.integers(B.size) if rng.random() < 0.6 else B.size - 1] = [np.nan, np.inf, -np.inf][rng.integers(3)]
                    mon.expect_raise(cls + ".set_values(non-finite)", m.own.set_values, B, key=cls + "|rejects non-finite values|d%d" % d)
                    m.last = "after rejected"
                elif a < 0.48 and m.k == 3:
                    P, _ = gen.points(rng, m.g, 4, "any")
                    P[rng.integers(4), rng.integers(d)] = [np.nan, np.inf, -np.inf][rng.integers(3)]
                    if rng.random() < 0.3:
                        P = P[np.argmin(np.isfinite(P).all(axis=1))]
                    mon.expect_raise(cls + "(non-finite points)", m.own, P, key=cls + "|rejects non-finite points|%dd" % P.ndim)
                elif a < 0.55:
                    bad = np.zeros((int(np.prod([x[2] for x in m.g])) + 1,) + ((2,) if m.multi else ()))
                    mon.expect_raise(cls + ".set_values(wrong size)", m.own.set_values, bad, key=cls + "|rejects wrong size|d%d" % d)
                    m.last = "after rejected"
                elif a < 0.64 and m.handed:
                    # the caller keeps one array, changes some of it in place and hands it over again
                    A = m.handed[0]
                    how = ["same", "one", "scaled", "slightly"][rng.integers(4)]
                    if how == "one":
                        A.flat[rng.integers(A.size)] += 3
                    elif how == "scaled":
                        A *= 3
                    elif how == "slightly" and A.dtype.kind == "f":
                        A *= 1 + 1e-6
                    mon.do(cls + ".set_values", m.own.set_values, A)
                    m.V = np.array(A, dtype=float).reshape(m.V.shape)
                    m.last, m.n = "resubmitted " + how, m.n + 1
                elif a < 0.70 and m.k == 3 and m.handed:
                    for x in m.handed:
                        x[...] = 77
                    m.handed = []
                    m.last = "mutated"
                observe(m)
                if rng.random() < 0.25:  # and another live object
                    observe(objs[rng.integers(len(objs))])
                if rng.random() < 0.1:  # a result handed out earlier may be written by the caller
                    P, _ = gen.points(rng, m.g, 3, "in")
                    r0 = mon.do(cls + " at points", m.own, P)
                    r0[...] = np.nan
                    observe(m)
            for m in objs:
                observe(m)
        except ApiFailed:
            continue
        mon.note("objects", len(objs))
        mon.note("histories")
        mon.sample(cls=cls, grid=[desc(m.g) for m in objs], last=[m.last for m in objs])
