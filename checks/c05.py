"""C05: derivatives returned by eval_spline against the analytic derivatives of the reference interpolant."""
import itertools
import numpy as np
from mon import gen, ref
from mon.core import ApiFailed
from mon.common import api, kind_patterns, pick_ns, nclass, desc, ctx_points

RULE = ("one case = one returned array compared column by column (every requested order) with the derivative weights of the reference "
        "interpolant; key = (spline order, dimension, regular/irregular pattern, requested order list, calling form).  Non-trivial: random data, "
        "several orders per request in shuffled sequence (repetitions, mixed partials, leading zeros omitted), points inside, on nodes, on bounds and outside.")
ASSUMPTIONS = ["k=1: at an interior node either one-sided slope is accepted (the interpolant is not differentiable there)",
               "extrapolation mode 'linear' outside; the three modes inside",
               "agreement up to rounding in units of the coordinate (1e-10 relative to the stencil magnitude plus conditioning)"]
REQUIRED = ["k1|d1|u", "k1|d1|n", "k3|d1", "k1|d2|uu", "k1|d2|nn", "k1|d2|un", "k3|d2", "k1|d3", "k3|d3", "inplace", "tuple", "vv", "one cell|"]


def order_lists(k, d, rng, m):
    """deterministic core + random lists"""
    L = []
    units = [tuple(1 if i == j else 0 for i in range(d)) for j in range(d)]
    L.append(((0,) * d,) + tuple(units))
    L.append(tuple(units[::-1]) + ((0,) * d,))
    if d > 1:
        L.append(((1,) * d, (0,) * d))
    if k == 1:
        L.append(((2,) * d, (1,) + (0,) * (d - 1), (0,) * (d - 1) + (2,), (0,) * d))
    else:
        L.append(((1,) + (0,) * (d - 1),))
    hi = 4 if k == 1 else 2
    if d <= 2 or k == 1:  # everything at once: every pair of orders occurs in one request
        full = list(itertools.product(range(3 if k == 1 and d <= 2 else 2), repeat=d)) + ([tuple(2 if i == j else 0 for i in range(d)) for j in range(d)] if k == 1 and d > 2 else [])
        L.insert(2, tuple(full[i] for i in rng.permutation(len(full))))
    while len(L) < m:
        n = int(rng.integers(1, 6))
        L.append(tuple(tuple(int(x) for x in rng.integers(0, hi, d)) for _ in range(n)))
    return L[:m]


def tasks(tier, seed):
    rng = np.random.default_rng(seed + 505)
    q = tier == "quick"
    T = []
    for k in (1, 3):
        for d in (1, 2, 3) if q or k == 3 else (1, 2, 3, 4):
            pats = kind_patterns(d, rng, (4 if d < 3 else 5) if q else None) if k == 1 else ["u" * d]
            for pat in pats:
                m = {1: 6, 2: 5, 3: 3, 4: 4}[d] if q else {1: 14, 2: 12, 3: 8, 4: 5}[d]
                for i, ol in enumerate(order_lists(k, d, rng, m)):
                    parts = [None]
                    if k == 3 and d == 3 and i < 2:  # expensive to compile: spread the calling forms over tasks
                        parts = [["batch", "batch vv inplace", "point"], ["batch inplace", "tuple", "point vv"], ["batch vv", "point inplace", "point vv inplace"]]
                        parts = parts[:1] if q and i == 1 else parts
                    for pi, forms in enumerate(parts):
                        T.append(dict(name="k%d-d%d-%s-%d-%d" % (k, d, pat, i, pi), k=k, d=d, pat=pat, orders=[list(o) for o in ol], forms=forms,
                                      light=bool(q and d >= 2 and i >= 2), reps=8 if q else 40, cost=(3 if k == 3 else 1) * d * d))
    if not q:
        for i, ol in enumerate(order_lists(3, 4, rng, 3)):
            T.append(dict(name="k3-d4-%d" % i, k=3, d=4, pat="uuuu", orders=[list(o) for o in ol], reps=10, light=True, cost=40))
    else:
        T.append(dict(name="k3-d4-q1", k=3, d=4, pat="uuuu", orders=[[0, 0, 0, 1], [0, 1, 1, 0]], forms=["batch"], reps=6, light=True, cost=50))
        T.append(dict(name="k3-d4-q2", k=3, d=4, pat="uuuu", orders=[[1, 0, 0, 0], [0, 0, 1, 0]], forms=["point"], reps=6, light=True, cost=50))
        T.append(dict(name="k1-d4-q", k=1, d=4, pat="unnu", orders=[[0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 1, 0], [0, 0, 1, 0]], reps=5, light=False, cost=4))
    return T


def expected(k, g, C, P, orders):
    """list over alternatives (sides at interior nodes) is folded in: returns want, tol, and alternatives"""
    d = len(g)
    base = [ref.evaluate(k, g, C, P, nu=tuple(o)) for o in orders]
    want = np.stack([b[0] for b in base], -1)
    tol = np.stack([b[1] for b in base], -1)
    alts = []
    if k == 1 and len(P):
        near = np.stack([ref.near_node(x, P[:, i]) for i, x in enumerate(g)], -1)
        if near.any():
            # evaluate on either side of the node in all combinations
            for sides in itertools.product((-1, 1), repeat=d):
                cols = []
                for o in orders:
                    Q = P.copy()
                    for i, x in enumerate(g):
                        if o[i] == 1:
                            h = 0.25 * float(np.min(np.diff(ref.nodes1d(x))))
                            Q[:, i] = np.where(near[:, i], P[:, i] + sides[i] * h, P[:, i])
                    # the weights of order 1 do not depend on the position inside the cell
                    cols.append(ref.evaluate(k, g, C, Q, nu=tuple(o)))
                alts.append(np.stack([c[0] for c in cols], -1))
                tol = np.maximum(tol, np.stack([c[1] for c in cols], -1))  # the data of either cell count
    return want, tol, alts


def run(spec, mon):
    _, _, eval_spline, _, _, _ = api()
    k, d, pat = spec["k"], spec["d"], spec["pat"]
    orders = tuple(tuple(o) for o in spec["orders"])
    no = len(orders)
    diff = str(orders)
    rng = mon.rng()
    limit = {1: 400, 2: 900, 3: 2000, 4: 3000}[d]
    broken = set()
    es = lambda g, C, p, o=None, mode="linear": eval_spline(g, C, p, out=o, k=k, diff=diff, extrap_mode=mode)

    def judge(form, getter, W, P, sl=None):
        want, tol, alts = W
        if sl is not None:
            want, tol, alts = want[sl], tol[sl], [a[sl] for a in alts]
        if form in broken or (spec.get("forms") and form not in spec["forms"]):
            return
        try:
            got = mon.do("k=%d d=%d %s orders=%s: %s" % (k, d, pat, diff, form), getter)
        except ApiFailed:
            broken.add(form)
            return
        if not mon.close("derivatives k=%d, %s" % (k, form), got, want, tol, alts=alts, key="k%d|d%d|%s|%s|%s" % (k, d, pat, diff, form), ctx=ctx_points(g, P)):
            broken.add(form)

    for r in range(spec["reps"]):
        ns = pick_ns(rng, d, limit, cubic=(k == 3))
        if r == 0:
            ns = [2] * d
        if r == 1:
            ns = [3 + i for i in range(d)]
        if r == 6 and d <= 2:
            ns = [int(x) for x in rng.integers(2, 9, d)]
        g = gen.grid(rng, pat, ns)
        where = ["in", "any", "out"][r % 3]
        N = [30, 1, 30, 60][r % 4]
        if r == 6 and d <= 2:
            N = [0, 6000, 2500][d]
        P, lab = gen.points(rng, g, N, where)
        shp = tuple(n + (2 if k == 3 else 0) for n in ns)
        C = gen.values(rng, shp)
        nx = gen.ncomp(rng) if N < 1000 else 2
        CC = gen.values(rng, shp + (nx,))
        W = expected(k, g, C, P, orders)
        WW = expected(k, g, CC, P, orders)
        mon.sample(k=k, grid=desc(g), orders=diff, classes=lab[:2], first=W[0][0].tolist())

        def inplace(f, shape):
            o = np.full(shape, np.nan)
            def go():
                f(o)
                return o
            return go

        judge("batch", lambda: es(g, C, P), W, P)
        judge("batch vv inplace", inplace(lambda o: es(g, CC, P, o), (N, nx, no)), WW, P)
        if not spec["light"]:
            judge("batch inplace", inplace(lambda o: es(g, C, P, o), (N, no)), W, P)
            judge("batch vv", lambda: es(g, CC, P), WW, P)
            if where == "in" and d <= 2:
                m = ["nearest", "constant"][r // 3 % 2]
                judge("batch " + m, lambda: es(g, C, P, None, m), W, P)
        if r % 2:  # the data outside of one cell are unusable
            P1, sl = gen.one_cell(rng, k, g, 6, ["in", "out"][r // 2 % 2])
            Cb, Cz = gen.spoil(rng, gen.values(rng, shp, "normal"), sl)
            judge("batch", lambda: es(g, Cb, P1), expected(k, g, Cz, P1, orders), P1)
            mon.cover("one cell|k%d|d%d" % (k, d))
        for j in range(min(N, 4)):
            pa, pt = P[j].copy(), tuple(float(v) for v in P[j])
            judge("point", lambda: es(g, C, pa), W, pa, j)
            if not spec["light"]:
                judge("tuple", lambda: es(g, C, pt), W, pa, j)
                judge("point inplace", inplace(lambda o: es(g, C, pa, o), (no,)), W, pa, j)
                judge("point vv", lambda: es(g, CC, pa), WW, pa, j)
                judge("point vv inplace", inplace(lambda o: es(g, CC, pa, o), (nx, no)), WW, pa, j)
