"""C01: multilinear evaluation inside the grid against the piecewise-linear reference model."""
import numpy as np
from mon import gen, ref
from mon.common import api, kind_patterns, pick_ns, nclass, desc, ctx_points

RULE = ("one case = one oracle-checked result array; key = (entry point, dimension, regular/irregular pattern, "
        "value rank, batch class, smallest node count class, probe).  Non-trivial: non-constant values or the full weight-matrix probe "
        "(identity data), points of >=8 classes (nodes, bounds, cell boundaries +-1e-5 step, midpoints, interior).")
ASSUMPTIONS = ["finite node values", "strictly increasing irregular nodes",
               "agreement is up to rounding: 1e-10 of the stencil magnitude plus the conditioning of the local coordinate"]
REQUIRED = ["eval_linear", "eval_spline", "mlinterp", "weights", "one cell|", "d1", "d2", "d3", "d4", "d5"]


def tasks(tier, seed):
    rng = np.random.default_rng(seed + 101)
    T = []
    caps = {1: None, 2: None, 3: None, 4: 6, 5: 3, 6: 2} if tier == "quick" else {1: None, 2: None, 3: None, 4: None, 5: 12, 6: 6}
    reps = 14 if tier == "quick" else 120
    for d, cap in caps.items():
        for pat in kind_patterns(d, rng, cap):
            T.append(dict(name="lin-d%d-%s" % (d, pat), d=d, pat=pat, reps=reps if d <= 4 else reps // 2, cost=d))
    return T


def run(spec, mon):
    eval_linear, _, eval_spline, _, _, xo = api()
    from interpolation import mlinterp
    d, pat = spec["d"], spec["pat"]
    rng = mon.rng()
    limit = {1: 400, 2: 3000, 3: 4000, 4: 3000, 5: 2000, 6: 1500}[d]

    def variants(V, VV, P):
        """(name, callable) for all entry points that take these data"""
        yield "eval_linear", lambda g, p: eval_linear(g, V, p), 0
        yield "eval_linear vv", lambda g, p: eval_linear(g, VV, p), 1
        yield "eval_spline", lambda g, p: eval_spline(g, V, p, out=None, k=1, diff="None", extrap_mode="linear"), 0
        yield "eval_spline nearest", lambda g, p: eval_spline(g, V, p, out=None, k=1, diff="None", extrap_mode="nearest"), 0
        yield "eval_spline constant vv", lambda g, p: eval_spline(g, VV, p, out=None, k=1, diff="None", extrap_mode="constant"), 1
        yield "mlinterp", lambda g, p: mlinterp(g, V, p), 0

    for r in range(spec["reps"]):
        ns = pick_ns(rng, d, limit)
        if r == 0:
            ns = [2] * d
        if r == 1:  # pairwise distinct node counts
            ns = [2 + i for i in range(d)]
        if r == 2 and d <= 4:
            ns = [5 - i for i in range(d)]
        if d <= 2 and r in (4, 11):  # long tables
            ns = [int(rng.integers(3000, 9000))] if d == 1 else [int(x) for x in rng.permutation([int(rng.integers(2, 4)), int(rng.integers(1500, 3000))])]
        N = [1, 7, 40, 40, 40, 3, 40, 150][r % 8]
        if r == 9:
            N = 0
        if r in (4, 11) and d <= 2:
            N = 200
        if r == 10 and d <= 3:
            N, ns = [0, 120000, 30000, 6000][d], [int(x) for x in rng.integers(2, 12, d)]
        g = gen.grid(rng, pat, ns)
        P, lab = gen.points(rng, g, N)
        V = gen.values(rng, tuple(ns))
        nx = gen.ncomp(rng) if N < 1000 else 2
        VV = gen.values(rng, tuple(ns) + (nx,))
        ncl = "n2" if min(ns) == 2 else "n3+"
        for name, f, vv in variants(V, VV, P):
            want, tol = ref.evaluate(1, g, VV if vv else V, P)
            got = mon.do(name + " batch", f, g, P)
            mon.close(name + " batch", got, want, tol, key="%s|d%d|%s|N%s|%s" % (name, d, pat, nclass(N), ncl), ctx=ctx_points(g, P))
        # single points: array and tuple
        for j in range(min(N, 4)):
            pa, pt = P[j].copy(), tuple(float(v) for v in P[j])
            w, t = ref.evaluate(1, g, V, P[j:j + 1])
            ww, tt = ref.evaluate(1, g, VV, P[j:j + 1])
            kk = "|d%d|%s|%s" % (d, pat, ncl)
            mon.close("eval_linear point", mon.do("eval_linear point", eval_linear, g, V, pa), w[0], t[0], key="eval_linear point" + kk, ctx=ctx_points(g, pa))
            mon.close("eval_linear tuple point", mon.do("eval_linear tuple point", eval_linear, g, V, pt), w[0], t[0], key="eval_linear tuple" + kk, ctx=ctx_points(g, pa))
            mon.close("eval_linear vv point", mon.do("eval_linear vv point", eval_linear, g, VV, pa), ww[0], tt[0], key="eval_linear vv point" + kk, ctx=ctx_points(g, pa))
            mon.close("mlinterp tuple", mon.do("mlinterp tuple", mlinterp, g, V, pt), w[0], t[0], key="mlinterp tuple" + kk, ctx=ctx_points(g, pa))
        mon.sample(grid=desc(g), bounds=[ref.bounds(x) for x in g], N=N, classes=lab[:2], seed_task=spec["name"], rep=r)
        # nothing but the corners of the cell is used: the other nodes hold nan, infinities or huge numbers
        if r % 2 == 0:
            P1, sl = gen.one_cell(rng, 1, g, [5, 1, 20][r % 3], "in" if r % 4 else "out")
            Vb, Vz = gen.spoil(rng, gen.values(rng, tuple(ns), "normal"), sl)
            VVb, VVz = gen.spoil(rng, gen.values(rng, tuple(ns) + (nx,), "normal"), sl)
            want, tol = ref.evaluate(1, g, Vz, P1)
            want2, tol2 = ref.evaluate(1, g, VVz, P1)
            kk = "|d%d|%s" % (d, pat)
            for name, f, w, t in (("eval_linear", lambda: eval_linear(g, Vb, P1), want, tol), ("eval_linear vv", lambda: eval_linear(g, VVb, P1), want2, tol2), ("mlinterp", lambda: mlinterp(g, Vb, P1), want, tol),
                                  ("eval_linear tuple", lambda: eval_linear(g, Vb, tuple(float(v) for v in P1[0])), want[0], tol[0]), ("eval_linear vv point", lambda: eval_linear(g, VVb, P1[0].copy()), want2[0], tol2[0])):
                mon.close(name + " uses the corners of the cell only", mon.do(name + " (one cell)", f), w, t, key="one cell|" + name + kk, ctx=ctx_points(g, P1))
        # weight-matrix probe: identity data reveal the weight given to every node
        if r % 3 == 0 or r < 3:
            ns2 = pick_ns(rng, d, 260) if r >= 3 else ns
            if np.prod(ns2) > 800:
                continue
            g2 = gen.grid(rng, pat, ns2)
            P2, _ = gen.points(rng, g2, 60)
            E = np.eye(int(np.prod(ns2))).reshape(tuple(ns2) + (-1,))
            want, tol = ref.evaluate(1, g2, E, P2)
            tol = tol + 1e-12 + 64 * sum(ref.rel_du(x, P2[:, i]) for i, x in enumerate(g2))[:, None]
            got = mon.do("eval_linear identity", eval_linear, g2, E, P2)
            mon.close("weights of all nodes", got, want, tol, key="weights|d%d|%s|%s" % (d, pat, "n2" if min(ns2) == 2 else "n3+"), ctx=ctx_points(g2, P2))
            # every node is reproduced
            Z = np.stack([m.ravel() for m in np.meshgrid(*[ref.nodes1d(x).astype(float) for x in g2], indexing="ij")], -1)
            V2 = gen.values(rng, tuple(ns2))
            want, tol = ref.evaluate(1, g2, V2, Z)
            for nm, f in (("eval_linear", lambda: eval_linear(g2, V2, Z)), ("mlinterp", lambda: mlinterp(g2, V2, Z))):
                got = mon.do(nm + " at nodes", f)
                mon.close(nm + " reproduces nodes", got, V2.ravel(), tol, key="nodes|%s|d%d|%s" % (nm, d, pat), ctx=ctx_points(g2, Z))
