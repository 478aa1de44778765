"""C18: cartesian enumeration and grid constructors."""
import itertools
import numpy as np
from mon import gen, ref

RULE = ("one case = one enumeration compared row by row with an independent multi-index loop (and the reshape contract checked with an injective function), or one "
        "accepted/rejected grid description; key = (function, order, d, shape class, node dtype).  Non-trivial: different lengths per dimension, lengths 1.., up to 6 dimensions.")
ASSUMPTIONS = ["every dimension has at least one node", "rejections: exception of any type; integer bounds are not tested either way"]
REQUIRED = ["cartesian|C", "cartesian|F", "mlinspace|C", "mlinspace|F", "nodes|regular", "nodes|irregular", "nodes|mixed", "reshape|C", "reshape|F", "UCGrid accepts", "CGrid accepts", "UCGrid rejects",
            "CGrid rejects", "bounds included", "default order", "int nodes", "mixed nodes"]


def tasks(tier, seed):
    q = tier == "quick"
    L = [dict(name="enum-d%d" % d, kind="enum", d=d, reps=60 if q else 800) for d in (1, 2, 3, 4, 5, 6)]
    L += [dict(name="enum-nojit-d%d" % d, kind="enum", d=d, env="nojit", reps=10 if q else 100) for d in (2, 3)]
    L += [dict(name="grids-%d" % i, kind="grids", reps=60 if q else 800) for i in range(2)]
    return L


def table(nodes, order):
    """all combinations, last (C) or first (F) dimension fastest"""
    n = [len(x) for x in nodes]
    T = np.empty((int(np.prod(n)), len(n)))
    q = np.arange(len(T))
    for i in (reversed(range(len(n))) if order == "C" else range(len(n))):
        T[:, i] = np.asarray(nodes[i], dtype=float)[q % n[i]]
        q = q // n[i]
    return T


def run(spec, mon):
    import interpolation.splines as S
    from interpolation import cartesian as K
    rng = mon.rng()
    if spec["kind"] == "enum":
        d = spec["d"]
        cap = 3000
        for r in range(spec["reps"]):
            while True:
                ns = [int(x) for x in rng.integers(1, {1: 40, 2: 20, 3: 10, 4: 7, 5: 5, 6: 4}[d] + 1, d)]
                if np.prod(ns) <= cap:
                    break
            if r == 0:
                ns = [1] * d
            if r in (3, 9):  # long enumerations
                ns = [int(x) for x in rng.permutation([[150000], [700, 301], [90, 41, 33], [25, 21, 18, 13], [12, 11, 9, 8, 13], [8, 7, 6, 7, 6, 5]][d - 1])]
            if r == 1:
                ns = [i + 1 for i in range(d)]
            if r == 2:
                ns = [d - i for i in range(d)]
            kind = "int nodes" if r % 5 == 4 else "mixed nodes" if r % 5 in (1, 3) else "float nodes"
            nodes = [rng.permutation(max(100, n))[:n] if kind == "int nodes" else rng.standard_normal(n) for n in ns]
            if kind == "mixed nodes":
                for i, n in enumerate(ns):
                    c = rng.integers(5) if i else rng.integers(4)
                    if c < 3:
                        nodes[i] = rng.permutation(max(100, n))[:n].astype([np.int64, np.int32, np.uint8][c])
                    elif c == 3:
                        nodes[i] = nodes[i].astype(np.float32)
            if r % 7 == 5:
                nodes = [list(x) for x in nodes]
            elif r % 7 == 6:
                nodes = [gen.layout(np.asarray(x), "A") for x in nodes]
            sh = "equal" if len(set(ns)) == 1 else "unequal"
            mon.sample(ns=ns, kind=kind)
            for order in ("C", "F", None):
                o = order or "C"
                W = table(nodes, o)
                got = mon.do("cartesian", K.cartesian, nodes, order) if order else mon.do("cartesian", K.cartesian, nodes)
                kk = "%s|d%d|%s|%s" % (order or "default order", d, sh, kind)
                mon.close("cartesian", got, W, 0, key="cartesian|" + kk)
                # the contract users rely on: values on the enumeration, reshaped, are the values at the nodes
                got = np.asarray(got)
                if got.shape == W.shape:
                    c = rng.standard_normal(d)
                    vals = (got @ c + np.sin(got).sum(axis=1)).reshape(ns, order=o)
                    ix = tuple(int(rng.integers(n)) for n in ns)
                    x = np.array([nodes[i][ix[i]] for i in range(d)], dtype=float)
                    mon.close("reshaped values belong to their nodes", vals[ix], x @ c + np.sin(x).sum(), 1e-12 * (np.abs(x).sum() * np.abs(c).sum() + d), key="reshape|" + kk)
                # mlinspace
                nn = [max(n, 2) for n in ns]
                while np.prod(nn) > max(cap, np.prod(ns)):
                    nn[int(np.argmax(nn))] = 2
                a, b = rng.uniform(-5, 5, d), rng.uniform(0.1, 9, d)
                b = a + b
                args = (a, b, np.array(nn)) if r % 2 else (a.tolist(), b.tolist(), nn)
                got = mon.do("mlinspace", K.mlinspace, *args, order) if order else mon.do("mlinspace", K.mlinspace, *args)
                N1 = [ref.nodes1d((a[i], b[i], nn[i])).astype(float) for i in range(d)]
                W = table(N1, o)
                mon.close("mlinspace", got, W, 1e-14 * (np.abs(a) + np.abs(b)) + 0 * W, key="mlinspace|" + kk)
                got = np.asarray(got)
                if got.shape == W.shape:
                    e = 1e-15 * (np.abs(a) + np.abs(b))
                    mon.true("bounds included", bool(np.all(np.abs(got.min(axis=0) - a) <= e) and np.all(np.abs(got.max(axis=0) - b) <= e)), "%s" % got[[0, -1]], key="bounds included|" + kk)
        return
    for r in range(spec["reps"]):
        d = int(rng.integers(1, 5))
        pat = "".join(rng.choice(["u", "n"], d))
        if r % 3 == 0:
            pat = "u" * d
        ns = [int(x) for x in rng.integers(2, 7, d)]
        g = gen.grid(rng, pat, ns)
        kind = "regular" if set(pat) == {"u"} else "irregular" if set(pat) == {"n"} else "mixed"
        mon.sample(pattern=pat, ns=ns)

        def same(got, name):
            ok = isinstance(got, tuple) and len(got) == d and all(
                (x is y or (isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.dtype == y.dtype and np.array_equal(x, y)) or (isinstance(x, tuple) and isinstance(y, tuple) and tuple(x) == tuple(y) and type(y[2]) is type(x[2])))
                for x, y in zip(g, got))
            mon.true(name + " returns the description unchanged", ok, "%s" % (got,), key="%s accepts|%s|d%d" % (name, pat, d))
        G = mon.do("CGrid", S.CGrid, *g)
        same(G, "CGrid")
        if kind == "regular":
            U = mon.do("UCGrid", S.UCGrid, *g)
            same(U, "UCGrid")
        W = table([ref.nodes1d(x).astype(float) for x in g], "C")
        tol = np.array([1e-14 * max(abs(v) for v in ref.bounds(x)) if isinstance(x, tuple) else 0.0 for x in g])
        for GG in [G] + ([U] if kind == "regular" else []):
            got = mon.do("nodes", S.nodes, GG)
            mon.close("nodes", got, W, tol + 0 * W, key="nodes|%s|d%d" % (kind, d))
            from interpolation.splines.eval_splines import eval_linear  # noqa
        # rejections: one bad dimension anywhere among good ones
        a, b, n = gen.grid1d(rng, "u", int(rng.integers(2, 9)))
        bad = [("reversed", (b, a, n)), ("empty", (a, a, n)), ("one node", (a, b, 1)), ("no node", (a, b, 0)), ("negative count", (a, b, -3)), ("nan", (float("nan"), b, n)), ("nan", (a, float("nan"), n)),
               ("fractional count", (a, b, n + 0.5)), ("pair", (a, b)), ("four", (a, b, n, n)), ("string", "abc"), ("none", None), ("number", 3.0)]
        badU = bad + [("array", np.linspace(a, b, 4))]
        badC = bad + [("2d array", np.ones((3, 2))), ("one-element array", np.array([a])), ("empty array", np.array([]))]
        for f, L, nm in ((S.UCGrid, badU, "UCGrid"), (S.CGrid, badC, "CGrid")):
            for k, x in (L if r % 4 == 0 else [L[rng.integers(len(L))]] if r > 20 else [L[r % len(L)]]):
                good = [gen.grid1d(rng, "u" if nm == "UCGrid" or rng.random() < 0.5 else "n", 4) for _ in range(int(rng.integers(0, 4)))]
                pos = int(rng.integers(len(good) + 1))
                mon.expect_raise("%s(%s)" % (nm, k), f, *(good[:pos] + [x] + good[pos:]), key="%s rejects|%s|pos%d of %d%s" % (nm, k, pos, len(good) + 1, "|mixed" if any(isinstance(x, np.ndarray) for x in good) else ""))
