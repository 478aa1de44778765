"""C16: Smolyak grids against an independent construction of the sparse-grid rule."""
import numpy as np
from mon import smolref as R

RULE = ("one case = one structural observation of one grid (point set, distinctness, bounds, basis columns, factors, count formula, transforms); key = (observation, "
        "d, mu, bounds form).  Oracle: own enumeration of level vectors, nested Chebyshev extrema and Chebyshev products.")
ASSUMPTIONS = ["mu given as int or as list/array of ints", "grids of at most a few thousand points"]
REQUIRED = ["points|", "iso", "aniso", "bounds|", "touching", "basis|", "factors|", "count|", "roundtrip|", "smol_inds|", "build_grid|", "build_B|", "nonsingular", "lb=default", "lb=scalar", "lb=list", "lb=array", "lb=intlist"]


def tasks(tier, seed):
    q = tier == "quick"
    rng = np.random.default_rng(seed)
    iso, an = R.configs(rng, tier, 900 if q else 2500)
    L = []
    allc = iso + an
    k = 16 if q else 32
    for i in range(k):
        L.append(dict(name="grids-%d" % i, cfg=[list(c) for c in allc[i::k]], reps=4 if q else 10, kind="grids"))
    L.append(dict(name="blocks", kind="blocks", cfg=[]))
    # random sequences of index sets that agree in the dimension and the largest level
    for i, (d, m) in enumerate([(2, 5), (3, 3), (3, 4), (4, 3), (5, 2), (5, 3), (6, 3), (6, 4)] + ([] if q else [(4, 5), (7, 3), (8, 3), (6, 5)])):
        L.append(dict(name="sets-%d-%d" % (d, m), kind="sets", d=d, m=m, cfg=[], reps=8 if q else 30, cost=2))
    return L


def bound_forms(rng, d):
    lo, hi = rng.uniform(-5, 2, d), rng.uniform(0.1, 9, d)
    hi = lo + hi
    assert (hi > lo).all()
    return [("default", None, None, -np.ones(d), np.ones(d)), ("array", lo, hi, lo, hi), ("list", lo.tolist(), hi.tolist(), lo, hi),
            ("scalar", float(lo[0]), float(hi[0]), np.full(d, lo[0]), np.full(d, hi[0])), ("intscalar", -2, 3, np.full(d, -2.0), np.full(d, 3.0)),
            ("intlist", [int(x) for x in range(-3, d - 3)], [int(2 + 2 * x) for x in range(d)], np.arange(-3.0, d - 3), 2.0 + 2 * np.arange(d)),
            ("mixed", None, np.abs(hi) + 3, -np.ones(d), np.abs(hi) + 3), ("mixed2", lo, 12.5, lo, np.full(d, 12.5)),
            ("tiny", 1e-6 * lo, 1e-6 * hi, 1e-6 * lo, 1e-6 * hi), ("far", lo + 1e4, hi + 1e4, lo + 1e4, hi + 1e4)]


def run(spec, mon):
    import interpolation.smolyak as M
    from interpolation.smolyak import grid as MG
    rng = mon.rng()
    if spec["kind"] == "blocks":
        for n in range(1, 9):
            want = [0.0] if n == 1 else [-np.cos(np.pi * j / 2 ** (n - 1)) for j in range(2 ** (n - 1) + 1)]
            mon.close("s_n", mon.do("s_n", MG.s_n, n), want, 1e-13, key="nodes|%d" % n)
            mon.close("m_i", mon.do("m_i", MG.m_i, n), len(want), 0, key="m_i|%d" % n)
            if n >= 2:
                A = mon.do("a_chain", MG.a_chain, n)
                flat = sorted(float(x) for i in range(1, n + 1) for x in A[i])
                mon.close("a_chain is a partition of the nodes", flat, want, 1e-13, key="chain|%d" % n)
        for d in range(2, 13):
            for mu in (1, 2, 3):
                mon.close("num_grid_points", mon.do("num_grid_points", M.num_grid_points, d, mu), R.count_fast(d, mu), 1e-9, key="count|formula|d%d|mu%d" % (d, mu))
        return
    if spec["kind"] == "sets":
        d, m = spec["d"], spec["m"]
        for r in range(spec["reps"]):
            mu = [int(x) for x in rng.integers(1, m + 1, d)]
            if r % 4 == 3:
                mu = [m] * d
                mu[int(rng.integers(d))] = 1
            mu[int(rng.integers(d))] = m
            if rng.random() < 0.35:
                mu = m
            arg = mu if isinstance(mu, int) else np.array(mu)
            lev, want = R.levels(d, mu), R.points(d, mu)
            kk = "sets|d%d|max%d|%s" % (d, m, "iso" if isinstance(mu, int) else "aniso")
            got = sorted(tuple(int(x) for x in i) for i in mon.do("smol_inds", M.smol_inds, d, arg))
            mon.true("smol_inds lists every level vector once", got == sorted(lev), "mu=%s after others: %d level vectors, expected %d" % (mu, len(got), len(lev)), key="smol_inds|" + kk)
            bg = np.asarray(mon.do("build_grid", M.build_grid, d, arg))
            mon.true("build_grid", bg.shape == want.shape and R.match_rows(bg, want) is not None, "mu=%s: point sets differ (%s vs %s)" % (mu, bg.shape, want.shape), key="build_grid|" + kk)
            pi = sorted(tuple(int(x) - 1 for x in i) for i in mon.do("poly_inds", MG.poly_inds, d, arg))
            deg = sorted(tuple(int(x) for x in i) for i in R.degrees(d, mu))
            mon.true("poly_inds lists every polynomial once", pi == deg, "mu=%s: %d polynomials, expected %d" % (mu, len(pi), len(deg)), key="poly_inds|" + kk)
            if len(want) <= 350:
                sg = mon.do("SmolyakGrid", M.SmolyakGrid, d, mu)
                mon.true("points are those of the sparse-grid rule", np.shape(sg.grid) == want.shape and R.match_rows(np.asarray(sg.grid), want) is not None, "mu=%s" % (mu,), key="points|" + kk)
        mon.sample(d=d, largest=m)
        return
    for d, mu in spec["cfg"]:
        iso = isinstance(mu, int)
        tag = "%s|d%d|mu%s" % ("iso" if iso else "aniso", d, mu)
        want = R.points(d, mu)
        deg = R.degrees(d, mu)
        n = len(want)
        forms = bound_forms(rng, d)
        pick = [forms[0]] + [forms[1 + i] for i in rng.permutation(len(forms) - 1)[:spec["reps"] - 1]]
        mon.sample(d=d, mu=mu, points=n)
        if iso and mu <= 3:
            mon.close("num_grid_points agrees with the grid", mon.do("num_grid_points", M.num_grid_points, d, mu), n, 1e-9, key="count|grid|" + tag)
        mua = mu if iso else np.array(mu)
        inds = mon.do("smol_inds", M.smol_inds, d, mua)
        got = sorted(tuple(int(x) for x in i) for i in inds)
        mon.true("smol_inds lists every level vector once", got == sorted(R.levels(d, mu)), "%d level vectors, expected %d" % (len(got), len(R.levels(d, mu))), key="smol_inds|" + tag)
        bg = np.asarray(mon.do("build_grid", M.build_grid, d, mua))
        mon.true("build_grid", bg.shape == want.shape and R.match_rows(bg, want) is not None, "point sets differ (%s vs %s)" % (bg.shape, want.shape), key="build_grid|" + tag)
        for form, lb, ub, LB, UB in pick:
            kk = tag + "|lb=" + form
            arg = mu if iso else (list(mu) if rng.random() < 0.5 else np.array(mu))
            sg = mon.do("SmolyakGrid", M.SmolyakGrid, d, arg, lb, ub)
            G, C, B = np.asarray(sg.grid), np.asarray(sg.cube_grid), np.asarray(sg.B)
            if not mon.true("number of points", G.shape == (n, d) and C.shape == (n, d), "%s / %s points, expected %d" % (G.shape, C.shape, n), key="points|number|" + kk):
                continue
            perm = R.match_rows(C, want)
            mon.true("points are those of the sparse-grid rule", perm is not None, "cube grid differs from the rule", key="points|set|" + kk)
            if n <= 1500:
                from scipy.spatial import cKDTree
                dd = cKDTree(C).query(C, k=2)[0][:, 1].min()
                mon.true("points are distinct", dd > 1e-8, "smallest distance %g" % dd, key="points|distinct|" + kk)
            W = UB - LB
            sc = np.abs(LB) + np.abs(UB)
            T = (G - (LB + UB) / 2) / (W / 2)
            mon.close("grid is the cube grid in user bounds", T, C, 1e-13 * (1 + sc / W) * 10 + 0 * C, key="points|user|" + kk)
            eps = 4e-15 * (1 + sc)
            mon.true("inside the bounds", bool(np.all(G >= LB - eps) and np.all(G <= UB + eps)), "grid leaves the bounds", key="bounds|inside|" + kk)
            mon.true("touching the bounds", bool(np.all(np.abs(G.min(axis=0) - LB) <= eps) and np.all(np.abs(G.max(axis=0) - UB) <= eps)),
                     "grid spans %s..%s, bounds %s..%s" % (G.min(axis=0), G.max(axis=0), LB, UB), key="bounds|touching|" + kk)
            if not mon.true("as many polynomials as points", B.shape == (n, n), "basis matrix is %s" % (B.shape,), key="basis|square|" + kk):
                continue
            V, _ = R.basis(deg, C)
            col = R.match_rows(np.ascontiguousarray(V.T), np.ascontiguousarray(B.T), 1e-9)
            mon.true("basis columns are the Chebyshev products of the rule", col is not None, "some column of B is not in the reference basis, or repeated", key="basis|columns|" + kk)
            s = np.linalg.svd(B, compute_uv=False)
            mon.true("basis matrix is nonsingular", s[-1] > 1e-9 * s[0], "singular values %g..%g" % (s[0], s[-1]), key="basis|nonsingular|" + kk)
            mon.close("stored factors reproduce the basis matrix", np.asarray(sg.B_L) @ np.asarray(sg.B_U), B, 1e-10, key="factors|" + kk)
            # transforms
            X = rng.uniform(-1.5, 1.5, (20, d))
            Y = np.asarray(mon.do("cube2dom", sg.cube2dom, X))
            tol = 1e-13 * (1 + sc / W) * 10
            mon.close("cube2dom", (Y - (LB + UB) / 2) / (W / 2), X, tol + 0 * X, key="roundtrip|affine|" + kk)
            mon.close("dom2cube inverts cube2dom", mon.do("dom2cube", sg.dom2cube, Y), X, tol + 0 * X, key="roundtrip|cube|" + kk)
            Y = LB + W * rng.uniform(-0.2, 1.2, (20, d))
            back = mon.do("cube2dom", sg.cube2dom, mon.do("dom2cube", sg.dom2cube, Y))
            mon.close("cube2dom inverts dom2cube", back, Y, 1e-13 * (W + sc) * 10 + 0 * Y, key="roundtrip|dom|" + kk)
            mon.close("corners", mon.do("dom2cube", sg.dom2cube, np.stack([LB, UB])), np.stack([-np.ones(d), np.ones(d)]), tol + np.zeros((2, d)), key="roundtrip|corners|" + kk)
            mon.close("one point", mon.do("dom2cube", sg.dom2cube, Y[0].copy()), (Y[0] - (LB + UB) / 2) / (W / 2), tol, key="roundtrip|point|" + kk)
            # the basis elsewhere, same column order
            if n <= 600:
                X = rng.uniform(-1, 1, (15, d))
                Bx = mon.do("build_B", M.build_B, d, mua, X)
                Vx, _ = R.basis(deg, X)
                cx = R.match_rows(np.ascontiguousarray(Vx.T), np.ascontiguousarray(np.asarray(Bx).T), 1e-9)
                mon.true("build_B at arbitrary points", cx is not None, "columns are not the reference basis", key="build_B|" + kk)
