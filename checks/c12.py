"""C12: values and gradient of cubic multi-splines against the weight model."""
import numpy as np
from mon import gen, ref
from mon.common import pick_ns, nclass, desc, ctx_points
from mon.guard import Canary

RULE = ("one case = one oracle-checked (values, gradient) pair; key = (entry point, execution variant, dimension, inside/outside, components, node-count "
        "class, batch class).  Oracle: extended-precision uniform B-spline weights and their derivatives with linear continuation; the full gradient weight "
        "tensor (identity coefficients); plain evaluation of the same spline.  Non-trivial: unequal node counts and steps, random coefficients, points on nodes, "
        "bounds, interior and every combination of coordinates outside.")
ASSUMPTIONS = ["finite coefficients", "the 4-dimensional kernel is run as plain Python in the quick tier (compiling it takes minutes) and compiled in the thorough tier"]
REQUIRED = ["G|jit|d1", "G|jit|d2", "G|jit|d3", "G|nojit|d4", "interpolate|", "out arrays|", "weights|", "one cell|", "|in|", "|out|", "plain"]


def tasks(tier, seed):
    q = tier == "quick"
    L = []
    for d in (1, 2, 3):
        L.append(dict(name="G-jit-d%d" % d, d=d, env="jit", fam="G", reps=30 if q else 400, cost=4 * d))
        L.append(dict(name="obj-jit-d%d" % d, d=d, env="jit", fam="obj", reps=12 if q else 150, cost=5 * d))
    for d in (1, 2, 3, 4):
        for i in range(1 if q or d < 3 else 3):
            L.append(dict(name="G-nojit-d%d-%d" % (d, i), d=d, env="nojit", fam="G", reps={1: 20, 2: 14, 3: 10, 4: 8}[d] * (1 if q else 6), cost=3 * d))
    L.append(dict(name="obj-nojit-d4", d=4, env="nojit", fam="obj", reps=4 if q else 20, cost=8))
    L.append(dict(name="weights-nojit-d4", d=4, env="nojit", fam="weights", reps=2 if q else 8, cost=9))
    L.append(dict(name="weights-nojit-d3", d=3, env="nojit", fam="weights", reps=3 if q else 10, cost=5))
    for d in (1, 2, 3):
        L.append(dict(name="weights-jit-d%d" % d, d=d, env="jit", fam="weights", reps=10 if q else 60, cost=2 * d))
    if not q:
        L.append(dict(name="G-jit-d4", d=4, env="jit", fam="G", reps=200, cost=200))
        L.append(dict(name="weights-jit-d4", d=4, env="jit", fam="weights", reps=20, cost=190))
    return L


def reference(g, C, P):
    d = len(g)
    v, tv = ref.evaluate(3, g, C, P)
    D, T = [], []
    for i in range(d):
        nu = tuple(1 if j == i else 0 for j in range(d))
        w, t = ref.evaluate(3, g, C, P, nu=nu)
        D.append(w)
        T.append(t)
    return v, tv, np.stack(D, 1), np.stack(T, 1)


def run(spec, mon):
    from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G as G
    d, fam, env = spec["d"], spec["fam"], spec["env"]
    rng = mon.rng()
    py = env == "nojit"
    lim = {1: 400, 2: 3000, 3: 4000, 4: 5000}[d]
    buf = gen.Buffers()
    for r in range(spec["reps"]):
        ns = pick_ns(rng, d, lim, cubic=True)
        if r == 0:
            ns = [2] * d
        if r == 1:
            ns = [5 - i for i in range(d)]
        if r == 2:
            ns = [2 + i for i in range(d)]
        where = "in" if r % 2 == 0 else "out"
        if r % 5 == 4:
            where = "any"
        N = [40, 25, 1, 60, 0, 40][r % 6]
        if py:
            N = min(N, {1: 40, 2: 30, 3: 12, 4: 6}[d])
        big = r in (7, 11) and not py and fam != "weights"
        if big:
            N, ns = [0, 30000, 8000, 1500, 300][d], [int(x) for x in rng.integers(2, 7, d)]
        g = gen.grid(rng, "u" * d, ns)
        nx = 2 if big else gen.ncomp(rng, 12 if py else 40) if not (py and d == 4) else int(rng.integers(1, 3))
        shp = tuple(n + 2 for n in ns)
        a, b, o = np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array(ns)
        kk = "|%s|d%d|%s|nx%d|%s|N%s" % (env, d, where, min(nx, 2), "n2" if min(ns) == 2 else "n3+", nclass(N))
        P, lab = gen.points(rng, g, N, where)
        if fam == "weights":
            ns = [int(rng.integers(2, {1: 30, 2: 7, 3: 4, 4: 3}[d] + 1)) for _ in range(d)]
            if py and d == 4:
                ns = [[2, 3, 2, 2], [3, 2, 2, 2], [2, 2, 3, 2], [2, 2, 2, 3]][(r + spec["seed"]) % 4]
            g = gen.grid(rng, "u" * d, ns, "unit" if r % 2 else "asym")
            shp = tuple(n + 2 for n in ns)
            a, b, o = np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array(ns)
            P, lab = gen.points(rng, g, (2 if d == 4 else 4) if py else 20, "any")
            E = np.eye(int(np.prod(shp))).reshape(shp + (-1,))
            v, tv, D, T = reference(g, E, P)
            far = 1 + np.abs(np.stack([(P[:, i] - x[0]) / (x[1] - x[0]) * (x[2] - 1) for i, x in enumerate(g)], -1)).max(axis=1)
            tv = tv + (1e-11 * far ** d)[:, None]
            T = T + (1e-11 * far ** d)[:, None, None] * np.array([(x[2] - 1) / (x[1] - x[0]) for x in g])[None, :, None]
            got = mon.do("vec_eval_cubic_splines_G identity", G, a, b, o, E, P)
            mon.close("value weights", got[0], v, tv, key="weights|value" + kk, ctx=ctx_points(g, P))
            mon.close("gradient weights", got[1], D, T, key="weights|gradient" + kk, ctx=ctx_points(g, P))
            continue
        C = gen.values(rng, shp + (nx,))
        mon.sample(grid=desc(g), N=N, nx=nx, where=where, variant=env, classes=lab[:2])
        if fam == "G":
            if r % 2:  # nothing but the 4^d local coefficients is used
                P1, sl = gen.one_cell(rng, 3, g, 2 if py else 6, where if where == "in" else "out")
                Cb, Cz = gen.spoil(rng, gen.values(rng, shp + (nx,), "normal"), sl)
                v, tv, D, T = reference(g, Cz, P1)
                got = mon.do("vec_eval_cubic_splines_G (one cell)", G, a, b, o, Cb, P1)
                mon.close("values use the local coefficients only", got[0], v, tv, key="one cell|values" + kk, ctx=ctx_points(g, P1))
                mon.close("gradient uses the local coefficients only", got[1], D, T, key="one cell|gradient" + kk, ctx=ctx_points(g, P1))
            v, tv, D, T = reference(g, C, P)
            if r % 3 == 0:
                lay = ["F", "A", "CR"][(r // 3) % 3] if py else "C"
                got = mon.do("vec_eval_cubic_splines_G", G, a, b, o, gen.layout(C, lay), gen.layout(P, lay))
            elif r % 3 == 1:
                c1, c2 = Canary((N, nx), "C", np.nan), Canary((N, d, nx), "C", np.nan)
                got = mon.do("vec_eval_cubic_splines_G(out arrays)", G, a, b, o, C, P, c1.out, c2.out)
                mon.true("given outputs are the ones returned", np.shares_memory(got[0], c1.out) and np.shares_memory(got[1], c2.out) if N else True, key="out arrays|returned" + kk)
                mon.true("nothing written outside the outputs", c1.intact() and c2.intact(), key="out arrays|canary" + kk)
                got = [c1.out, c2.out]
                mon.cover("out arrays|" + kk)
            else:
                got = mon.do("vec_eval_cubic_splines_G", G, list(a), list(b), list(ns), C, P)
            if not mon.true("returns values and derivatives", isinstance(got, (list, tuple)) and len(got) == 2, repr(type(got)), key="G pair" + kk):
                continue
            mon.close("values of the multi-spline", got[0], v, tv, key="G" + kk + "|values", ctx=ctx_points(g, P))
            mon.close("gradient of the multi-spline", got[1], D, T, key="G" + kk + "|gradient", ctx=lambda i: "dimension %d component %d, " % i[1:] + ctx_points(g, P)(i))
            if not py and d < 3:
                from interpolation.splines import eval_cubic
                p = mon.do("eval_cubic", eval_cubic, g, C, P)
                mon.close("values agree with plain evaluation", got[0], p, 2 * tv, key="plain" + kk, ctx=ctx_points(g, P))
        else:
            from interpolation.splines import CubicSplines
            V = gen.values(rng, tuple(ns) + (nx,))
            s = mon.do("CubicSplines", CubicSplines, a, b, ns, V)
            if N and not py:  # used before, with other numbers in the same array of points
                P = buf.put(P[::-1])
                mon.do("CubicSplines.interpolate(diff=True)", s.interpolate, P, True)
                P[...] = P[::-1].copy()
            Cn = ref.prefilter(tuple(ns), V)
            v, tv, D, T = reference(g, Cn, P)
            one = reference(g, np.ones(shp), P)
            m = np.abs(Cn).max(initial=0)
            tv, T = tv + 10 * m * one[1][:, None], T + 10 * m * one[3][:, :, None]
            got = mon.do("CubicSplines.interpolate(diff=True)", s.interpolate, P, True)
            mon.close("CubicSplines values (diff=True)", got[0], v, tv, key="interpolate|values" + kk, ctx=ctx_points(g, P))
            mon.close("CubicSplines gradient", got[1], D, T, key="interpolate|gradient" + kk, ctx=ctx_points(g, P))
            if not py and d < 3:
                mon.close("CubicSplines values with and without derivatives", mon.do("CubicSplines()", s, P), got[0], 2 * tv, key="plain interpolate" + kk)
