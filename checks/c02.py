"""C02: extrapolation modes against the reference extensions, for every calling convention."""
import numpy as np
from mon import gen, ref
from mon.core import ApiFailed
from mon.common import api, kind_patterns, pick_ns, nclass, desc, ctx_points

RULE = ("one case = one oracle-checked result (array) at points of which about 3/4 have at least one coordinate outside "
        "and the others lie on bounds/nodes/inside; key = (spline order, dimension, regular/irregular pattern, mode, how the mode is passed, "
        "point form, value rank, allocated or in place, derivatives or not).  Non-trivial: random data, outside classes "
        "1e-7 width .. 4000 widths on either side, in any subset of the coordinates.")
ASSUMPTIONS = ["|coordinate - grid| up to 4000 grid widths (the cell index must fit an int64)",
               "derivatives reported under 'nearest' outside the grid are not judged (documentation does not define them)"]
REQUIRED = ["k1|d1", "k3|d1", "k1|d2", "k3|d2", "k1|d3", "k3|d3", "constant", "nearest", "linear", "default", "inplace", "tuple"]


def tasks(tier, seed):
    rng = np.random.default_rng(seed + 202)
    T = []
    reps = 10 if tier == "quick" else 60
    for k in (1, 3):
        for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            pats = kind_patterns(d, rng, {1: 2, 2: 4, 3: 3}[d] if tier == "quick" else 8) if k == 1 else ["u" * d]
            for pat in pats:
                for mode in ("linear", "nearest", "constant"):
                    if tier == "quick" and d == 3 and pat == "nnn" and mode != "nearest":
                        continue
                    fams = ["all"] if k == 1 or d == 1 else ["opt", "str"]
                    for fam in fams:
                        T.append(dict(name="k%d-d%d-%s-%s-%s" % (k, d, pat, mode, fam), k=k, d=d, pat=pat, mode=mode, fam=fam, reps=reps,
                                      cost=(4 if k == 3 else 1) * d * (2 if fam == "str" and mode != "linear" else 1), nodiff=tier == "quick" and k == 3 and d == 3))
    for d in (1, 2, 3, 4):
        T.append(dict(name="kernels-d%d" % d, k=3, d=d, pat="u" * d, mode="linear", fam="kernels", env="nojit", reps=10 if tier == "quick" else 80, cost=1))
    return T


def boundary(spec, mon, rng, g0, ev, es):
    """corners, edges and faces of many random grids: every point on the boundary belongs to the grid, in every mode"""
    k, d, pat, mode = (spec[x] for x in ("k", "d", "pat", "mode"))
    for r in range(30 if d < 3 else 15):
        g = g0()
        ns = [ref.size(x) for x in g]
        shp = tuple(n + (2 if k == 3 else 0) for n in ns)
        V = rng.uniform(0.5, 1.5, shp)
        VV = np.stack([V, -V], -1)
        P = np.array([[gen.coord(rng, x, ["lo", "hi", "hi", "node", "in"][rng.integers(5)]) for x in g] for _ in range(6)])
        P[0] = [ref.bounds(x)[1] for x in g]
        P[1] = [ref.bounds(x)[0] for x in g]
        for i in range(2, 6):
            P[i, rng.integers(d)] = np.nan  # placed below: at least one coordinate on the upper bound
            P[i] = [ref.bounds(x)[1] if np.isnan(y) else y for x, y in zip(g, P[i])]
        w, t = ref.evaluate(k, g, V, P, mode=mode)
        for nm, f in (("option", ev), ("string", es)):
            if f is None:
                continue
            key = "k%d|d%d|%s|%s|boundary %s" % (k, d, pat, mode, nm)
            one = mon.do(key, lambda: (f(g, V, P), f(g, VV, P), np.array([f(g, V, tuple(float(y) for y in p)) for p in P]), np.array([f(g, VV, p.copy()) for p in P])))
            for form, got, c in (("batch", one[0], None), ("batch vv", one[1], 1), ("tuple", one[2], None), ("point vv", one[3], 1)):
                if not mon.close("boundary belongs to the grid (%s), k=%d, %s %s" % (mode, k, nm, form), got, w if c is None else np.stack([w, -w], -1), t if c is None else np.stack([t, t], -1),
                                 key=key + "|" + form, ctx=ctx_points(g, P)):
                    return


def run(spec, mon):
    eval_linear, eval_cubic, eval_spline, _, _, xo = api()
    k, d, pat, mode, fam = (spec[x] for x in ("k", "d", "pat", "mode", "fam"))
    rng = mon.rng()
    opt = {"linear": xo.LINEAR, "nearest": xo.NEAREST, "constant": xo.CONSTANT}[mode]
    ev = eval_linear if k == 1 else eval_cubic
    evn = "eval_linear" if k == 1 else "eval_cubic"
    limit = {1: 400, 2: 600, 3: 1500, 4: 2500}[d]
    orders = [(0,) * d] + [tuple(1 if i == j else 0 for i in range(d)) for j in range(d)]
    diff = str(tuple(orders))
    broken = set()

    def judge(form, getter, want, tol, P, sel=None):
        """form is the calling convention; a failing form is reported once"""
        key = "k%d|d%d|%s|%s|%s" % (k, d, pat, mode, form)
        if form in broken:
            return
        try:
            got = mon.do("%s k=%d d=%d %s: %s" % (mode, k, d, pat, form), getter)
        except ApiFailed:
            broken.add(form)
            return
        if sel is not None:
            try:
                got = sel(got)
            except Exception:
                mon.fail("%s %s result form" % (mode, form), "%s\nresult %r" % (mon.current, got))
                broken.add(form)
                return
        if not mon.close("%s extrapolation, k=%d, %s" % (mode, k, form), got, want, tol, key=key, ctx=ctx_points(g, P)):
            broken.add(form)

    if fam != "kernels":
        boundary(spec, mon, rng, g0=lambda: gen.grid(rng, pat, [int(x) for x in rng.integers(2, {1: 60, 2: 12, 3: 6, 4: 4}[d] + 1, d)]), ev=(lambda *a: ev(*a, opt)) if fam in ("all", "opt") else None,
                 es=(lambda gg, C, p: eval_spline(gg, C, p, out=None, k=k, diff="None", extrap_mode=mode)) if fam in ("all", "str") else None)

    for r in range(spec["reps"]):
        ns = pick_ns(rng, d, limit, cubic=(k == 3))
        if r == 0:
            ns = [2] * d
        if r == 1:
            ns = [2 + i for i in range(d)]
        if r == 6 and d == 1:
            ns = [3000]
        big = r == 7 and d <= 2 and fam != "kernels"
        if big:
            ns = [int(x) for x in rng.integers(2, 9, d)]
        g = gen.grid(rng, pat, ns)
        N = [24, 1, 40, 24, 64][r % 5] if not big else [0, 20000, 6000][d]
        P, lab = gen.points(rng, g, N, "any" if r % 4 == 3 else "out")
        shp = tuple(n + (2 if k == 3 else 0) for n in ns)
        V = gen.values(rng, shp)
        nx = gen.ncomp(rng) if not big else 2
        VV = gen.values(rng, shp + (nx,))
        w, t = ref.evaluate(k, g, V, P, mode=mode)
        ww, tt = ref.evaluate(k, g, VV, P, mode=mode)
        mon.sample(mode=mode, grid=desc(g), classes=lab[:3], point=P[0].tolist(), expected=float(w[0]))
        mon.note("outside coords", int(sum(c in gen.OUT for l in lab for c in l)))

        def inplace(f, shape):
            out = np.full(shape, np.nan)
            def go():
                f(out)
                return out
            return go

        if fam == "kernels":
            # explicit kernels of the legacy interface, run as plain Python
            import interpolation.splines.eval_cubic_numba as ker
            a, b, o = np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array(ns)
            f = [getattr(ker, nm % d, None) for nm in ("vec_eval_cubic_spline_%d", "vec_eval_cubic_splines_%d", "eval_cubic_spline_%d", "eval_cubic_splines_%d")]
            if f[0]:
                judge("kernel batch", inplace(lambda o_: f[0](a, b, o, V, P, o_), w.shape), w, t, P)
            if f[1]:
                judge("kernel batch vv", inplace(lambda o_: f[1](a, b, o, VV, P, o_), ww.shape), ww, tt, P)
            for j in range(min(N, 4)):
                if f[2]:
                    judge("kernel point", lambda: f[2](a, b, o, V, P[j].copy()), w[j], t[j], P[j])
                if f[3]:
                    judge("kernel point vv", inplace(lambda o_: f[3](a, b, o, VV, P[j].copy(), o_), (nx,)), ww[j], tt[j], P[j])
            continue
        if fam in ("all", "opt"):
            judge("option batch", lambda: ev(g, V, P, opt), w, t, P)
            judge("option batch vv", lambda: ev(g, VV, P, opt), ww, tt, P)
            judge("option batch inplace", inplace(lambda o: ev(g, V, P, o, opt), w.shape), w, t, P)
            judge("option batch vv inplace", inplace(lambda o: ev(g, VV, P, o, opt), ww.shape), ww, tt, P)
            if mode == "linear":
                judge("default batch", lambda: ev(g, V, P), w, t, P)
                judge("default batch vv inplace", inplace(lambda o: ev(g, VV, P, o), ww.shape), ww, tt, P)
        if fam in ("all", "str"):
            es = lambda C, p, o=None, df="None": eval_spline(g, C, p, out=o, k=k, diff=df, extrap_mode=mode)
            judge("string batch", lambda: es(V, P), w, t, P)
            judge("string batch vv inplace", inplace(lambda o: es(VV, P, o), ww.shape), ww, tt, P)
            if mode != "linear" and not spec.get("nodiff"):
                # derivatives: under 'constant' everything is 0 outside; under 'nearest' the value column is judged
                isout = np.zeros(N, bool)
                for i, gg in enumerate(g):
                    isout |= ref.outside(gg, P[:, i])
                if mode == "constant":
                    rows = np.where(isout)[0]
                    z = np.zeros((len(rows), len(orders)))
                    if len(rows):
                        judge("diff batch", lambda: es(V, P[rows].copy(), None, diff), z, 0.0, P[rows])
                        judge("diff batch vv", lambda: es(VV, P[rows].copy(), None, diff), np.zeros((len(rows), nx, len(orders))), 0.0, P[rows])
                        judge("diff batch vv inplace", inplace(lambda o: es(VV, P[rows].copy(), o, diff), (len(rows), nx, len(orders))),
                              np.zeros((len(rows), nx, len(orders))), 0.0, P[rows])
                else:
                    judge("diff batch", lambda: es(V, P, None, diff), w, t, P, sel=lambda x: np.asarray(x)[:, 0])
                    judge("diff batch vv", lambda: es(VV, P, None, diff), ww, tt, P, sel=lambda x: np.asarray(x)[:, :, 0])
        for j in range(min(N, 6)):
            pa, pt = P[j].copy(), tuple(float(v) for v in P[j])
            if fam in ("all", "opt"):
                judge("option point", lambda: ev(g, V, pa, opt), w[j], t[j], pa)
                judge("option tuple", lambda: ev(g, V, pt, opt), w[j], t[j], pa)
                judge("option point vv", lambda: ev(g, VV, pa, opt), ww[j], tt[j], pa)
                judge("option point vv inplace", inplace(lambda o: ev(g, VV, pa, o, opt), (nx,)), ww[j], tt[j], pa)
                if mode == "linear":
                    judge("default point", lambda: ev(g, V, pa), w[j], t[j], pa)
                    judge("default point vv inplace", inplace(lambda o: ev(g, VV, pa, o), (nx,)), ww[j], tt[j], pa)
            if fam in ("all", "str"):
                judge("string point", lambda: es(V, pa), w[j], t[j], pa)
                judge("string tuple vv", lambda: es(VV, pt), ww[j], tt[j], pa)
                if spec.get("nodiff"):
                    continue
                if mode == "constant" and isout[j]:
                    no = len(orders)
                    judge("diff point", lambda: es(V, pa, None, diff), np.zeros(no), 0.0, pa)
                    judge("diff point vv", lambda: es(VV, pa, None, diff), np.zeros((nx, no)), 0.0, pa)
                    judge("diff point inplace", inplace(lambda o: es(V, pa, o, diff), (no,)), np.zeros(no), 0.0, pa)
                    judge("diff point vv inplace", inplace(lambda o: es(VV, pa, o, diff), (nx, no)), np.zeros((nx, no)), 0.0, pa)
                if mode == "nearest":
                    judge("diff point", lambda: es(V, pa, None, diff), w[j], t[j], pa, sel=lambda x: x[0])
                    judge("diff point vv", lambda: es(VV, pa, None, diff), ww[j], tt[j], pa, sel=lambda x: np.asarray(x)[:, 0])
                    judge("diff point vv inplace", inplace(lambda o: es(VV, pa, o, diff), (nx, len(orders))), ww[j], tt[j], pa, sel=lambda x: x[:, 0])
