"""C08: memory safety.  The same hostile workload runs (a) in a build of the code with index checks compiled into every
array access (NUMBA_BOUNDSCHECK=1), (b) in the normal build with every array placed against inaccessible pages
(electric fence; inputs on read-only pages) and outputs surrounded by canaries, and (c) for kernels too expensive to compile,
interpreted, on arrays that check every index."""
import numpy as np
from mon import gen, ref
from mon.core import ApiFailed
from mon.common import api, kind_patterns, pick_ns, nclass, desc
from mon.guard import Fence, Canary

RULE = ("one case = one call whose arrays are watched (index checks compiled in / guard pages / canaries); key = (monitor, entry point, dimension, "
        "grid pattern, mode or form, hostile point class).  Non-trivial: point sets contain nan, +-inf, +-1e308, +-2^63 steps, bounds +-1 ulp, denormals, "
        "each coordinate separately and jointly; node counts down to the minimum of 2.")
ASSUMPTIONS = ["arguments consistently shaped", "guard pages detect accesses beyond either end of an array's storage up to one page; "
               "strided accesses further out are left to the index-checked build",
               "wrap-around of a negative index is not an out-of-bounds access in numba's index checks: it is judged by value in C01-C05, and in the interpreted kernels directly"]
REQUIRED = ["bc|eval_linear", "bc|eval_cubic", "bc|interp", "bc|mlinterp", "bc|filter_cubic", "bc|hermite", "bc|complete", "bc|gradient", "fence|eval_linear",
            "fence|eval_cubic", "fence|gradient", "fence|hermite", "fence|filter_cubic", "index|gradient d4", "nan", "inf", "huge", "canary"]

HOST = [("nan", np.nan), ("inf", np.inf), ("-inf", -np.inf), ("huge", 1e308), ("-huge", -1e308), ("2^63", None), ("-2^63", None), ("ulp below", None),
        ("ulp above", None), ("ulp in lo", None), ("ulp in hi", None), ("lo", None), ("hi", None), ("denormal", 5e-324), ("-0", -0.0), ("in", None), ("far", None), ("node", None)]


def hostile(rng, g, cls):
    a, b = ref.bounds(g)
    z = ref.nodes1d(g)
    h = float(z[-1] - z[-2])
    v = dict(HOST)[cls]
    if v is not None:
        return v
    if cls == "2^63":
        return a + h * float(rng.choice([2.0 ** 63, 2.0 ** 62, 2.0 ** 64, 2.0 ** 31, 2.0 ** 32]))
    if cls == "-2^63":
        return a - h * float(rng.choice([2.0 ** 63, 2.0 ** 62, 2.0 ** 64, 2.0 ** 31, 2.0 ** 32]))
    return {"ulp below": np.nextafter(a, -np.inf), "ulp above": np.nextafter(b, np.inf), "ulp in lo": np.nextafter(a, np.inf), "ulp in hi": np.nextafter(b, -np.inf),
            "lo": a, "hi": b, "in": a + (b - a) * rng.random(), "far": a + (b - a) * float(rng.choice([-1e4, 1e4, 1e9, -1e9])),
            "node": float(z[rng.integers(len(z))])}[cls]


def hostile_points(rng, grid, extra=20, nonfinite=True):
    d = len(grid)
    names = [h[0] for h in HOST if nonfinite or h[0] not in ("nan", "inf", "-inf", "huge", "-huge", "2^63", "-2^63")]
    rows, lab = [], []
    for c in names:  # each class in one coordinate, the others ordinary
        for i in range(d):
            rows.append([hostile(rng, x, c if j == i else "in") for j, x in enumerate(grid)])
            lab.append(c)
        rows.append([hostile(rng, x, c) for x in grid])
        lab.append(c + " all")
    for _ in range(extra):
        cs = [names[rng.integers(len(names))] for _ in range(d)]
        rows.append([hostile(rng, x, c) for x, c in zip(grid, cs)])
        lab.append("mixed")
    return np.array(rows, dtype=float), lab


def tasks(tier, seed):
    rng = np.random.default_rng(seed + 808)
    q = tier == "quick"
    T = []
    reps = 6 if q else 40
    for env, mon_ in (("bc", "bc"), ("jit", "fence")):
        for k in (1, 3):
            for d in (1, 2, 3):
                if k == 3 and d == 3 and q and mon_ == "fence":
                    continue
                pats = kind_patterns(d, rng, (4 if d < 3 and mon_ == "bc" else 2) if q else None) if k == 1 else ["u" * d]
                for pat in pats:
                    for f in ("eval", "diff"):
                        T.append(dict(name="%s-k%d-d%d-%s-%s" % (mon_, k, d, pat, f), env=env, mon=mon_, fam=f, k=k, d=d, pat=pat, reps=reps, cost=k * d * d))
        for d in (1, 2, 3):
            for pat in kind_patterns(d, rng, 3 if q else None):
                T.append(dict(name="%s-interp-d%d-%s" % (mon_, d, pat), env=env, mon=mon_, fam="interp", d=d, pat=pat, reps=reps, cost=d))
        for d in (1, 2, 3, 4):
            T.append(dict(name="%s-filter-d%d" % (mon_, d), env=env, mon=mon_, fam="filter", d=d, pat="u" * d, reps=reps, cost=2 * d))
        for d in (1, 2, 3) if q else (1, 2, 3, 4):
            T.append(dict(name="%s-gradient-d%d" % (mon_, d), env=env, mon=mon_, fam="gradient", d=d, pat="u" * d, reps=reps, cost=4 * d if d < 4 else 200))
        T.append(dict(name="%s-hermite" % mon_, env=env, mon=mon_, fam="hermite", d=1, pat="n", reps=3 * reps, cost=2))
        T.append(dict(name="%s-complete" % mon_, env=env, mon=mon_, fam="complete", d=1, pat="n", reps=1, cost=6))
        T.append(dict(name="%s-repeat" % mon_, env=env, mon=mon_, fam="repeat", d=1, pat="n", reps=reps, cost=2))
    for d in (1, 2, 3, 4):
        T.append(dict(name="index-gradient-d%d" % d, env="nojit", mon="index", fam="gradient", d=d, pat="u" * d, reps=4 if q else 30, cost=2))
    return T


class Checked(np.ndarray):
    """array that refuses negative and out-of-range integer indices (for interpreted kernels)"""
    name, hits = "array", 0

    @staticmethod
    def of(a, name):
        v = np.asarray(a).view(Checked)
        v.name = name
        return v

    def __array_finalize__(self, o):
        self.name = getattr(o, "name", "array")

    def _chk(self, idx):
        Checked.hits += 1
        t = idx if isinstance(idx, tuple) else (idx,)
        if any(i is None or i is Ellipsis or isinstance(i, (list, np.ndarray, bool, np.bool_)) for i in t):
            return
        for i, n in zip(t, self.shape):
            if isinstance(i, (int, np.integer)) and not 0 <= i < n:
                raise IndexError("%s%s outside shape %s" % (self.name, list(t), self.shape))

    def __getitem__(self, idx):
        self._chk(idx)
        return super().__getitem__(idx)

    def __setitem__(self, idx, v):
        self._chk(idx)
        super().__setitem__(idx, v)


def run(spec, mon):
    eval_linear, eval_cubic, eval_spline, filter_cubic, prefilter, xo = api()
    fam, d, pat, M = spec["fam"], spec["d"], spec["pat"], spec["mon"]
    rng = mon.rng()
    fence = M == "fence"
    limit = {1: 300, 2: 400, 3: 800, 4: 1500}[d]
    canaries = []
    F = None

    def put(a, side="end", ro=True):
        """place an input"""
        return F.array(a, side, readonly=ro) if fence else a

    def placed(g, side):
        return tuple(x if isinstance(x, tuple) else put(x, side) for x in g)

    def out(shape, i=0):
        if fence:
            return F.array(np.full(shape, np.nan), ["end", "start"][i % 2])
        c = Canary(shape, "A" if spec["tier"] == "thorough" and i % 2 else "C")
        canaries.append(c)
        return c.out

    broken = set()

    def call(name, f, *args, key="", lab=()):
        if name in broken:
            return None
        try:
            res = mon.do(name + key, f, *args)
        except ApiFailed:
            broken.add(name)
            return None
        mon.evaluations += 1
        mon.cover("%s|%s%s" % (M, name, key))
        for c in set(lab):
            mon.cover("%s|%s|%s" % (M, name, c))
        for c in canaries:
            mon.true("canaries around the output", c.intact(), "bytes outside the output array were overwritten", key="canary|%s|%s" % (M, name))
        canaries.clear()
        return res

    for r in range(spec["reps"]):
        F = Fence() if fence else None
        side = ["end", "start"][r % 2]
        ns = pick_ns(rng, d, limit, cubic=True)
        if r < 2:
            ns = [2] * d
        if r == 2:
            ns = [2 + i for i in range(d)]
        g0 = gen.grid(rng, pat, ns) if "u" in pat or "n" in pat else None
        nx = int(rng.integers(1, 4))
        mon.sample(monitor=M, family=fam, grid=desc(g0), placed=side)
        if fam in ("eval", "diff"):
            k = spec["k"]
            shp = tuple(n + (2 if k == 3 else 0) for n in ns)
            g = placed(g0, side)
            C, CC = put(gen.values(rng, shp, "normal"), side), put(gen.values(rng, shp + (nx,), "normal"), side)
            Pv, lab = hostile_points(rng, g0)
            P = put(Pv, side)
            N = len(P)
            ev, nm = (eval_linear, "eval_linear") if k == 1 else (eval_cubic, "eval_cubic")
            kk = "|d%d|%s" % (d, pat)
            modes = (("linear", xo.LINEAR), ("nearest", xo.NEAREST), ("constant", xo.CONSTANT))
            if fam == "eval":
                for mname, opt in modes[:1] if spec["tier"] == "quick" and (fence or (d == 3 and k == 3)) else modes:
                    got = call(nm + " batch", ev, g, C, P, opt, key=kk + "|" + mname, lab=lab)
                    call(nm + " batch vv inplace", lambda *a: ev(*a), g, CC, P, out((N, nx), r), opt, key=kk + "|" + mname, lab=lab)
                    fin = np.isfinite(Pv).all(axis=1) & (np.abs(Pv) < 1e15).all(axis=1)
                    for i, x in enumerate(g0):
                        aa, bb = ref.bounds(x)
                        fin &= (np.abs(Pv[:, i] - aa) <= 1e4 * (bb - aa))
                    if got is not None and fin.any():
                        w, t = ref.evaluate(k, g0, np.array(C), Pv[fin], mode=mname)
                        # at one ulp from a bound either side is right for 'constant'
                        if mname != "constant":
                            mon.close("values of the monitored build", np.asarray(got)[fin], w, t * 10 + 1e-300, key="%s|values|%s%s|%s" % (M, nm, kk, mname))
                    step = 5 if d < 3 else 11
                    for j in range(r % step, N, step):
                        p = put(Pv[j], side)
                        call(nm + " point", ev, g, C, p, opt, key=kk + "|" + mname, lab=[lab[j]])
                        if j % 2:
                            call(nm + " point vv inplace", lambda *a: ev(*a), g, CC, p, out((nx,), j), opt, key=kk + "|" + mname, lab=[lab[j]])
                        call(nm + " tuple", ev, g, C, tuple(float(x) for x in Pv[j]), opt, key=kk + "|" + mname, lab=[lab[j]]) if j % 3 == 0 else None
            else:
                orders = ((0,) * d,) + tuple(tuple(1 if i == j else 0 for i in range(d)) for j in range(d))
                df = str(orders if d < 3 or k == 1 else orders[1:2])
                no = len(orders) if d < 3 or k == 1 else 1
                for mname in ("linear", "constant") if k == 1 and not fence else ("linear",):
                    call("eval_spline diff batch", lambda: eval_spline(g, C, P, out=None, k=k, diff=df, extrap_mode=mname), key="|k%d" % k + kk + "|" + mname, lab=lab)
                    call("eval_spline diff vv inplace", lambda: eval_spline(g, CC, P, out=out((N, nx, no), r), k=k, diff=df, extrap_mode=mname),
                         key="|k%d" % k + kk + "|" + mname, lab=lab)
                    for j in range(r % 7, N, 7):
                        p = put(Pv[j], side)
                        call("eval_spline diff point", lambda: eval_spline(g, C, p, out=None, k=k, diff=df, extrap_mode=mname), key="|k%d" % k + kk + "|" + mname, lab=[lab[j]])
        elif fam == "interp":
            from interpolation import interp, mlinterp
            g = placed(g0, side)
            C = put(gen.values(rng, tuple(ns), "normal"), side)
            Pv, lab = hostile_points(rng, g0)
            P = put(Pv, side)
            kk = "|d%d|%s" % (d, pat)
            call("interp list", lambda: interp(*g, C, P), key=kk, lab=lab)
            call("mlinterp list", lambda: mlinterp(g, C, P), key=kk, lab=lab)
            for j in range(r % 4, len(P), 4):
                t = tuple(float(x) for x in Pv[j])
                call("interp tuple", lambda: interp(*g, C, t), key=kk, lab=[lab[j]])
                call("mlinterp tuple", lambda: mlinterp(g, C, t), key=kk, lab=[lab[j]])
            if d == 1:
                call("interp array", lambda: interp(g[0], C, put(Pv[:, 0].copy(), side)), key=kk, lab=lab)
            if d == 2:
                u, v = put(Pv[:, 0].copy(), side), put(Pv[:17, 1].copy(), side)
                call("interp cartesian", lambda: interp(*g, C, u, v), key=kk, lab=lab)
        elif fam == "filter":
            V, VV = gen.values(rng, tuple(ns), "normal"), gen.values(rng, tuple(ns) + (nx,), "normal")
            Vp, VVp = put(V, side), put(VV, side)
            g = g0
            from interpolation.splines.filter_cubic import filter_coeffs, filter_mcoeffs
            a, b, o = np.array([x[0] for x in g]), np.array([x[1] for x in g]), np.array(ns)
            sh = tuple(n + 2 for n in ns)
            kk = "|d%d" % d
            call("filter_cubic", filter_cubic, g, Vp, key=kk)
            call("filter_cubic vv inplace", filter_cubic, g, VVp, out(sh + (nx,), r), key=kk)
            call("prefilter inplace", lambda: prefilter(g, Vp, out(sh, r), k=3), key=kk)
            call("filter_coeffs", filter_coeffs, a, b, o, Vp, key=kk)
            call("filter_mcoeffs", filter_mcoeffs, a, b, o, VVp, key=kk)
        elif fam == "gradient":
            sh = tuple(n + 2 for n in ns)
            CC = gen.values(rng, sh + (nx,), "normal")
            kk = " d%d" % d
            a, b, o = np.array([x[0] for x in g0]), np.array([x[1] for x in g0]), np.array(ns)
            if M == "index":
                import interpolation.splines.eval_cubic_numba as ker
                f = getattr(ker, "vec_eval_cubic_splines_G_%d" % d, None)
                Pv, lab = hostile_points(rng, g0, 4, nonfinite=False)
                Pv, lab = Pv[::2], lab[::2]
                if f is None:
                    mon.cover("index|gradient d%d" % d)
                    continue
                cv, cd, cc, cp = (Checked.of(x, n) for x, n in ((np.full((len(Pv), nx), np.nan), "values"), (np.full((len(Pv), d, nx), np.nan), "dvalues"),
                                                             (CC, "coefs"), (Pv, "points")))
                before = Checked.hits
                call("gradient" + kk, f, a, b, o, cc, cp, cv, cd, lab=lab)
                mon.note("indexed accesses checked", Checked.hits - before)
                mon.true("gradient writes all outputs", np.isfinite(np.asarray(cv)).all() and np.isfinite(np.asarray(cd)).all(), "unwritten entries", key="index|gradient%s written" % kk)
            else:
                from interpolation.splines.eval_cubic import vec_eval_cubic_splines_G
                Pv, lab = hostile_points(rng, g0)
                P = put(Pv, side)
                call("gradient" + kk, vec_eval_cubic_splines_G, a, b, o, put(CC, side), P, out((len(P), nx), 0), out((len(P), d, nx), r), lab=lab)
                call("gradient alloc" + kk, vec_eval_cubic_splines_G, a, b, o, put(CC, side), P, lab=lab)
        elif fam == "hermite":
            from interpolation.splines.hermite import HermiteInterpolation, HermiteInterpolationVect
            n = ns[0] if r else 2
            x = gen.grid1d(rng, "n", n)
            y, yp = rng.standard_normal(n), rng.standard_normal(n)
            Pv, lab = hostile_points(rng, (x,))
            xs, ys, yps = put(x, side), put(y, side), put(yp, side)
            for j in range(len(Pv)):
                call("hermite", HermiteInterpolation, float(Pv[j, 0]), xs, ys, yps, lab=[lab[j]])
            call("hermite vector", HermiteInterpolationVect, put(Pv[:, 0].copy(), side), xs, ys, yps, lab=lab)
        elif fam == "complete":
            from interpolation.complete_poly import complete_polynomial, complete_polynomial_der
            for n in (1, 2, 3, 4, 6):
                for deg in range(6):
                    z = put(rng.standard_normal((n, 3)), side)
                    zv = put(rng.standard_normal(n), side)
                    call("complete_polynomial", complete_polynomial, z, deg, key="|n%d|deg%d" % (n, deg))
                    call("complete_polynomial vec", complete_polynomial, zv, deg, key="|n%d|deg%d" % (n, deg))
                    for der in range(n):
                        call("complete_polynomial_der", complete_polynomial_der, z, deg, der, key="|n%d|deg%d" % (n, deg))
                        call("complete_polynomial_der vec", complete_polynomial_der, zv, deg, der, key="|n%d|deg%d" % (n, deg))
        elif fam == "repeat":
            from interpolation.cartesian import cartesian, mlinspace
            for sizes in ((1,), (3,), (2, 3), (3, 1, 2), (1, 1), (4, 2, 3, 2)):
                for order in "CF":
                    arrs = [put(rng.standard_normal(s), side) for s in sizes]
                    call("cartesian", cartesian, arrs, order, key="|%s%s" % (sizes, order))
                    call("mlinspace", mlinspace, [0.0] * len(sizes), [1.0] * len(sizes), [s + 1 for s in sizes], order, key="|%s%s" % (sizes, order))
