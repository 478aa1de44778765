"""C10: a call's result depends on its arguments only.  Every result is logged under (op, data set); the offline checker
compares all records of one key over repeats, histories, threads and processes."""
import hashlib, json, os, subprocess, sys, tempfile, threading, time
import numpy as np
from mon import gen
from mon.core import ApiFailed, digest, flat, agree
from mon.ops import FAMILIES, ops

RULE = ("one case = one logged result compared with an earlier record of the same (call, arguments): immediately repeated, with the same array objects holding "
        "other numbers in between, at the end of the history (where results kept by the caller are also checked for later changes), on another thread (also while other threads compile, also in code that released the interpreter "
        "lock), and in another process with another history.  key = (op, data set, circumstance).  Bitwise for compiled kernels.")
ASSUMPTIONS = ["same machine, so the same code generation; ops whose arithmetic is done by BLAS/LAPACK are compared up to rounding"]
REQUIRED = ["across processes|eval_linear", "across processes|eval_cubic", "across processes|difford", "across processes|interp", "across processes|filter_cubic", "across processes|complete_polynomial",
            "across processes|gradient", "across processes|multilinear_interpolation", "across processes|cubSpline", "repeat|", "kept results|", "other data in the same arrays|", "end of history|", "thread first call|", "thread stress|",
            "nogil|", "shared object|", "warm disk cache|", "package names|"]

AFFINE = [["lin1", "cub1", "linstr", "objlin", "mlinterp"], ["lin2", "cub2", "interp2", "cart"], ["lin3", "diff1", "diff3", "difford", "layouts", "cubstr", "interp1"],
          ["filter12", "filterleg", "filter3", "objcub", "grad"], ["legacy", "hermite", "poly", "polyfit", "smolyak", "smolint", "basis", "smolmap", "smolsets"], ["confuse", "persist", "special"], ["rearranged", "hermite", "lin1"], ["large", "poly", "polyfit"], ["minimal", "cart", "poly"]]
COST = dict(lin1=17, lin2=10, lin3=6, linstr=3, cub1=15, cub2=18, cubstr=1, diff1=12, diff3=10, interp1=4, interp2=4, mlinterp=3, filter12=8, filter3=5, filterleg=4, grad=4, hermite=2,
            poly=5, polyfit=4, smolyak=1, smolint=1, cart=1, objlin=3, objcub=10, legacy=26, basis=1, difford=10, layouts=4, special=12, smolmap=1, smolsets=3, confuse=6, persist=3, rearranged=12, large=20, minimal=12)


def partition(rng, fams, k):
    bins = [[] for _ in range(k)]
    for f in rng.permutation(fams):
        # cheapest bin first, with noise
        c = [sum(COST[x] for x in b) * rng.uniform(0.8, 1.2) for b in bins]
        bins[int(np.argmin(c))].append(str(f))
    return bins


def tasks(tier, seed):
    q = tier == "quick"
    rng = np.random.default_rng(seed)
    L = []
    hist = list(AFFINE)
    for _ in range(1 if q else 6):
        # the rest of the families in another company (quick: those whose cross-process coverage is required, and most of the others)
        spare = [f for f in FAMILIES if f not in ("lin1", "cub1", "difford", "interp1", "filter12", "poly", "grad", "legacy")]
        out = {"large", "rearranged", "minimal"} | set(rng.choice(spare, 8, replace=False).tolist()) if q else ()
        hist += partition(rng, [f for f in FAMILIES if f not in out], 5 if q else int(rng.integers(1, 5)))
    for i, fams in enumerate(hist):
        L.append(dict(name="history-%d" % i, kind="history", fams=fams, fresh=True, cost=sum(COST[f] for f in fams)))
    T = [["linstr", "cubstr", "mlinterp"], ["filter12", "filterleg", "hermite", "interp1"], ["objlin", "grad", "poly", "cart", "basis"], ["smolyak", "smolint", "polyfit", "difford"]]
    if not q:
        T += [["cub1", "cub2", "lin2"], ["legacy", "objcub"], ["lin3", "diff1", "diff3", "layouts"], ["interp2", "filter3", "linstr", "cart"]] + partition(rng, [f for f in FAMILIES if f != "persist"], 4) + [["special", "confuse"], ["smolmap", "smolsets"]]
    for i, fams in enumerate(T):
        L.append(dict(name="threads-%d" % i, kind="threads", fams=fams, fresh=True, cost=28, secs=4 if q else 60, nth=8))
    L.append(dict(name="nogil", kind="nogil", fresh=True, cost=30, secs=4 if q else 90))
    L.append(dict(name="objects", kind="objects", fresh=True, cost=15, secs=4 if q else 60))
    L.append(dict(name="warm", kind="warm", fresh=True, cost=20, fams=["filterleg", "grad", "cart", "layouts"] if q else ["filterleg", "grad", "cart", "layouts", "legacy", "lin1", "cub1", "filter12", "interp1", "hermite", "poly"]))
    return L


def seeded(spec, fam, v):
    s = hashlib.sha256(repr((spec["seed"], fam, v)).encode()).digest()
    return np.random.default_rng(int.from_bytes(s[:8], "little"))


def catalogue(spec, fams):
    """[(family, op with data set 0, op with data set 1)]"""
    L = []
    for f in fams:
        a, b = ops(f, seeded(spec, f, 0)), ops(f, seeded(spec, f, 1), 1)
        assert [x["name"] for x in a] == [x["name"] for x in b]
        L += [(f, x, y) for x, y in zip(a, b)]
    return L


def call(op, arrays):
    if "outs" not in op:
        return op["call"](arrays)
    outs = [np.full(s, np.nan) for s in op["outs"]]
    op["call"](arrays, outs)
    return outs


def fresh(op):
    return [a.copy() for a in op["arrays"]]


def names(mon):
    import importlib, types
    for mod, nm in (("interpolation.splines", "eval_linear"), ("interpolation.splines", "eval_cubic"), ("interpolation.splines", "eval_spline"), ("interpolation.splines", "filter_cubic"),
                    ("interpolation.splines", "prefilter"), ("interpolation", "interp"), ("interpolation", "mlinterp")):
        o = getattr(importlib.import_module(mod), nm, None)
        mon.true("public names keep their meaning", callable(o) and not isinstance(o, types.ModuleType), "%s.%s is now %r" % (mod, nm, o), key="package names|%s.%s" % (mod, nm))


def history(spec, mon):
    rng = mon.rng()
    L = catalogue(spec, spec["fams"])
    kept = []  # results the caller still holds

    def keep(nm, res, arrs):
        parts = [x for x in (res if isinstance(res, (list, tuple)) else [res]) if isinstance(x, np.ndarray)]
        if not any(np.may_share_memory(x, a) for x in parts for a in arrs):  # prefilter(k=1) hands its input back
            kept.append((nm, res, digest(res)))
        return res
    for j in rng.permutation(len(L)):
        f, o0, o1 = L[j]
        nm, ex = o0["name"], not o0.get("blas")
        try:
            arrs = fresh(o0)
            mon.log(nm + "|0", keep(nm, mon.do(nm, call, o0, arrs), arrs), ex)
            mon.log(nm + "|0", mon.do(nm + " (repeated)", call, o0, arrs), ex)
            mon.cover("repeat|" + nm)
            if all(x.shape == y.shape and x.dtype == y.dtype for x, y in zip(o0["arrays"], o1["arrays"])):
                for x, y in zip(arrs, o1["arrays"]):
                    x[...] = y
                mon.log(nm + "|1", keep(nm, mon.do(nm + " (same arrays, other numbers)", call, o1, arrs), arrs), ex)
                mon.cover("other data in the same arrays|" + nm)
        except ApiFailed:
            continue
    # all calls again: one data set in random order, the other in the order of the catalogue (calls alike follow each other)
    for v, order in ((1, rng.permutation(len(L))), (0, range(len(L)))):
        for j in order:
            f, o = L[j][0], L[j][1 + v]
            nm, ex = o["name"], not o.get("blas")
            try:
                mon.log("%s|%d" % (nm, v), mon.do(nm + " (end of history)", call, o, fresh(o)), ex)
                mon.cover("end of history|" + nm)
            except ApiFailed:
                pass
    for nm, res, d in kept:
        mon.true("earlier result changed by a later call", digest(res) == d, "a result of %s, kept by the caller, has other contents after the other calls of this history" % nm, key="kept results|" + nm)
    names(mon)
    mon.note("ops in histories", len(L))
    mon.sample(history=spec["fams"], ops=len(L))


def in_threads(n, body):
    """run body(i) in n threads released together; returns their exceptions"""
    errs = []
    bar = threading.Barrier(n)

    def go(i):
        try:
            bar.wait(60)
            body(i)
        except BaseException as e:  # noqa
            errs.append((i, e))
    th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    return errs


def threads(spec, mon):
    """first calls compete for compilation on many threads; then a stress phase of warm calls with tiny switch intervals"""
    rng = mon.rng()
    L = catalogue(spec, spec["fams"])
    nth = spec["nth"]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    rec = [[] for _ in range(nth)]
    orders = [rng.permutation(len(L)) for _ in range(nth)]
    mon.step("threads: concurrent first calls of %s" % spec["fams"])

    def first(i):
        # each thread starts somewhere else, so that different specialisations are requested at the same time
        for j in orders[i]:
            f, o0, o1 = L[j]
            o = (o0, o1)[(i + j) % 2]
            rec[i].append((j, (i + int(j)) % 2, call(o, fresh(o))))
    errs = in_threads(nth, first)
    for i, e in errs:
        mon.fail("concurrent first call raises %s" % type(e).__name__, "thread %d of %d, ops of %s: %s" % (i, nth, spec["fams"], str(e)[-800:]))
    if errs:
        return
    for i in range(nth):
        for j, v, res in rec[i]:
            o = L[j][1]
            mon.log("%s|%d" % (o["name"], v), res, not o.get("blas"))
            mon.cover("thread first call|" + o["name"])
    # warm stress: all threads run the same ops on different data, all results checked against the single threaded log
    want = {}
    mon.step("threads: warm stress of %s" % spec["fams"])
    for j, (f, o0, o1) in enumerate(L):
        for v, o in ((0, o0), (1, o1)):
            r = call(o, fresh(o))
            mon.log("%s|%d" % (o["name"], v), r, not o.get("blas"))
            want[j, v] = flat(r) if o.get("blas") else digest(r)
    bad, count = [], [0] * nth
    end = time.time() + spec["secs"]
    sys.setswitchinterval(1e-6)
    # concentrate on one op at a time as well (pairs of threads inside the same function), and mix
    burst = [rng.permutation(len(L)) for _ in range(nth)]

    def stress(i):
        r = np.random.default_rng(i)
        k = 0
        while time.time() < end and not bad:
            together = (k // 8) % 2 == 0
            j = int((k // 8) % len(L)) if together else int(burst[i][k % len(L)])
            v = int(r.integers(2))
            o = L[j][1 + v]
            res = call(o, fresh(o))
            got = flat(res) if o.get("blas") else digest(res)
            if not agree(want[j, v], got):
                bad.append((o["name"], v, i))
            count[i] += 1
            k += 1
    errs = in_threads(nth, stress)
    sys.setswitchinterval(old)
    for i, e in errs[:3]:
        mon.fail("concurrent call raises %s" % type(e).__name__, "thread %d: %s" % (i, str(e)[-800:]))
    for nm, v, i in bad[:3]:
        mon.fail("result depends on concurrent calls", "%s (data set %d) gave another result on thread %d while %d threads ran ops of %s" % (nm, v, i, nth, spec["fams"]))
    mon.evaluations += sum(count)
    mon.note("concurrent calls checked", sum(count))
    for f, o0, _ in L:
        mon.cover("thread stress|" + o0["name"])
    mon.sample(threads=nth, families=spec["fams"], concurrent_calls=sum(count))


def nogil(spec, mon):
    """compiled callers without the interpreter lock: really parallel execution of the kernels"""
    from numba import njit
    from interpolation.splines import eval_linear, eval_cubic, filter_cubic
    from interpolation import mlinterp
    from interpolation.splines.hermite import HermiteInterpolationVect
    rng = mon.rng()
    g1, g2 = ((0.0, 1.0, 40),), ((0.0, 1.0, 12), (-1.0, 2.0, 9))
    x = np.cumsum(rng.uniform(0.1, 1, 30))

    @njit(nogil=True)
    def lin(C, P):
        return eval_linear(g2, C, P)

    @njit(nogil=True)
    def cub(C, P):
        return eval_cubic(g1, C, P)

    @njit(nogil=True)
    def fil(V, P):
        return filter_cubic(g2, V)

    @njit(nogil=True)
    def mli(C, P):
        return mlinterp(g2, C, P)

    @njit(nogil=True)
    def her(C, P):
        return HermiteInterpolationVect(P, x, C, C)
    J = [("eval_linear", lin, lambda r: (r.standard_normal((12, 9)), r.uniform(-2, 2, (3000, 2)))),
         ("eval_cubic", cub, lambda r: (r.standard_normal(42), r.uniform(-1, 2, (3000, 1)))),
         ("filter_cubic", fil, lambda r: (r.standard_normal((12, 9)), np.zeros(1))),
         ("mlinterp", mli, lambda r: (r.standard_normal((12, 9)), r.uniform(0, 1, (3000, 2)))),
         ("Hermite", her, lambda r: (r.standard_normal(30), r.uniform(0, 20, 3000)))]
    data = [[mk(np.random.default_rng((spec["seed"], j, t))) for t in range(8)] for j, (_, _, mk) in enumerate(J)]
    mon.step("nogil: concurrent first calls")
    out = {}

    def first(i):
        for k in range(len(J)):
            j = (k + i) % len(J)
            out[i, j] = digest(J[j][1](*data[j][i]))
    errs = in_threads(8, first)
    for i, e in errs[:2]:
        mon.fail("concurrent first call (nogil) raises %s" % type(e).__name__, str(e)[-800:])
    if errs:
        return
    want = {(i, j): digest(J[j][1](*data[j][i])) for i in range(8) for j in range(len(J))}
    for (i, j), d in out.items():
        mon.true("result depends on concurrent compilation", d == want[i, j], "%s on thread %d" % (J[j][0], i), key="nogil|first|" + J[j][0])
    mon.step("nogil: parallel stress")
    bad, count = [], [0] * 8
    end = time.time() + spec["secs"]

    def stress(i):
        k = 0
        while time.time() < end and not bad:
            j = (k // 4) % len(J)
            for _ in range(4):
                if digest(J[j][1](*data[j][i])) != want[i, j]:
                    bad.append((J[j][0], i))
                count[i] += 1
            k += 4
    errs = in_threads(8, stress)
    for i, e in errs[:3]:
        mon.fail("concurrent call (nogil) raises %s" % type(e).__name__, str(e)[-800:])
    for nm, i in bad[:3]:
        mon.fail("result depends on concurrent calls", "%s gave another result on thread %d (8 threads without the interpreter lock)" % (nm, i))
    mon.evaluations += sum(count)
    mon.note("parallel nogil calls checked", sum(count))
    for nm, _, _ in J:
        mon.cover("nogil|stress|" + nm)
    mon.sample(nogil_calls=sum(count))


def objects(spec, mon):
    """several threads share spline objects / a Smolyak interpolant and evaluate at their own points"""
    from interpolation.splines import CubicSpline, CubicSplines, LinearSpline, LinearSplines
    from interpolation.smolyak import SmolyakGrid, SmolyakInterp
    rng = mon.rng()
    a, b, o = [0.0, -1.0], [1.0, 2.0], [7, 5]
    sg = SmolyakGrid(2, 3)
    make = [("CubicSpline", lambda: CubicSpline(a, b, o, V1)), ("CubicSplines", lambda: CubicSplines(a, b, o, V2)), ("LinearSpline", lambda: LinearSpline(a, b, o, V1)),
            ("LinearSplines", lambda: LinearSplines(a, b, o, V2)), ("SmolyakInterp", lambda: SmolyakInterp(sg, fv))]
    V1, V2, fv = rng.standard_normal((7, 5)), rng.standard_normal((7, 5, 3)), rng.standard_normal(len(sg.grid))
    pts = [rng.uniform(-1, 2, (40, 2)) for _ in range(8)]
    objs = [(n, m()) for n, m in make]

    def ask(n, s, i, k=0):
        if n == "SmolyakInterp":
            return np.asarray(s.interpolate(pts[i]))
        return s(pts[i][0]) if k % 3 == 1 else np.array(s.grid) if k % 3 == 2 else s(pts[i])
    mon.step("objects: single threaded")
    ref = {(n, i, k): ask(n, m(), i, k) for n, m in make for i in range(8) for k in range(3)}
    sys.setswitchinterval(1e-6)
    bad, count = [], [0] * 8
    end = time.time() + spec["secs"]
    mon.step("objects: shared by 8 threads")

    def stress(i):
        k = i
        while time.time() < end and not bad:
            n, s = objs[(k // 3) % len(objs)]
            got = ask(n, s, i, k)
            w = ref[n, i, k % 3]
            if not (agree(flat(w), flat(got)) if n == "SmolyakInterp" else digest(np.asarray(got)) == digest(np.asarray(w))):
                bad.append((n, i, k % 3))
            count[i] += 1
            k += 1
    errs = in_threads(8, stress)
    for i, e in errs[:3]:
        mon.fail("concurrent use of a shared object raises %s" % type(e).__name__, str(e)[-800:])
    for n, i, k in bad[:3]:
        mon.fail("shared %s gives another result under concurrency" % n, "thread %d, %s" % (i, ["batch", "point", "grid"][k]))
    mon.evaluations += sum(count)
    mon.note("concurrent shared-object calls checked", sum(count))
    for n, _ in objs:
        mon.cover("shared object|" + n)
    mon.sample(shared_object_calls=sum(count))
    names(mon)


CHILD = """
import sys, json
sys.path[:0] = [%r, %r]
import numpy as np
from checks import c10
from mon.core import digest, flat
spec = json.loads(sys.argv[1])
out = {}
for f, o0, o1 in c10.catalogue(spec, spec['fams']):
    for v, o in ((0, o0), (1, o1)):
        r = c10.call(o, c10.fresh(o))
        out['%%s|%%d' %% (o['name'], v)] = flat(r) if o.get('blas') else digest(r)
print('RESULT' + json.dumps(out))
"""


def warm(spec, mon):
    """the same calls in a process that fills numba's on-disk cache and in one that starts from it"""
    here, repo = os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ["VERIF_REPO"]
    cache = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    env = dict(os.environ, NUMBA_CACHE_DIR=cache)
    env.pop("VERIF_PROGRESS", None)
    prev = None
    for turn in ("cold", "warm"):
        mon.step("process with a %s disk cache" % turn)
        p = subprocess.run([sys.executable, "-c", CHILD % (here, repo), json.dumps(spec)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        line = [l for l in p.stdout.decode().splitlines() if l.startswith("RESULT")]
        if not line:
            mon.fail("process with a %s disk cache fails" % turn, p.stderr.decode()[-1200:])
            return
        got = json.loads(line[0][6:])
        for k, rec in got.items():
            old = mon.logs.setdefault(k, rec)
            mon.true("result depends on the disk cache", agree(old, rec), "%s: %s vs %s" % (k, old, rec), key="%s disk cache|%s" % (turn, k))
    nfiles = sum(len(fs) for _, _, fs in os.walk(cache))
    mon.note("disk cache files", nfiles)


def run(spec, mon):
    globals()[spec["kind"]](spec, mon)
