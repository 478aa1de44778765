"""C24: calls leave nothing behind in the process."""
import ctypes, gc, json, locale, os, random, signal, subprocess, sys, tempfile, threading, time, warnings, weakref
import numpy as np
from mon.core import ApiFailed
from mon.ops import FAMILIES, ops

RULE = ("one case = one watched call or series of calls of one entry point; key = (what is watched, call).  Watched: a snapshot of process-wide state (random generators, floating point error handling, rounding and "
        "subnormals, print options, warning filters, environment, directory, import path, locale, signal handlers, threads, descriptors, recursion limit, files in the working directory, text written to the "
        "standard streams); references to arguments and results after both were dropped; allocations and releases of the compiled runtime; Python memory over hundreds of calls with fresh data; compilations "
        "during repeated calls.  Non-trivial: every call of the catalogue, warmed up first, several times with other data, and with nan, infinite, huge, tiny, missing and impossible data.")
ASSUMPTIONS = ["memory and compilations are judged after the first calls of a type have compiled the code", "calls of eval_spline and prefilter from Python are exempt from the bounds on Python memory and compilations (numba types their literal arguments again on every call)",
               "warnings are not judged", "the state of the process that is watched is the list given in the rule"]
REQUIRED = ["state|", "silent|", "released arguments|", "released results|", "runtime balance|", "bounded memory|", "compiled once|", "eval_linear", "eval_cubic", "interp", "mlinterp", "filter", "gradient", "Hermite", "complete_polynomial",
            "CompletePolynomial", "Smolyak", "cartesian", "linSpline", "cubSpline", "multilinear_interpolation", "B p", "text of", "nodes and", "template"]
LITERAL = ("spline batch", "spline point", "diff", "prefilter", "eval_spline", "layout")
KEEPS = "living"  # an object that outlives the call holds what it was given
QUICK = ["lin1", "lin2", "cub1", "cubstr", "diff3", "interp1", "interp2", "mlinterp", "filter12", "filterleg", "grad", "hermite", "poly", "polyfit", "smolyak", "smolint", "cart", "objlin", "objcub", "legacy", "basis", "smolmap", "smolsets", "persist", "extra"]


def tasks(tier, seed):
    q = tier == "quick"
    return [dict(name="import", fam="import", fresh=True, cost=1)] + [dict(name="trace-%s" % f, fam=f, reps=2 if q else 6, calls=200 if q else 1500, cost=9 if f in ("lin1", "lin2", "objcub", "objlin", "interp2") else 6 if "cub" in f or f == "filter12" else 2) for f in (QUICK if q else FAMILIES + ["extra"])]


def arrays_of(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for e in x:
            yield from arrays_of(e)


libm = ctypes.CDLL(None)


def snapshot():
    st = np.random.get_state()
    old = warnings.filters
    return {
        "numpy random state": (st[0], st[1].tobytes(), st[2:]), "random state": hash(random.getstate()), "numpy error handling": sorted(np.geterr().items()), "numpy error callback": repr(np.geterrcall()),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)), "warning filters": [repr(f) for f in old], "environment": dict(os.environ), "working directory": os.getcwd(), "files": sorted(os.listdir(".")),
        "import path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL), "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGSEGV, signal.SIGALRM)],
        "threads": threading.active_count(), "descriptors": len(os.listdir("/proc/self/fd")), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "rounding": libm.fegetround(), "subnormals": float(np.float64(5e-324) * np.float64(1.0)) > 0, "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "hooks": (id(sys.excepthook), id(sys.displayhook), sys.gettrace() is None, sys.getprofile() is None),
        "builtins": hash(tuple(sorted((k, id(v)) for k, v in vars(__import__("builtins")).items() if k != "_"))),
    }


class Streams:
    """everything written to descriptors 1 and 2 while active"""

    def __enter__(self):
        sys.stdout.flush(), sys.stderr.flush(), libm.fflush(None)  # compiled code prints through the C library
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1), os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stdout.flush(), sys.stderr.flush(), libm.fflush(None)
        os.dup2(self.old[0], 1), os.dup2(self.old[1], 2)
        os.close(self.old[0]), os.close(self.old[1])
        self.f.seek(0)
        self.text = self.f.read()
        self.f.close()


def other(rng, a):
    """an array of the same type with other numbers (still increasing, if it was)"""
    return a * float(rng.uniform(0.5, 2)) if a.dtype.kind == "f" else a.copy()


def run(spec, mon):
    import scipy.linalg, scipy.interpolate, scipy.optimize, scipy.sparse  # their first import is not the package's doing
    if spec["name"] == "import":
        return importing(spec, mon)
    from numba.core import event
    from numba.core.runtime import rtsys
    try:
        from numba.core.runtime import _nrt_python
        _nrt_python.memsys_enable_stats()
        rtsys.get_allocation_stats()
        balance = lambda: (lambda s: s.alloc - s.free)(rtsys.get_allocation_stats())
    except Exception:
        balance = None
    count = [0]

    class Listen(event.Listener):
        def on_start(self, e):
            count[0] += 1

        def on_end(self, e):
            pass
    event.register("numba:compile", Listen())
    rng = mon.rng()
    np.random.seed(7)
    random.seed(7)
    if spec["fam"] == "extra":
        many = lambda rep: extra(rng, rep)
    else:
        many = lambda rep: ops(spec["fam"], rng, rep) if rep else ops(spec["fam"], rng)
    for rep in range(spec["reps"]):
        for op in many(rep):
            try:
                one(spec, mon, rng, op, balance, count)
            except ApiFailed:
                continue
            mon.sample(op=op["name"], arrays=[list(a.shape) for a in op["arrays"]])


def hostile(spec, mon, rng, op, fn):
    """the same call with nan, infinite, huge and tiny data, no data at all, and points of a rank nobody supports; any answer or refusal will do"""
    nm = op["name"]
    for kind in ("nan", "inf", "huge", "tiny", "empty", "rank"):
        ins = [a.copy() for a in op["arrays"]]
        where = [i for i in range(len(ins)) if ins[i].dtype.kind == "f" and ins[i].size > 1]
        if not where:
            return
        if kind in ("empty", "rank"):
            if ins[-1].ndim != 2 or "outs" in op or "filter" in nm or "living" in nm or "object" in nm:
                continue
            ins[-1] = ins[-1][:0].copy() if kind == "empty" else ins[-1][None, None].copy()
        else:
            a = ins[where[-1 if rng.random() < 0.5 else int(rng.integers(len(where)))]]
            a.flat[int(rng.integers(a.size))] = dict(nan=np.nan, inf=rng.choice([-1, 1]) * np.inf, huge=1e300, tiny=5e-324)[kind]
        s0 = snapshot()
        mon.step("%s with %s data" % (nm, kind))
        with warnings.catch_warnings(), Streams() as io:
            warnings.simplefilter("ignore")
            s0["warning filters"] = [repr(f) for f in warnings.filters]
            try:
                fn(ins)
                mon.note("unusual data answered")
            except Exception:
                mon.note("unusual data refused")
            s1 = snapshot()
        s1["descriptors"] = s0["descriptors"]
        s1["standard streams"] = s0["standard streams"]
        for k in s0:
            mon.true("process state: " + k, k == "threads" or s0[k] == s1[k], "%s changed by %s with %s data" % (k, nm, kind), key="state|%s|%s|%s" % (k, nm, kind))
        mon.true("nothing printed", not io.text, "%s with %s data wrote %r" % (nm, kind, io.text[:300]), key="silent|%s|%s" % (nm, kind))


def extra(rng, i=0):
    """calls that are not in the catalogue"""
    from interpolation import splines as S
    from interpolation.smolyak.grid import SmolyakGrid
    from interpolation.complete_poly import CompletePolynomial
    from interpolation.tempita import Template, HTMLTemplate
    L = []
    add = lambda name, arrays, call: L.append(dict(name=name, arrays=arrays, call=call))
    for mu in (2, 3, (2, 1), (1, 3, 2)):
        d = len(mu) if isinstance(mu, tuple) else 2
        add("text of SmolyakGrid %s" % (mu,), [np.full(d, -2.0), np.full(d, 3.0)], lambda a, d=d, mu=mu: (lambda g: (repr(g), str(g), "%s" % g)[0])(SmolyakGrid(d, list(mu) if isinstance(mu, tuple) else mu, a[0], a[1])))
    for d in (1, 2, 3):
        a, b, n = np.zeros(d), 1.0 + rng.random(d), [3, 4, 5][:d]
        V = rng.standard_normal(n)
        for nm in ("LinearSpline", "CubicSpline", "LinearSplines", "CubicSplines"):
            v = V if nm.endswith("Spline") else np.stack([V, V + 1], -1)
            P = rng.random((6, d))
            add("nodes and one point of %s d%d" % (nm, d), [a, b, v, P], lambda x, nm=nm, n=n, d=d: (lambda o: [np.array(o.grid), np.array(o(x[3])), np.array(o(x[3][0]) if nm != "CubicSplines" else o.interpolate(x[3]))])(getattr(S, nm)(x[0], x[1], n, x[2])))
            if nm.startswith("Cubic"):
                add("derivatives of %s d%d" % (nm, d), [a, b, v, P], lambda x, nm=nm, n=n: getattr(S, nm)(x[0], x[1], n, x[2]).interpolate(x[3], **({"diff": True} if nm == "CubicSplines" else {})))
    for nobs, deg, k in ((5, 3, 1), (4, 4, 2), (60, 5, 2)):
        add("CompletePolynomial %d observations degree %d" % (nobs, deg), [rng.standard_normal((nobs, 2)), rng.standard_normal((nobs, k)), rng.standard_normal((4, 2))],
            lambda a, deg=deg: (lambda p: (p.fit_values(a[0], a[1]), p.fit_values(a[0], a[1], damp=0.25), p(a[2]), p.der(a[2], 1))[2])(CompletePolynomial(2, deg)))
    g4 = tuple((0.0, 1.0, m) for m in (3, 2, 4, 3))
    V4 = rng.standard_normal((3, 2, 4, 3))
    from interpolation.splines import eval_linear
    add("eval_linear d4", [V4, rng.random((7, 4)) * 2 - 0.5], lambda a: eval_linear(g4, a[0], a[1]))
    from interpolation.splines.hermite import HermiteInterpolationVect, HermiteInterpolation
    x = np.sort(rng.random(7)) + np.arange(7)
    add("HermiteInterpolationVect with points", [rng.random(7), rng.random(7), rng.random(9) * 8], lambda a: HermiteInterpolationVect(a[2], x, a[0], a[1]))
    add("HermiteInterpolation with points", [rng.random(7), rng.random(7), rng.random(2) * 8], lambda a: [HermiteInterpolation(float(z), x, a[0], a[1]) for z in a[2]])
    for k, (cls, txt) in enumerate([(Template, "{{for a, b in pairs}}{{if a > 0}}<{{a|repr}}>{{elif b}}{{py: c = a * 2}}{{c}}{{else}}-{{endif}}{{endfor}}"), (HTMLTemplate, "{{for a, b in pairs}}<p {{attr(title=b)}}>{{a}}&{{b|html}}</p>{{endfor}}"),
                                    (Template, "x\n{{for k, p in enumerate(pairs)}}\n{{k}}: {{p[0]}}{{if k == 3}}{{break}}{{endif}}\n{{endfor}}\n{{default z = 3}}{{z}}")]):
        add("template %d" % k, [rng.integers(-3, 4, 6), rng.random(6)], lambda a, cls=cls, txt=txt: cls(txt, name="t").substitute(pairs=[(int(x), "v<%.3f" % y) for x, y in zip(*a)]))
    return L


MODULES = ["interpolation", "interpolation.splines", "interpolation.multilinear.mlinterp", "interpolation.complete_poly", "interpolation.cartesian", "interpolation.smolyak.grid", "interpolation.smolyak.interp", "interpolation.smolyak.util",
           "interpolation.splines.hermite", "interpolation.splines.basis", "interpolation.splines.filter_cubic", "interpolation.splines.prefilter_cubic", "interpolation.splines.eval_splines", "interpolation.splines.multilinear", "interpolation.splines.splines",
           "interpolation.splines.codegen"]


def importing(spec, mon):
    """in a process of its own: what importing the package leaves behind"""
    code = """
import sys, json, os, importlib
sys.path.insert(0, %r)
import numpy as np, numba, scipy.linalg, scipy.interpolate, scipy.optimize, scipy.sparse, scipy.special, random, textwrap, html, collections
np.random.seed(3); random.seed(3)
from checks.c24 import snapshot, Streams
loaded = os.environ.get("VERIF_REPO") or "/repo"
sys.path.insert(0, loaded)
a = snapshot()
done = []
with Streams() as io:
    for m in %r:
        try:
            importlib.import_module(m)
            done.append(m)
        except ModuleNotFoundError:
            pass
b = snapshot()
print(json.dumps(dict(done=done, changed=[[k, repr(a[k])[:300], repr(b[k])[:300]] for k in a if a[k] != b[k]], keys=sorted(a), text=io.text.decode("utf8", "replace")[:300])))
""" % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), MODULES)
    for k in range(2):
        r = mon.do("import of the package", subprocess.run, [sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True)
        if r.returncode or not r.stdout.strip():
            raise RuntimeError("import in a process of its own failed: " + r.stderr[-500:])
        o = json.loads(r.stdout.strip().splitlines()[-1])
        for key in o["keys"]:
            c = [x for x in o["changed"] if x[0] == key]
            mon.true("process state: " + key, not c, "changed by importing the package: %s" % c, key="state|%s|import" % key)
        mon.true("nothing printed", not o["text"], "importing the package wrote %r" % o["text"], key="silent|import")
        mon.note("modules imported", len(o["done"]))


def one(spec, mon, rng, op, balance, count):
    nm = op["name"]
    outs = [np.zeros(s) for s in op["outs"]] if "outs" in op else None
    fn = (lambda a: op["call"](a, outs)) if outs else op["call"]
    alias = outs or op.get("alias")
    literal = any(w in nm for w in LITERAL)
    ins = [a.copy() for a in op["arrays"]]
    s0 = snapshot()
    with Streams() as io:
        mon.do(nm, fn, ins)
    s1 = snapshot()
    for k in s0:
        if k == "threads" or k == "descriptors":
            continue  # thread pools and handles of the compiler
        mon.true("process state: " + k, s0[k] == s1[k], "%s by the first call of %s: %s" % (k, nm, [x for x in (s0[k], s1[k])] if len(repr(s0[k])) < 300 else ""), key="state|%s|%s" % (k, nm))
    with Streams() as io2:
        mon.do(nm, fn, ins)
    mon.true("nothing printed", not io.text and not io2.text, "%s wrote %r" % (nm, (io.text + io2.text)[:300]), key="silent|" + nm)
    s2 = snapshot()
    # references
    gc.collect()
    gc.freeze()  # later collections look at what is made from here on
    ins = [a.copy() for a in op["arrays"]]
    rc = [sys.getrefcount(a) for a in ins]
    n0 = count[0]
    r = mon.do(nm + " (repeated)", fn, ins)
    compiled = count[0] - n0
    s3 = snapshot()
    for k in s2:
        mon.true("process state: " + k, s2[k] == s3[k], "%s changed by a repeated call of %s" % (k, nm), key="state|%s|%s" % (k, nm))
    if not literal:
        mon.true("compiled once", compiled == 0, "the third call of %s compiled %d times" % (nm, compiled), key="compiled once|" + nm)
    got = [weakref.ref(a) for a in arrays_of(r) if not any(a is o for o in outs or [])]
    del r
    gc.collect()
    more = (np.array([sys.getrefcount(a) for a in ins]) - rc).tolist()
    mon.true("no references to arguments kept", nm.startswith(KEEPS) or max(more, default=0) <= 0, "%s: references gained by the arguments: %s" % (nm, more), key="released arguments|" + nm)
    mon.true("no references to results kept", alias or not any(w() is not None for w in got), "%s keeps a reference to its result" % nm, key="released results|" + nm)
    w = [weakref.ref(a) for a in ins]
    del ins
    gc.collect()
    mon.true("no references to arguments kept", nm.startswith(KEEPS) or not any(x() is not None for x in w), "%s: arguments are alive after they were dropped" % nm, key="released arguments|dropped|" + nm)
    hostile(spec, mon, rng, op, fn)
    # memory

    def series(n, limit):
        k = 0
        end = time.time() + limit
        for i in range(n):
            a = [other(rng, x) for x in op["arrays"]]
            try:
                fn(a)
            except Exception:
                return None
            k += 1
            if i % 8 == 7 and time.time() > end:
                break
        a = None
        gc.collect()
        return k

    if balance:
        fn([a.copy() for a in op["arrays"]])
        gc.collect()
        b0 = balance()
        for _ in range(20 if not literal else 6):
            fn([a.copy() for a in op["arrays"]])
        gc.collect()
        b1 = balance()
        mon.true("compiled code releases what it allocates", b1 - b0 < (10 if not literal else 3), "%s: %d allocations more than releases" % (nm, b1 - b0), key="runtime balance|" + nm)
    if not literal:
        mon.step("%s repeated with other data" % nm)
        n, limit = spec["calls"], 0.25 if spec["tier"] == "quick" else 4
        if series(n, limit):
            grown = []
            for _ in range(3):
                g0 = sys.getallocatedblocks()
                k = series(n, limit)
                if not k:
                    return
                grown.append((sys.getallocatedblocks() - g0) / k)
                if grown[-1] < 0.8 or k < 30:
                    break
            mon.note("calls in series", k)
            mon.true("memory is bounded", k < 30 or min(grown) < 0.8, "%s: %.1f blocks of memory kept per call over %d calls" % (nm, min(grown), k), key="bounded memory|" + nm)
