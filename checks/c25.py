"""C25: copies and pickles behave like the original."""
import copy, json, os, pickle, subprocess, sys, tempfile
import numpy as np
from mon.core import ApiFailed

RULE = ("one case = one copy (deep copy, shallow copy, pickle of one of the protocols 0..5, pickle read in another process) of one object or function in one state, compared with the original, or with an object of its own that was taken through the "
        "same history; key = (kind of object, kind of copy, what is compared, history).  Oracle: the answers of the original before the copy was made, and of an object that is built anew and replays the history; tolerance 1e-11.  Non-trivial: histories of "
        "updates, evaluations, cached properties and refused updates before and after the copy was made, with the other one changed in between.")
ASSUMPTIONS = ["shallow copies are compared only before anything is changed", "the container of extrapolation options is a namedtuple created under another name than its own and cannot be pickled (its members can, and are)"]
REQUIRED = ["CubicSpline|", "CubicSplines|", "LinearSpline|", "LinearSplines|", "SmolyakGrid|", "SmolyakInterp|", "CompletePolynomial|", "Template|", "HTMLTemplate|", "function|", "grid|", "deep copy", "shallow copy", "protocol 0", "protocol 5", "other process", "equal|", "independent|", "continued|"]
KINDS = ["CubicSpline", "CubicSplines", "LinearSpline", "LinearSplines", "SmolyakGrid", "SmolyakInterp", "CompletePolynomial", "Template", "HTMLTemplate"]


def tasks(tier, seed):
    q = tier == "quick"
    t = [dict(name="%s-%d" % (k, i), kind=k, rounds=(3 if q else 14), part=i, cost=4 if "pline" in k else 2) for k in KINDS for i in range(1 if q else 4)]
    t.append(dict(name="functions", kind="functions", rounds=2 if q else 6, cost=4))
    return t


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for e in x for z in flat(e)]
    return [x]


def same(x, y):
    x, y = flat(x), flat(y)
    if len(x) != len(y):
        return "%d results, %d expected" % (len(x), len(y))
    for a, b in zip(x, y):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return "%r, expected %r" % (a, b)
            continue
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return "%s %s, expected %s %s" % (a.dtype, a.shape, b.dtype, b.shape)
        if a.dtype.kind in "OUS":
            if not bool(np.all(a == b)):
                return "%s, expected %s" % (a, b)
        elif a.size and not np.all((np.abs(a - b) <= 1e-11 * (1 + np.abs(b).max())) | (np.isnan(a) & np.isnan(b))):
            return "differs by %g" % np.nanmax(np.abs(a - b))
    return None


class Model:
    """one kind of object with one configuration: make() builds it, step(o, k) takes history item k, see(o) gives its observable answers"""

    def __init__(self, kind, rng, d):
        self.kind, self.rng, self.d = kind, rng, d
        self.items = []
        getattr(self, "init_" + ("spline" if "pline" in kind else "template" if "emplate" in kind else kind))()

    # spline objects
    def init_spline(self):
        from interpolation import splines as S
        rng, d = self.rng, self.d
        n = [int(rng.integers(3, 7)) for _ in range(d)]
        a = rng.normal(size=d)
        b = a + rng.uniform(0.5, 3, d)
        multi = self.kind.endswith("s")
        nv = int(rng.integers(1, 4))
        V = lambda: rng.normal(size=n + ([nv] if multi else []))
        cls = getattr(S, self.kind)
        first = V() if rng.random() < 0.7 else None
        self.make = lambda: cls(a.copy(), b.copy(), list(n)) if first is None else cls(a.copy(), b.copy(), list(n), first.copy())
        P = a + (b - a) * rng.uniform(-0.2, 1.2, (9, d))
        self.set = lambda v=None: (lambda v: ("values", lambda o: o.set_values(v.copy())))(V())
        self.noise = [("nodes", lambda o: o.grid)] if hasattr(cls, "grid") and isinstance(cls.grid, property) else []
        self.noise += [("evaluation", lambda o: o(P)), ("refused update", lambda o: o.set_values(np.full([m + 1 for m in n] + [nv] * multi, 1.0)))]
        if self.kind == "CubicSpline":
            self.see = lambda o: [o(P), o(P[0]), o.interpolate(P), o.interpolate(P[1]), np.array(o.grid)]
        elif self.kind == "CubicSplines":
            self.see = lambda o: [o(P), o.interpolate(P), o.interpolate(P, diff=True)]
        else:
            self.see = lambda o: [o(P), o(P[0]), o.interpolate(P), np.array(o.grid)]
        self.ready = first is not None

    def init_SmolyakGrid(self):
        from interpolation.smolyak.grid import SmolyakGrid
        rng = self.rng
        d = max(2, self.d)
        mu = int(rng.integers(1, 4 if d == 2 else 3)) if rng.random() < 0.5 else [int(m) for m in rng.integers(1, 4 if d == 2 else 3, d)]
        lb = rng.normal(size=d) if rng.random() < 0.7 else None
        ub = None if lb is None else lb + rng.uniform(0.5, 3, d)
        self.cfg = d, mu, lb, ub
        self.make = lambda: SmolyakGrid(d, copy.copy(mu), None if lb is None else lb.copy(), None if ub is None else ub.copy())
        P = rng.uniform(-1, 1, (8, d))
        from interpolation.smolyak.interp import SmolyakInterp
        f = rng.normal(size=5000)
        self.see = lambda o: [np.array(o.grid), np.array(o.cube_grid), o.cube2dom(P), o.dom2cube(o.cube2dom(P)), repr(o), str(o), SmolyakInterp(o, f[: len(o.grid)]).interpolate(o.cube2dom(P), deriv=True)]
        self.noise = [("text", str), ("transform", lambda o: o.cube2dom(P))]
        self.set = None
        self.ready = True

    def init_SmolyakInterp(self):
        self.init_SmolyakGrid()
        rng, mk = self.rng, self.make
        from interpolation.smolyak.interp import SmolyakInterp
        N = len(mk().grid)
        first = rng.normal(size=N)
        self.make = lambda: SmolyakInterp(mk(), first.copy())
        P = mk().cube2dom(rng.uniform(-1, 1, (8, self.cfg[0])))
        self.see = lambda o: [o.interpolate(P), o.interpolate(P, deriv=True), o.interpolate(P, interp=False, deriv_th=True, deriv_X=True), np.array(o.sg.grid)]
        self.noise = [("evaluation", lambda o: o.interpolate(P)), ("refused update", lambda o: o.update_theta(np.ones(N + 1)))]
        self.set = lambda: (lambda v: ("values", lambda o: o.update_theta(v.copy())))(rng.normal(size=N))

    def init_CompletePolynomial(self):
        from interpolation.complete_poly import CompletePolynomial
        rng = self.rng
        n, deg = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        k = int(rng.integers(0, 3))
        self.make = lambda: CompletePolynomial(n, deg)
        P = rng.normal(size=(6, n))
        self.see = lambda o: [o(P), o.der(P, n - 1)]
        self.noise = [("evaluation", lambda o: o(P))]
        self.ready = False

        def fit(fresh=False):
            s, x = rng.normal(size=(50, n)), rng.normal(size=(50, k) if k else 50)
            damp = 0.0 if fresh or rng.random() < 0.4 else float(rng.uniform(0.1, 0.9))
            return ("fit damp=%.2f" % damp, lambda o: o.fit_values(s.copy(), x.copy(), damp=damp) if damp else o.fit_values(s.copy(), x.copy()))
        self.set = fit

    def init_template(self):
        from interpolation import tempita as T
        rng = self.rng
        texts = ["{{for a in xs}}{{if a > %d}}<{{a}}>{{elif a == 0}}zero{{else}}-{{endif}}{{endfor}} %s {{name}}", "{{default z = %d}}{{z}} {{py: w = [x * 2 for x in xs]}}{{w[0]}} %s {{name|repr}}", "a\n{{for k, v in enumerate(xs)}}\n {{k}}={{v}}{{if k == %d}}{{break}}{{endif}}\n{{endfor}}\n%s{{name}}\n"]
        txt = texts[int(rng.integers(len(texts)))] % (int(rng.integers(3)), rng.choice(["&", "δ_1", "$x$", "'\"", ""]))
        own = {"extra": int(rng.integers(9))} if rng.random() < 0.5 else None
        delim = ("<%", "%>") if rng.random() < 0.4 else None
        if delim:
            txt = txt.replace("{{", "<%").replace("}}", "%>")
        else:
            txt += "{{extra}}" if own else ""
        cls = getattr(T, self.kind)
        self.make = lambda: cls(txt, name="t%s" % self.d, namespace=own and dict(own), **({"delimeters": delim} if delim else {}))
        args = [dict(xs=[int(v) for v in rng.integers(-2, 4, 4)], name=str(rng.choice(["n", "<b>", "é", "a&b"]))) for _ in range(3)]
        self.see = lambda o: [str(o.substitute(**a)) for a in args] + [repr(type(o.substitute(args[0])).__name__), o.name]
        self.noise = [("substitution", lambda o: o.substitute(**args[0])), ("refused", lambda o: o.substitute())]
        self.set = None
        self.ready = True

    def history(self, n, ready=None):
        out = []
        ready = self.ready if ready is None else ready
        if not ready and self.set:
            out.append(self.set(True) if self.kind == "CompletePolynomial" else self.set())
        for _ in range(n):
            if self.set and self.rng.random() < 0.5:
                out.append(self.set())
            else:
                out.append(self.noise[int(self.rng.integers(len(self.noise)))])
        return out


def take(mon, nm, o, steps):
    for s, f in steps:
        if s.startswith("refused"):
            try:
                f(o)
            except Exception:
                pass
        else:
            mon.do("%s: %s" % (nm, s), f, o)


COPIES = [("deep copy", copy.deepcopy), ("shallow copy", copy.copy)] + [("pickle protocol %d" % k, lambda o, k=k: pickle.loads(pickle.dumps(o, k))) for k in range(6)]


def run(spec, mon):
    import warnings
    warnings.simplefilter("ignore")
    if spec["kind"] == "functions":
        return functions(spec, mon)
    rng = mon.rng()
    kind = spec["kind"]
    for rep in range(spec["rounds"]):
        for d in (1, 2, 3):
            if kind.startswith("Smolyak") and d == 1:
                continue
            m = Model(kind, rng, d)
            try:
                one(spec, mon, m, rng, rep)
            except ApiFailed:
                continue


def one(spec, mon, m, rng, rep):
    kind = m.kind
    hist = m.history(int(rng.integers(0, 4)))
    mon.sample(object=kind, history=[h[0] for h in hist])
    tag = "%s|d%d" % (kind, m.d)
    o = mon.do(kind, m.make)
    if not m.ready and rng.random() < 0.5:  # a copy made before any values were given
        c = mon.do("deep copy of a new " + kind, copy.deepcopy, o)
        take(mon, "copy", c, hist)
        take(mon, kind, o, hist)
        mon.true("copied before the first values", not same(m.see(c), m.see(o)), "%s d=%d: %s" % (kind, m.d, same(m.see(c), m.see(o))), key="continued|%s|new" % tag)
    else:
        take(mon, kind, o, hist)
    cold = rng.random() < 0.5  # the copy is taken before the original was ever looked at
    want = None if cold else mon.do(kind + " answers", m.see, o)
    made = []
    for nm, f in COPIES:
        c = mon.do("%s of %s after %s" % (nm, kind, [h[0] for h in hist]), f, o)
        made.append((nm, c))
    if want is None:
        want = mon.do(kind + " answers", m.see, o)
    for nm, c in made:
        got = mon.do("answers of the %s of %s" % (nm, kind), m.see, c)
        mon.true("a copy answers like the original", not same(got, want), "%s of %s d=%d after %s: %s" % (nm, kind, m.d, [h[0] for h in hist], same(got, want)), key="equal|%s|%s|%s" % (tag, nm, len(hist)))
        mon.true("same type", type(c) is type(o), "%s of %s is a %s" % (nm, kind, type(c).__name__), key="equal|%s|%s|type" % (tag, nm))
    other_process(mon, m, o, want, tag)
    mon.true("copying changes nothing", not same(m.see(o), want), "%s d=%d: %s" % (kind, m.d, same(m.see(o), want)), key="equal|%s|original" % tag)
    deep = [(nm, c) for nm, c in made if nm != "shallow copy"]
    # each copy goes its own way, as an object of its own that replays everything
    pick = [deep[i] for i in rng.permutation(len(deep))[:4]]
    pick = [(nm, c, m.history(int(rng.integers(1, 4)), True)) for nm, c in pick]
    late = m.history(int(rng.integers(1, 3)), True)
    order = [(nm, c, h) for nm, c, h in pick]
    order.insert(int(rng.integers(len(order) + 1)), ("original", o, late))
    for nm, c, h in order:
        take(mon, "%s of %s" % (nm, kind), c, h)
    for nm, c, h in order:
        ref = m.make()
        take(mon, "replayed " + kind, ref, hist + h)
        got, exp = mon.do("answers of the %s of %s" % (nm, kind), m.see, c), m.see(ref)
        mon.true("copies go on independently", not same(got, exp), "%s of %s d=%d after %s and %s (others changed meanwhile): %s" % (nm, kind, m.d, [x[0] for x in hist], [x[0] for x in h], same(got, exp)), key="continued|%s|%s|%d" % (tag, nm, len(h)))
    rest = [(nm, c) for nm, c in deep if not any(c is p[1] for p in pick)]
    for nm, c in rest:
        got = mon.do("answers of the %s of %s" % (nm, kind), m.see, c)
        mon.true("a copy is independent", not same(got, want), "%s of %s d=%d changed when others were: %s" % (nm, kind, m.d, same(got, want)), key="independent|%s|%s" % (tag, nm))
    # a copy that outlives everything else
    nm, c = rest[0]
    cc = pickle.loads(pickle.dumps(copy.deepcopy(c)))
    made.clear(), deep.clear(), pick.clear(), rest.clear(), order.clear()
    del o, c
    got = mon.do("answers of a copy of a copy of " + kind, m.see, cc)
    mon.true("a copy is independent", not same(got, want), "copy of a copy of %s d=%d: %s" % (kind, m.d, same(got, want)), key="independent|%s|copy of a copy" % tag)


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REMOTE = """
import sys, pickle, warnings
warnings.simplefilter("ignore")
sys.path[:0] = [%r, %r]
jobs = pickle.load(open(sys.argv[1], "rb"))
out = []
for b, calls in jobs:
    try:
        o = pickle.loads(b)
        r = []
        for name, a, k in calls:
            f = o if name == "" else getattr(o, name)
            r.append(f(*a, **k) if callable(f) else f)
        out.append(r)
    except BaseException as e:
        out.append("%%s: %%s" %% (type(e).__name__, e))
pickle.dump(out, open(sys.argv[2], "wb"))
"""


def remote(jobs):
    with tempfile.TemporaryDirectory() as d:
        i, o = os.path.join(d, "in"), os.path.join(d, "out")
        pickle.dump(jobs, open(i, "wb"))
        r = subprocess.run([sys.executable, "-c", REMOTE % (HERE, os.environ.get("VERIF_REPO", "/repo")), i, o], capture_output=True, text=True)
        if not os.path.exists(o):
            raise RuntimeError("another process that reads pickles died: rc %s %s" % (r.returncode, r.stderr[-400:]))
        return pickle.load(open(o, "rb"))


def other_process(mon, m, o, want, tag):
    if m.rng.random() > 0.4 and m.d != 2:
        return
    calls = dict(
        CubicSpline=lambda P: [("", (P,), {})], CubicSplines=lambda P: [("", (P,), {}), ("interpolate", (P,), dict(diff=True))], LinearSpline=lambda P: [("", (P,), {})], LinearSplines=lambda P: [("", (P,), {})],
        SmolyakGrid=lambda P: [("grid", (), {}), ("cube2dom", (P,), {})], SmolyakInterp=lambda P: [("interpolate", (P,), dict(deriv=True))], CompletePolynomial=lambda P: [("", (P,), {})],
        Template=lambda P: [("substitute", (dict(xs=[1, 0, 3], name="<x>"),), {})], HTMLTemplate=lambda P: [("substitute", (dict(xs=[1, 0, 3], name="<x>"),), {})])[m.kind]
    d = getattr(o, "d", m.d) if m.kind not in ("CompletePolynomial", "SmolyakInterp") else o.n if m.kind == "CompletePolynomial" else o.sg.d
    cs = calls(m.rng.normal(size=(5, d)))
    here = [(lambda f: f(*a, **k) if callable(f) else f)(o if n == "" else getattr(o, n)) for n, a, k in cs]
    mon.step("%s pickled for another process" % m.kind)
    got = remote([(pickle.dumps(o, int(m.rng.integers(2, 6))), cs)])[0]
    mon.true("a pickle answers like the original in another process", not isinstance(got, str) and not same(got, here), "%s d=%d: %s" % (m.kind, m.d, got if isinstance(got, str) else same(got, here)), key="equal|%s|other process" % tag)


def functions(spec, mon):
    import interpolation.splines as S
    from interpolation.multilinear.mlinterp import mlinterp, interp
    from interpolation.splines.hermite import HermiteInterpolationVect
    from interpolation.splines.eval_splines import eval_spline
    from interpolation.complete_poly import complete_polynomial
    from interpolation.cartesian import cartesian, mlinspace
    rng = mon.rng()
    o = S.extrap_options
    for rep in range(spec["rounds"]):
        n = int(rng.integers(3, 7))
        x = np.sort(rng.random(n)) + np.arange(n)
        gu, gn = S.UCGrid((0.0, 2.0, n), (1.0, 3.0, 4)), S.CGrid((0.0, 2.0, n), np.array([1.0, 1.2, 2.0, 3.5]))
        V, P, V1 = rng.normal(size=(n, 4)), rng.uniform(-0.5, 3.5, (6, 2)), rng.normal(size=n)
        C = S.filter_cubic(gu, V)
        jobs = []
        for nm, f, args, kw in [
                ("eval_linear", S.eval_linear, (gn, V, P), {}), ("eval_linear nearest", S.eval_linear, (gu, V, P, o.NEAREST), {}), ("eval_linear constant", S.eval_linear, (gn, V, P, o.CONSTANT), {}), ("eval_cubic", S.eval_cubic, (gu, C, P), {}),
                ("eval_cubic linear", S.eval_cubic, (gu, C, P, o.LINEAR), {}), ("filter_cubic", S.filter_cubic, (gu, V), {}), ("interp", interp, (x, V1, P[:, 0].copy()), {}), ("mlinterp", mlinterp, (gn, V, P), {}),
                ("HermiteInterpolationVect", HermiteInterpolationVect, (P[:, 0].copy(), x, V1, V1 * 2), {}), ("complete_polynomial", complete_polynomial, (P.T.copy(), 3), {}), ("cartesian", cartesian, ([x, V1],), {}), ("mlinspace", mlinspace, ([0.0, 1.0], [2.0, 3.0], [n, 4]), {}), ("nodes", S.nodes, (gn,), {})]:
            try:
                want = mon.do(nm, f, *args, **kw)
            except ApiFailed:
                continue
            for cn, cf in COPIES:
                if "protocol" in cn and int(cn[-1]) in (1, 3) and rng.random() < 0.7:
                    continue
                try:
                    g = mon.do("%s of function %s" % (cn, nm), cf, f)
                    a2, k2 = mon.do("%s of the arguments of %s" % (cn, nm), cf, (args, kw))
                    got = mon.do("%s of %s" % (cn, nm), g, *a2, **k2)
                except ApiFailed:
                    continue
                mon.true("a copied function answers like the original", not same(got, want), "%s of %s: %s" % (cn, nm, same(got, want)), key="equal|function|%s|%s" % (nm, cn))
            jobs.append((nm, want, (pickle.dumps(f), [("", pickle.loads(pickle.dumps(args)), kw)])))
            mon.sample(function=nm)
        mon.step("functions pickled for another process")
        for (nm, want, _), got in zip(jobs, remote([j[2] for j in jobs])):
            mon.true("a pickle answers like the original in another process", not isinstance(got, str) and not same(got[0], want), "%s: %s" % (nm, got if isinstance(got, str) else same(got[0], want)), key="equal|function|%s|other process" % nm)
        for nm, g in (("UCGrid", gu), ("CGrid", gn), ("option", (o.NEAREST, o.CONSTANT, o.LINEAR))):
            for cn, cf in COPIES:
                c = mon.do("%s of %s" % (cn, nm), cf, g)
                ok = nm == "option" and c == g or nm != "option" and not same([np.asarray(z, dtype=float) if isinstance(z, np.ndarray) else np.array(z, dtype=float) for z in c], [np.asarray(z, dtype=float) if isinstance(z, np.ndarray) else np.array(z, dtype=float) for z in g])
                mon.true("grids and options can be copied", ok and type(c) is type(g), "%s of %s: %r" % (cn, nm, c), key="equal|grid|%s|%s" % (nm, cn))
                if nm == "CGrid":
                    e = mon.do("eval_linear on a copied grid", S.eval_linear, c, V, P)
                    mon.true("copied grids evaluate", not same(e, S.eval_linear(g, V, P)), "%s of %s" % (cn, nm), key="equal|grid|eval|%s" % cn)
