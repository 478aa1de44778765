"""C15: CompletePolynomial fits, refits and damping against a model that keeps its own coefficients."""
import itertools
import numpy as np
from mon import gen

RULE = ("one case = one observation (values at samples, elsewhere, single points, partial derivatives, residual orthogonality) of an approximant after a random "
        "sequence of undamped and damped refits with changing samples; key = (observation, n, degree, data rank, data kind, history position, damped).  Oracle: own "
        "monomial basis, numpy QR least squares, coefficient recursion for damping.")
ASSUMPTIONS = ["sample sets of full column rank (condition number of the design below 1e5)", "damp in [0,1), the first fit undamped", "data of one rank per object"]
REQUIRED = ["value|", "derivative|", "orthogonal|", "recovered|", "point|", "damped", "undamped", "|scalar|", "|vector|", "|deg0", "|deg5", "two live objects"]


def tasks(tier, seed):
    q = tier == "quick"
    return [dict(name="fit-n%d-d%d" % (n, d), n=n, d=d, hist=20 if q else 80, steps=5 if q else 9, cost=n + d) for n in (1, 2, 3, 4) for d in range(6)]


def expo(n, d):
    return np.array([e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d])


def basis(E, s, der=None):
    R = np.ones((len(s), len(E)))
    for i in range(E.shape[1]):
        e = E[:, i]
        if der == i:
            R = R * e * s[:, i][:, None] ** np.maximum(e - 1, 0)
        else:
            R = R * s[:, i][:, None] ** e
    return R


def run(spec, mon):
    from interpolation.complete_poly import CompletePolynomial
    n, d = spec["n"], spec["d"]
    rng = mon.rng()
    E = expo(n, d)
    m = len(E)

    def samples():
        for _ in range(50):
            if rng.random() < 0.06 and m <= 60:
                N = int(rng.integers(2000, 9000))
                s = rng.uniform(-1, 1, (N, n))
                return s, np.linalg.cond(basis(E, s))
            N = m + int(rng.integers(0, m + 6)) if rng.random() < 0.5 else 3 * m + 5
            s = rng.uniform(-1, 1, (N, n))
            if rng.random() < 0.3:
                s = s * rng.uniform(0.7, 1.5, n) + rng.uniform(-0.2, 0.2, n)
            c = np.linalg.cond(basis(E, s))
            if c < 1e5:
                return s, c
        s = rng.uniform(-1, 1, (12 * m + 20, n))
        return s, np.linalg.cond(basis(E, s))

    buf, buf2 = gen.Buffers(), gen.Buffers()
    for h in range(spec["hist"]):
        vec = () if rng.random() < 0.5 else (int(rng.integers(1, 4)),)
        objs = []
        for _ in range(1 if h % 2 else 2):
            objs.append(dict(cp=mon.do("CompletePolynomial", CompletePolynomial, n, d), c=None, tol=0.0, k=0))
        for st in range(spec["steps"]):
            o = objs[rng.integers(len(objs))] if st >= len(objs) else objs[st]
            cp = o["cp"]
            s, cond = samples()
            Phi = basis(E, s)
            kind = ["noise", "poly", "offset", "big", "int"][rng.integers(5)]
            true = rng.standard_normal((m,) + vec)
            x = Phi @ true
            if kind == "noise":
                x = rng.standard_normal(x.shape)
            elif kind == "offset":
                x = 1000 + rng.standard_normal(x.shape)
            elif kind == "big":
                x = rng.standard_normal(x.shape) * 1e8
            elif kind == "int":
                x = rng.integers(-9, 9, x.shape).astype(float)
            if rng.random() < 0.3:
                s, x = buf.put(s), (buf.put(x) if x.ndim == 1 or x.shape[1] != n else x)
            damp = 0.0 if o["c"] is None or rng.random() < 0.4 else float(rng.choice([0.1, 0.5, 0.9, rng.uniform(0.01, 0.99), 10.0 ** rng.uniform(-6, -1), 1 - 10.0 ** rng.uniform(-6, -1)]))
            sa, xa = s, x
            if rng.random() < 0.3:
                sa, xa = gen.layout(s, ["F", "A", "CR"][rng.integers(3)]), gen.layout(x, ["A", "CR"][rng.integers(2)])
            if damp == 0.0 and rng.random() < 0.5:
                mon.do("fit_values", cp.fit_values, sa, xa)
            else:
                mon.do("fit_values", cp.fit_values, sa, xa, damp=damp)
            fit = np.linalg.lstsq(Phi, x, rcond=None)[0]
            sc = np.abs(x).max() + 1e-300
            # rounding of two least squares solvers: cond * eps (+ cond^2 eps for the residual part)
            rel = 1e-12 * cond + 1e-15 * cond ** 2
            if damp == 0.0:
                o["c"], o["tol"] = fit, rel * sc
            else:
                o["c"], o["tol"] = (1 - damp) * fit + damp * o["c"], (1 - damp) * rel * sc + damp * o["tol"]
            o["k"] += 1
            dk = "damped" if damp else "undamped"
            kk = "|n%d|deg%d|%s|%s|%s|fit%d" % (n, d, "vector" if vec else "scalar", kind, dk, min(o["k"], 4))
            # observe (any of the live objects)
            for o2 in [o] + ([objs[rng.integers(len(objs))]] if len(objs) > 1 else []):
                if o2["c"] is None:
                    continue
                c, cp2 = o2["c"], o2["cp"]
                if o2 is not o:
                    mon.cover("two live objects")
                Q = rng.uniform(-1, 1, (int([9, 1, 30, 2500 if m < 60 and rng.random() < 0.1 else 7][rng.integers(4)]), n))
                if rng.random() < 0.6:
                    Q = buf2.put(Q)
                    mon.cover("refilled points")
                A = basis(E, Q)
                t = o2["tol"] * (np.abs(A).sum(axis=1).reshape((-1,) + (1,) * len(vec)) + 1)
                mon.close("value elsewhere", mon.do("CompletePolynomial()", cp2, Q), A @ c, t, key="value" + kk)
                for der in range(n):
                    D = basis(E, Q, der)
                    td = o2["tol"] * (np.abs(D).sum(axis=1).reshape((-1,) + (1,) * len(vec)) + 1)
                    mon.close("derivative", mon.do("CompletePolynomial.der", cp2.der, Q, der), D @ c, td, key="derivative%s|%d" % (kk, der))
                mon.close("value at one point", mon.do("CompletePolynomial(point)", cp2, Q[0].copy()), (A @ c)[0], t[0], key="point" + kk, shape=False)
            v = np.asarray(mon.do("CompletePolynomial()", cp, s))
            t = o["tol"] * (np.abs(Phi).sum(axis=1).reshape((-1,) + (1,) * len(vec)) + 1)
            mon.close("value at the samples", v, Phi @ o["c"], t, key="value at samples" + kk)
            if damp == 0.0 and v.shape == x.shape:
                g = Phi.T @ (x - v)
                mon.close("residuals orthogonal to the basis", g, np.zeros_like(g), (1e-9 + 1e-13 * cond) * len(s) * sc * 10, key="orthogonal" + kk)
                if kind == "poly":
                    Q = rng.uniform(-1.2, 1.2, (9, n))
                    A = basis(E, Q)
                    mon.close("polynomials recovered", mon.do("CompletePolynomial()", cp, Q), A @ true, (o["tol"] * (np.abs(A).sum(axis=1).reshape((-1,) + (1,) * len(vec)) + 1)), key="recovered" + kk)
        mon.note("histories")
        mon.sample(n=n, degree=d, vector=bool(vec), fits=[o["k"] for o in objs])
