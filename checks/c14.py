"""C14: complete polynomial bases.  The rows are identified by evaluating at distinct primes (unique factorisation), then checked on arbitrary data."""
import math
import numpy as np
from mon import gen

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29]
RULE = ("one case = one oracle-checked basis (all rows, all columns); key = (function, form, n, degree, derivative index, data kind).  Oracle: exponent vectors "
        "recovered from a run at distinct primes (must be all of total degree <= d, once each), then products of powers in extended precision on zeros, "
        "negatives, integers, tiny and large data.")
ASSUMPTIONS = ["values whose 5th powers stay in the double / int64 range"]
REQUIRED = ["rows|", "der rows|", "basis|matrix|", "basis|vector|", "der|matrix|", "der|vector|", "count|", "rejects degree", "rejects negative", "rejects derivative", "|deg5", "|deg0", "zeros", "int"]


def tasks(tier, seed):
    q = tier == "quick"
    L = [dict(name="n%d-%s" % (n, e), n=n, env=e, reps=(6 if q else 60) if e == "jit" else (1 if q else 4), cost=n) for n in range(1, 7 if q else 9) for e in ("jit", "nojit") if not (e == "nojit" and n > 3)]
    L.append(dict(name="count", n=0, env="jit", reps=1, cost=1))
    return L


def exponents(col, n):
    E = []
    for v in col:
        v = float(v)
        e = []
        k = int(round(v))
        if k != v or k <= 0:
            return None
        for p in PRIMES[:n]:
            c = 0
            while k % p == 0:
                k //= p
                c += 1
            e.append(c)
        if k != 1:
            return None
        E.append(tuple(e))
    return E


def run(spec, mon):
    from interpolation import complete_poly as C
    rng = mon.rng()
    n = spec["n"]
    if n == 0:
        for a in range(1, 31):
            for d in range(0, 7):
                mon.close("n_complete", mon.do("n_complete", C.n_complete, a, d), math.comb(a + d, d), 0, key="count|n%d|deg%d" % (a, d))
        for a in (1, 3):
            z, zv = np.ones((a, 4)), np.ones(a)
            for d in (6, 7, 50):
                for zz, f in ((z, "matrix"), (zv, "vector")):
                    mon.expect_raise("complete_polynomial(degree %d)" % d, C.complete_polynomial, zz, d, key="rejects degree %d|%s" % (d, f))
                    mon.expect_raise("complete_polynomial_der(degree %d)" % d, C.complete_polynomial_der, zz, d, 0, key="rejects degree %d|der %s" % (d, f))
            for d in (-1, -3):
                for zz, f in ((z, "matrix"), (zv, "vector")):
                    mon.expect_raise("complete_polynomial(degree %d)" % d, C.complete_polynomial, zz, d, key="rejects negative %d|%s" % (d, f))
                    mon.expect_raise("complete_polynomial_der(degree %d)" % d, C.complete_polynomial_der, zz, d, 0, key="rejects negative %d|der %s" % (d, f))
            for der in (-1, -2, a, a + 3):
                for d in (0, 1, 2, 5):
                    for zz, f in ((z, "matrix"), (zv, "vector")):
                        mon.expect_raise("complete_polynomial_der(der %d)" % der, C.complete_polynomial_der, zz, d, der, key="rejects derivative %s|%s|deg%d" % ("negative" if der < 0 else "too large", f, d))
        return
    pr = np.array(PRIMES[:n], dtype=float)
    for d in range(6):
        m = math.comb(n + d, d)
        B = np.asarray(mon.do("complete_polynomial at primes", C.complete_polynomial, pr, d))
        if not mon.true("number of rows", B.shape == (m,), "%s rows for n=%d degree %d, expected %d" % (B.shape, n, d, m), key="rows|n%d|deg%d" % (n, d)):
            continue
        E = exponents(B, n)
        if not mon.true("rows are monomials", E is not None, "%s" % B, key="monomials|n%d|deg%d" % (n, d)):
            continue
        mon.true("every monomial once", len(set(E)) == m and all(sum(e) <= d for e in E), "%s" % E, key="once|n%d|deg%d" % (n, d))
        first = [(0,) * n] + ([tuple(int(i == j) for j in range(n)) for i in range(n)] if d >= 1 else [])
        mon.true("constant and variables first", E[:len(first)] == first, "%s" % E[:n + 1], key="first|n%d|deg%d" % (n, d))
        E = np.array(E).reshape(m, n)
        mon.sample(n=n, degree=d, rows=m, last_monomial=E[-1].tolist())

        def mono(z, der=None):
            Z = np.asarray(z).astype(np.longdouble)
            P = np.stack([Z ** k for k in range(6)])  # power, variable, obs
            R = np.ones((m,) + Z.shape[1:], dtype=np.longdouble)
            for i in range(n):
                e = E[:, i]
                if der == i:
                    R = R * (e.reshape((m,) + (1,) * (Z.ndim - 1)) * P[np.maximum(e - 1, 0), i])
                else:
                    R = R * P[e, i]
            return R.astype(float)
        for r in range(spec["reps"]):
            nobs = [7, 1, 40 if n > 4 else 3000, 0, 13, 3][r % 6]
            kind = ["normal", "zeros", "int", "big", "small", "normal"][r % 6]
            z = rng.standard_normal((n, nobs))
            if kind == "zeros":
                z[rng.random(z.shape) < 0.5] = 0.0
            elif kind == "int":
                z = rng.integers(-9, 10, (n, nobs))
            elif kind == "big":
                z = z * 1e4
            elif kind == "small":
                z = z * 1e-4
            z0 = z
            if kind == "normal" and r:
                z = gen.layout(z, "F" if r % 4 else "A")
            elif kind == "big":
                z = z.T.copy().T
            kk = "|n%d|deg%d|%s" % (n, d, kind)
            w = mono(z0)
            tol = 1e-12 * np.abs(w) + 1e-300
            mon.close("basis (matrix)", mon.do("complete_polynomial", C.complete_polynomial, z, d), w, tol, key="basis|matrix" + kk)
            vec = [z0[:, j] for j in range(min(nobs, 3))] + [np.zeros(n)]
            for j, v in enumerate(vec):
                wv = mono(v)
                v = v.tolist() if (j == 1 and r % 2) else v
                mon.close("basis (vector)", mon.do("complete_polynomial vector", C.complete_polynomial, v, d), wv, 1e-12 * np.abs(wv) + 1e-300, key="basis|vector" + kk)
            for der in range(n):
                w = mono(z0, der)
                mon.close("derivative basis (matrix)", mon.do("complete_polynomial_der", C.complete_polynomial_der, z, d, der), w, 1e-12 * np.abs(w) + 1e-300, key="der|matrix%s|%d" % (kk, der))
                for v in vec[:2] + vec[-1:]:
                    wv = mono(v, der)
                    mon.close("derivative basis (vector)", mon.do("complete_polynomial_der vector", C.complete_polynomial_der, v, d, der), wv, 1e-12 * np.abs(wv) + 1e-300, key="der|vector%s|%d" % (kk, der))
        mon.cover("der rows|n%d|deg%d" % (n, d))
