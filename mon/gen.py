"""Workload generators: grids, values, hostile points, memory layouts."""
import numpy as np
from mon import ref

SCALES = ["unit", "neg", "shift", "tiny", "huge", "wide", "asym"]


STEPS = ["random", "random", "random", "random", "even", "mirrored", "trap", "alternating", "geometric", "one odd", "jitter"]


def steps(rng, n, kind=None):
    """relative lengths of the n-1 cells of an irregular dimension"""
    if n <= 2:
        return np.ones(1)
    m = n - 1
    kind = kind or STEPS[rng.integers(len(STEPS))]
    w = np.exp(rng.uniform(-3, 3, m))
    if kind == "even":
        w = np.ones(m)
    elif kind == "mirrored":  # Chebyshev-like: symmetric about the middle
        w = np.diff(-np.cos(np.pi * np.arange(n) / m)) if rng.random() < 0.5 else w + w[::-1]
    elif kind == "trap":  # first, middle and last cells have the mean length, the others do not
        w[[0, m // 2, m - 1]] = 1.0
        rest = np.setdiff1d(np.arange(m), [0, m // 2, m - 1])
        if len(rest):
            w[rest] *= len(rest) / w[rest].sum()
    elif kind == "alternating":
        w = np.where(np.arange(m) % 2 == 0, 1.0, float(rng.uniform(0.05, 20)))
    elif kind == "geometric":
        w = np.exp(np.linspace(0, float(rng.uniform(-6, 6)), m))
    elif kind == "jitter":  # almost even
        w = 1 + rng.standard_normal(m) * 10.0 ** rng.uniform(-9, -2)
    elif kind == "one odd":
        w = np.ones(m)
        w[rng.integers(m)] = float(rng.choice([0.1, 0.5, 3.0, 30.0]))
    return w


def ncomp(rng, many=40):
    """number of components of vector-valued data: mostly a few, sometimes many"""
    u = rng.random()
    if u < 0.02 and many >= 40:
        return int(rng.integers(41, 200))
    return int(rng.integers(8, many + 1)) if u < 0.15 else int(rng.integers(1, 6))


def grid1d(rng, kind, n, scale=None):
    scale = scale or SCALES[rng.integers(len(SCALES))]
    if scale == "unit":
        a, b = 0.0, 1.0
    elif scale == "neg":
        a, b = -float(rng.uniform(2, 5)), -float(rng.uniform(0.1, 1.9))
    elif scale == "shift":
        a = float(rng.uniform(50, 100))
        b = a + float(rng.uniform(0.5, 3))
    elif scale == "tiny":
        a = float(rng.uniform(-1, 1)) * 1e-6
        b = a + float(rng.uniform(1, 9)) * 1e-6
    elif scale == "huge":
        a = float(rng.uniform(-1, 1)) * 1e7
        b = a + float(rng.uniform(1, 9)) * 1e7
    elif scale == "wide":
        a, b = -float(rng.uniform(10, 1000)), float(rng.uniform(10, 1000))
    else:
        a, b = -float(rng.uniform(0.1, 1)), float(rng.uniform(1, 4))
    if kind == "u":
        return (a, b, int(n))
    w = steps(rng, n)
    x = a + (b - a) * np.concatenate([[0], np.cumsum(w)]) / w.sum()
    x[0], x[-1] = a, b
    assert np.all(np.diff(x) > 0)
    return x


def grid(rng, kinds, ns, scale=None):
    return tuple(grid1d(rng, k, n, scale) for k, n in zip(kinds, ns))


def shape(grid):
    return tuple(ref.size(g) for g in grid)


IN = ["node", "lo", "hi", "mid", "in", "in", "near", "first", "last", "quarter"]
OUT = ["below", "above", "farbelow", "farabove", "epsbelow", "epsabove", "stepbelow", "stepabove"]


def coord(rng, g, cls):
    z = ref.nodes1d(g).astype(float)
    a, b = ref.bounds(g)
    w = b - a
    n = len(z)
    if cls == "node":
        return float(z[rng.integers(n)])
    if cls == "lo":
        return a
    if cls == "hi":
        return b
    j = int(rng.integers(n - 1))
    if cls == "first":
        j = 0
    if cls == "last":
        j = n - 2
    if cls == "mid":
        return float(min(max((z[j] + z[j + 1]) / 2, a), b))
    if cls in ("in", "first", "last"):
        return float(min(max(z[j] + rng.uniform(0.02, 0.98) * (z[j + 1] - z[j]), a), b))
    if cls == "quarter":
        return float(min(max(z[j] + 0.25 * (z[j + 1] - z[j]), a), b))
    if cls == "near":
        i = int(rng.integers(n))
        h = (z[1] - z[0]) if i == 0 else (z[i] - z[i - 1])
        return float(min(max(z[i] + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -0.7) * h, a), b))
    if cls == "below":
        return a - float(rng.uniform(0.05, 1.5)) * w
    if cls == "above":
        return b + float(rng.uniform(0.05, 1.5)) * w
    if cls == "farbelow":
        return a - float(rng.uniform(20, 4000)) * w
    if cls == "farabove":
        return b + float(rng.uniform(20, 4000)) * w
    if cls == "epsbelow":
        return float(np.nextafter(a - 1e-7 * w, -np.inf))
    if cls == "epsabove":
        return float(np.nextafter(b + 1e-7 * w, np.inf))
    if cls == "stepbelow":
        return a - float(z[1] - z[0]) * float(rng.integers(1, 4))
    if cls == "stepabove":
        return b + float(z[-1] - z[-2]) * float(rng.integers(1, 4))
    raise ValueError(cls)


def points(rng, grid, N, where="in"):
    """N x d points.  where: in | out (>=1 coordinate outside) | any ; returns points and class labels"""
    d = len(grid)
    if N > 1500:  # recombine the coordinates of a smaller sample
        base, bl = points(rng, grid, 500, where)
        idx = rng.integers(500, size=(N, d))
        if where == "out":
            o = np.array([[c in OUT for c in l] for l in bl])
            bad = ~o[idx, np.arange(d)].any(axis=1)
            idx[bad] = idx[bad][:, :1]
        return base[idx, np.arange(d)].copy(), [[bl[i][j] for j, i in enumerate(row)] for row in idx[:50]] + [["in"] * d] * (N - 50)
    P = np.empty((N, d))
    lab = []
    for i in range(N):
        if where == "in":
            cl = [IN[rng.integers(len(IN))] for _ in range(d)]
        else:
            cl = [(OUT if rng.random() < 0.5 else IN) for _ in range(d)]
            cl = [c[rng.integers(len(c))] for c in cl]
            if where == "out" and not any(c in OUT for c in cl):
                cl[rng.integers(d)] = OUT[rng.integers(len(OUT))]
        P[i] = [coord(rng, g, c) for g, c in zip(grid, cl)]
        lab.append(cl)
    if N > 1 and rng.random() < 0.4:
        P, lab = structured(rng, P, lab, where)
    return P, lab


def structured(rng, P, lab, where):
    """batches as users make them: sorted, along a coordinate line, with repeated points, tensor products"""
    N, d = P.shape
    kind = ["sorted", "reversed", "hold", "hold", "repeated", "mesh", "scan", "walk", "creep", "same sums"][rng.integers(10)]
    idx = np.tile(np.arange(N)[:, None], (1, d))  # source row of every entry
    if kind in ("creep", "same sums"):  # away from the original points: steps much smaller than a cell, exchanged coordinates
        Q = P.copy()
        h = 10.0 ** rng.uniform(-12, -3) * np.maximum(np.ptp(P, axis=0), 1e-300)
        if kind == "creep":
            for i in range(1, N):
                if i % 12:
                    Q[i] = Q[i - 1] + h * rng.uniform(0.5, 1, d) * (rng.random(d) < 0.7)
        elif d > 1:
            for i in range(1, N, 2):
                e = float(rng.standard_normal()) * h[:2].min()
                Q[i] = Q[i - 1]
                Q[i, 0] += e
                Q[i, 1] -= e
        if where == "any":
            return Q, lab
        kind = "hold"
    if kind in ("sorted", "reversed"):
        o = np.lexsort(P.T[::-1]) if rng.random() < 0.5 else np.argsort(P[:, rng.integers(d)], kind="stable")
        idx[:] = (o if kind == "sorted" else o[::-1])[:, None]
    elif kind == "hold":  # each row differs from the previous one in a single coordinate
        j = rng.integers(d, size=N)
        for i in range(1, N):
            row = idx[i - 1].copy()
            row[j[i]] = i
            idx[i] = row
    elif kind == "repeated":
        idx[:] = np.repeat(np.arange(N), rng.integers(1, 5, N))[:N, None]
    elif kind == "mesh":
        m = max(2, int(round(N ** (1.0 / d))))
        for i in range(d):
            idx[:, i] = (np.arange(N) // m ** (d - 1 - i)) % m % N
    elif kind == "scan":
        keep = int(rng.integers(d))
        for i in range(d):
            if i != keep:
                idx[:, i] = 0
    else:  # the same cell for a while, then a jump
        idx[:] = (np.arange(N) // 3 * 3 % N)[:, None]
        idx[:, rng.integers(d)] = np.arange(N)
    if where == "out":  # keep one outside coordinate per row
        for i in range(N):
            if not any(lab[idx[i, c]][c] in OUT for c in range(d)):
                idx[i] = i
    return P[idx, np.arange(d)].copy(), [[lab[idx[i, c]][c] for c in range(d)] for i in range(N)]


def values(rng, shp, kind=None):
    kind = kind or ["normal", "big", "small", "int", "spike", "offset", "alt", "micro", "macro", "normal", "special", "pattern", "pattern"][rng.integers(13)]
    if kind == "normal":
        return rng.standard_normal(shp)
    if kind == "big":
        return rng.standard_normal(shp) * 1e8
    if kind == "small":
        return rng.standard_normal(shp) * 1e-8
    if kind == "micro":
        return rng.standard_normal(shp) * 10.0 ** rng.uniform(-60, -12)
    if kind == "macro":
        return rng.standard_normal(shp) * 10.0 ** rng.uniform(12, 60)
    if kind == "special":
        k2 = int(rng.integers(4))
        v = rng.standard_normal(shp)
        if k2 == 0:
            return np.zeros(shp)
        if k2 == 1:
            return np.full(shp, float(rng.standard_normal()))
        ax = -1 if k2 == 2 else int(rng.integers(v.ndim))  # a zero slice: some component, row or plane
        np.moveaxis(v, ax, 0)[int(rng.integers(v.shape[ax]))] = 0.0
        return v
    if kind == "pattern":
        return pattern(rng, shp)
    if kind == "int":
        return rng.integers(-9, 10, shp).astype(float)
    if kind == "spike":
        v = np.zeros(shp)
        v.flat[rng.integers(v.size)] = 1.0
        return v + rng.standard_normal(shp) * 1e-3
    if kind == "offset":
        return 1000.0 + rng.standard_normal(shp)
    v = rng.uniform(0.5, 1.5, shp)
    return v * np.where(np.indices(shp).sum(axis=0) % 2 == 0, 1, -1)


def pattern(rng, shp):
    """data with structure: unit vectors, indicators, few levels, symmetric, separable, ramps"""
    k = int(rng.integers(8))
    v = np.zeros(shp)
    if k == 0:  # unit vector
        v.flat[rng.integers(v.size)] = float(rng.choice([1.0, -2.5]))
    elif k == 1:  # a few nonzero entries on a common level
        m = max(1, v.size // 10)
        v.flat[rng.integers(v.size, size=m)] = rng.standard_normal(m)
        v += float(rng.choice([0.0, 1.0, -3.0]))
    elif k == 2:  # indicator of a box
        v[tuple(slice(i, j + 1) for i, j in (sorted(rng.integers(n, size=2)) for n in shp))] = 1.0
    elif k == 3:  # few levels
        v = rng.choice(rng.standard_normal(3), size=shp)
    elif k == 4:  # mirror images along every dimension
        v = rng.standard_normal(shp)
        for i in range(v.ndim):
            v = v + np.flip(v, i)
    elif k == 5:  # symmetric under exchange of two dimensions of equal length
        v = rng.standard_normal(shp)
        for i in range(v.ndim):
            for j in range(i):
                if shp[i] == shp[j]:
                    v = v + np.swapaxes(v, i, j)
    elif k == 6:  # sum or product of functions of one variable, smooth or not
        op = np.add if rng.random() < 0.5 else np.multiply
        v = v + (0.0 if op is np.add else 1.0)
        for i, n in enumerate(shp):
            t = np.arange(n) if rng.random() < 0.5 else rng.standard_normal(n)
            v = op(v, (t * float(rng.choice([1.0, -0.5, 3.0]))).reshape([-1 if j == i else 1 for j in range(v.ndim)]))
    else:  # monotone in the enumeration
        v = np.sort(rng.standard_normal(v.size)).reshape(shp)
        v = v if rng.random() < 0.5 else -v
    return v


class Buffers:
    """arrays a caller keeps and refills: the same object, at the same address, with other numbers"""

    def __init__(self):
        self.own = {}

    def put(self, a):
        a = np.asarray(a, dtype=float)
        b = self.own.setdefault(a.shape, np.empty(a.shape))
        b[...] = a
        return b


LAYOUTS = ["C", "F", "A", "R", "CR", "FR"]


def layout(a, kind):
    """same numbers, other memory layout.  A: strided, R: negative strides; trailing R on C/F: read-only"""
    a = np.asarray(a)
    if kind == "C":
        return np.ascontiguousarray(a).copy()
    if kind == "F":
        return np.asfortranarray(a).copy(order="F")
    if kind == "A":
        big = np.full(tuple(2 * s + 1 for s in a.shape), np.nan, dtype=a.dtype)
        v = big[tuple(slice(1, 1 + 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v
    if kind == "R":
        return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    if kind in ("CR", "FR"):
        v = layout(a, kind[0])
        v.flags.writeable = False
        return v
    raise ValueError(kind)


def one_cell(rng, k, grid, N, where="in"):
    """N points inside one cell (where='out': some coordinates beyond the bounds next to an end cell) and the
    slices of the data (nodes, or coefficients for k=3) that belong to it"""
    sl, cols = [], []
    out = rng.integers(len(grid)) if where == "out" else -1
    for c, g in enumerate(grid):
        z = ref.nodes1d(g).astype(float)
        n = len(z)
        j = int(rng.integers(n - 1))
        u = rng.uniform(0.03, 0.97, N)
        if c == out or (where == "out" and rng.random() < 0.3):
            up = rng.random() < 0.5
            j = n - 2 if up else 0
            u = 1 + rng.uniform(0.05, 3, N) if up else -rng.uniform(0.05, 3, N)
        cols.append(z[j] + u * (z[j + 1] - z[j]))
        sl.append(slice(j, j + (2 if k == 1 else 4)))
    return np.stack(cols, -1), tuple(sl)


def spoil(rng, V, sl):
    """(V with unusable numbers outside of the slices, V with zeros there)"""
    bad = np.full(V.shape, float(rng.choice([np.nan, np.inf, 1e300])))
    if rng.random() < 0.3:
        bad = rng.choice([np.nan, -np.inf, 1e305, -1e300], size=V.shape)
    zero = np.zeros(V.shape)
    bad[sl] = V[sl]
    zero[sl] = V[sl]
    return bad, zero
