"""Executable reference models (oracles).  Nothing here imports the code under test.

A one-dimensional grid is either a tuple (a, b, n) or a strictly increasing array.  All interpolants
are linear in the data, so a model is a weight matrix W (points x data) per dimension; the d-dimensional
model is the tensor product."""
import numpy as np

L = np.longdouble
EPS = np.finfo(float).eps


def nodes1d(g):
    if isinstance(g, tuple):
        a, b, n = g
        n = int(n)
        i = np.arange(n).astype(L)
        x = L(a) + (L(b) - L(a)) * i / (n - 1)
        x[-1] = L(b)
        return x
    return np.asarray(g).astype(L)


def bounds(g):
    return (float(g[0]), float(g[1])) if isinstance(g, tuple) else (float(g[0]), float(g[-1]))


def size(g):
    return int(g[2]) if isinstance(g, tuple) else len(g)


def local_step(g, x):
    z = nodes1d(g)
    i = np.clip(np.searchsorted(z, np.asarray(x).astype(L), side="right") - 1, 0, len(z) - 2)
    return (z[i + 1] - z[i]).astype(float)


def rel_du(g, x):
    """rounding uncertainty of the local coordinate, in units of a step"""
    a, b = bounds(g)
    h = local_step(g, x)
    z = nodes1d(g)
    return EPS * (max(abs(a), abs(b)) + np.abs(x)) / np.minimum(h, float(np.min(np.diff(z)))) + EPS * len(z)


def project(g, x):
    a, b = bounds(g)
    return np.clip(x, a, b)


def outside(g, x):
    a, b = bounds(g)
    return (x < a) | (x > b)


def lin_weights(g, x, nu=0, side="right"):
    """piecewise linear, linear continuation outside; returns (W, stencil indicator)"""
    z = nodes1d(g)
    x = np.asarray(x, dtype=float)
    X = x.astype(L)
    n = len(z)
    i = np.clip(np.searchsorted(z, X, side="right" if side == "right" else "left") - 1, 0, n - 2)
    h = z[i + 1] - z[i]
    W = np.zeros((len(X), n), dtype=L)
    A = np.zeros((len(X), n))
    r = np.arange(len(X))
    if nu == 0:
        lam = (X - z[i]) / h
        W[r, i] = 1 - lam
        W[r, i + 1] = lam
        A[r, i] = 1
        A[r, i + 1] = 1
        # neighbours that rounding of the cell index may bring in with a tiny weight
        l, e = lam.astype(float), np.maximum(1e-9, 64 * rel_du(g, x))
        A[r, np.maximum(i - 1, 0)] = np.maximum(A[r, np.maximum(i - 1, 0)], np.abs(l) <= e)
        A[r, np.minimum(i + 2, n - 1)] = np.maximum(A[r, np.minimum(i + 2, n - 1)], np.abs(l - 1) <= e)
    elif nu == 1:
        W[r, i] = -1 / h
        W[r, i + 1] = 1 / h
        A[r, i] = 1 / h
        A[r, i + 1] = 1 / h
    return W, A


def near_node(g, x, k=64):
    """points so close to a node that rounding decides the cell"""
    z = nodes1d(g)
    X = np.asarray(x, dtype=float).astype(L)
    d = np.abs(X[:, None] - z[None, :]).min(axis=1)
    return (d <= k * rel_du(g, x) * local_step(g, x)) | (d == 0)


def b3(t):
    t = np.abs(t)
    return np.where(t < 1, L(2) / 3 - t * t + t * t * t / 2, np.where(t < 2, (2 - t) ** 3 / 6, 0 * t))


def db3(t):
    s = np.sign(t)
    t = np.abs(t)
    return s * np.where(t < 1, -2 * t + 3 * t * t / 2, np.where(t < 2, -((2 - t) ** 2) / 2, 0 * t))


def d2b3(t):
    t = np.abs(t)
    return np.where(t < 1, -2 + 3 * t, np.where(t < 2, 2 - t, 0 * t))


def cub_weights(g, x, nu=0):
    """uniform cubic B-spline on n nodes (n+2 coefficients), linear continuation outside"""
    a, b, n = g
    n = int(n)
    X = np.asarray(x, dtype=float).astype(L)
    h = (L(b) - L(a)) / (n - 1)
    u = (X - L(a)) / h
    uc = np.clip(u, 0, n - 1)
    j = np.arange(n + 2).astype(L) - 1
    T = uc[:, None] - j[None, :]
    out = ((u < 0) | (u > n - 1))[:, None]
    if nu == 0:
        W = b3(T) + (u - uc)[:, None] * db3(T)
        A = (b3(T) > 0).astype(float)
    elif nu == 1:
        W = db3(T) / h
        A = (b3(T) > 0).astype(float) / float(h)
    elif nu == 2:
        W = np.where(out, 0, d2b3(T)) / (h * h)
        A = (b3(T) > 0).astype(float) / float(h) ** 2
    # neighbours that rounding of the cell index may bring in with a tiny weight
    A = np.maximum(A, (np.abs(T.astype(float)) <= 2.0 + 1e-6).astype(float) * A.max() if A.size else A)
    return W, A


def weights(k, g, x, nu=0, side="right"):
    return lin_weights(g, x, nu, side) if k == 1 else cub_weights(g, x, nu)


def contract(Ws, C):
    """sum over all tensor indices; C has len(Ws) leading dims (+ optional trailing dim)"""
    d = len(Ws)
    C = np.asarray(C, dtype=float)
    N = Ws[0].shape[0]
    R = np.tensordot(np.asarray(Ws[0], dtype=float), C, axes=(1, 0))  # N, n2.., nx
    for W in Ws[1:]:
        R = np.einsum("ij,ij...->i...", np.asarray(W, dtype=float), R)
    return R


def evaluate(k, grid, C, pts, nu=None, mode="linear", side="right"):
    """returns (value, scale) where scale bounds the magnitude of what is summed (for tolerances)"""
    pts = np.asarray(pts, dtype=float)
    d = len(grid)
    nu = nu or (0,) * d
    sides = side if isinstance(side, (tuple, list)) else (side,) * d
    Ws, As = [], []
    amp = np.full(len(pts), 1e-10)
    zero = np.zeros(len(pts), dtype=bool)
    for i, g in enumerate(grid):
        x = pts[:, i]
        if mode == "nearest":
            x = project(g, x)
        elif mode == "constant":
            zero |= outside(g, x)
        W, A = weights(k, g, x, nu[i], sides[i])
        Ws.append(W)
        As.append(np.abs(W).astype(float) + A)
        amp = amp + 64 * rel_du(g, x)
    val = contract(Ws, C)
    sc = contract(As, np.abs(np.asarray(C, dtype=float)))
    shp = (len(pts),) + (1,) * (val.ndim - 1)
    tol = sc * amp.reshape(shp) + 1e-300
    if zero.any():
        val[zero] = 0.0
        tol[zero] = 0.0
    return val, tol


def natural_matrix(n):
    """maps node values (n) to the n+2 coefficients of the natural cubic spline"""
    A = np.zeros((n + 2, n + 2))
    A[0, :3] = [1, -2, 1]
    A[-1, -3:] = [1, -2, 1]
    for i in range(n):
        A[i + 1, i:i + 3] = [1 / 6, 4 / 6, 1 / 6]
    return np.linalg.inv(A)[:, 1:-1]


def prefilter(shape, V):
    C = np.asarray(V, dtype=float)
    for i, n in enumerate(shape):
        C = np.moveaxis(np.tensordot(natural_matrix(n), C, axes=(1, i)), 0, i)
    return C
