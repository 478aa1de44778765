"""Reference Smolyak construction (levels, nodes, Chebyshev products), independent of the code under test."""
import itertools
import numpy as np


def levels(d, mu):
    m = [mu] * d if isinstance(mu, int) else [int(x) for x in mu]
    M = max(m)
    return [l for l in itertools.product(*[range(1, x + 2) for x in m]) if sum(l) <= d + M]


def new_nodes(i):
    if i == 1:
        return [0.0]
    if i == 2:
        return [-1.0, 1.0]
    n = 2 ** (i - 1)
    return [-np.cos(np.pi * j / n) for j in range(1, n, 2)]


def new_degrees(i):
    if i == 1:
        return [0]
    if i == 2:
        return [1, 2]
    return list(range(2 ** (i - 2) + 1, 2 ** (i - 1) + 1))


def count(d, mu):
    return sum(int(np.prod([len(new_nodes(i)) for i in l])) for l in levels(d, mu))


def points(d, mu):
    return np.array([p for l in levels(d, mu) for p in itertools.product(*[new_nodes(i) for i in l])])


def degrees(d, mu):
    return np.array([p for l in levels(d, mu) for p in itertools.product(*[new_degrees(i) for i in l])])


def cheb(x, n):
    """T_0..T_n and derivatives at x (any real), arrays (n+1, len(x))"""
    T, D = np.zeros((n + 1, len(x))), np.zeros((n + 1, len(x)))
    T[0] = 1
    if n >= 1:
        T[1], D[1] = x, 1
    for k in range(2, n + 1):
        T[k] = 2 * x * T[k - 1] - T[k - 2]
        D[k] = 2 * T[k - 1] + 2 * x * D[k - 1] - D[k - 2]
    return T, D


def basis(deg, X):
    """values (N, npoly) and gradients (N, npoly, d) of the Chebyshev products at cube points X (N, d)"""
    d = X.shape[1]
    TD = [cheb(X[:, i], int(deg.max())) for i in range(d)]
    V = np.ones((len(X), len(deg)))
    for i in range(d):
        V = V * TD[i][0][deg[:, i]].T
    G = np.ones((len(X), len(deg), d))
    for j in range(d):
        for i in range(d):
            G[:, :, j] *= TD[i][1 if i == j else 0][deg[:, i]].T
    return V, G


def match_rows(A, B, tol=1e-9):
    """permutation p with A[p] == B rowwise, or None (rows of B distinct)"""
    if A.shape != B.shape:
        return None
    key = lambda M: [tuple(r) for r in np.round(M / (tol * 1e2)).astype(np.int64)]
    from scipy.spatial import cKDTree
    dist, idx = cKDTree(A).query(B)
    if dist.max(initial=0) > tol * np.sqrt(A.shape[1]) * 10 or len(set(idx.tolist())) != len(idx):
        return None
    return idx


def configs(rng, tier, limit):
    """(d, mu) pairs: isotropic systematically, anisotropic at random"""
    iso = [(d, m) for d in range(2, 11) for m in range(1, 7) if count_fast(d, m) <= limit]
    an = []
    for _ in range(4000):
        d = int(rng.integers(2, 6))
        mu = [int(x) for x in rng.integers(1, 5 if d < 4 else 4, d)]
        if len(set(mu)) > 1 and (d, mu) not in an and count(d, mu) <= limit:
            an.append((d, mu))
        if len(an) >= (40 if tier == "quick" else 200):
            break
    return iso, an


def count_fast(d, mu):
    # generating function of the number of new nodes per level
    c = [1, 2] + [2 ** (i - 2) for i in range(3, mu + 2)]
    p = np.array([1.0])
    for _ in range(d):
        p = np.convolve(p, c[:mu + 1])[:mu + 1]
    return p.sum()
