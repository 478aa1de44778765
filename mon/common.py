"""Shared pieces of the spline workloads."""
import itertools
import numpy as np
from mon import gen, ref

NS = [2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 16, 17, 23, 33, 64, 65, 100, 129, 257, 400]


def pick_ns(rng, d, limit, cubic=False):
    """node counts, biased to small but reaching large ones, product (of n or n+2) bounded"""
    for _ in range(200):
        ns = [int(NS[rng.integers(len(NS))]) for _ in range(d)]
        if np.prod([n + (2 if cubic else 0) for n in ns], dtype=float) <= limit:
            return ns
    return [2 + int(rng.integers(2)) for _ in range(d)]


def kind_patterns(d, rng=None, cap=None):
    pats = ["".join(p) for p in itertools.product("un", repeat=d)]
    if cap and len(pats) > cap:
        keep = [pats[0], pats[-1]]
        rest = pats[1:-1]
        idx = rng.permutation(len(rest))[: cap - 2]
        pats = keep + [rest[i] for i in sorted(idx)]
    return pats


def nclass(N):
    return "0" if N == 0 else "1" if N == 1 else "few" if N < 100 else "many"


def api():
    """public entry points of the splines package"""
    from interpolation.splines import eval_linear, eval_cubic, filter_cubic, prefilter, extrap_options
    from interpolation.splines.eval_splines import eval_spline
    return eval_linear, eval_cubic, eval_spline, filter_cubic, prefilter, extrap_options


def desc(grid):
    return "x".join("u%d" % g[2] if isinstance(g, tuple) else "n%d" % len(g) for g in grid)


def ctx_points(grid, P):
    def f(i):
        r = i[0] if i else 0
        return "grid=%s point=%s" % (
            [g if isinstance(g, tuple) else (float(g[0]), float(g[-1]), "irregular", len(g)) for g in grid],
            [float(v) for v in np.atleast_2d(P)[min(r, len(np.atleast_2d(P)) - 1)]])
    return f
