"""C09: inputs are never modified, outputs are completely and only written, allocated results are fresh."""
import numpy as np
from mon import gen
from mon.core import ApiFailed, digest
from mon.guard import Canary
from mon.ops import FAMILIES, ops

RULE = ("one case = one watched call: digests of every input (including the surrounding buffer it is a view of) before/after, sentinels around and "
        "different fills inside the output, storage overlap of results with inputs and earlier results; key = (op, input placement, output fill/placement). "
        "Non-trivial: every op of the catalogue (all public parts) with random data.")
ASSUMPTIONS = ["prefilter(k=1) hands its argument back (documented in the code) and is exempt from the freshness clause"]
REQUIRED = ["eval_linear", "eval_cubic", "spline", "diff", "filter_cubic", "gradient", "interp", "Hermite", "complete_polynomial", "CompletePolynomial", "SmolyakGrid",
            "SmolyakInterp", "cartesian", "nodes", "linSpline", "cubSpline", "multilinear_interpolation", "out nan", "strided", "fresh"]


def tasks(tier, seed):
    q = tier == "quick"
    return [dict(name="pure-%s-%d" % (f, i), fam=f, reps=4 if q else 30, cost=5 if f in ("legacy", "objcub") else 3 if "3" in f or "cub" in f else 1, i=i) for f in FAMILIES for i in range(1 if q else 2)]


def arrays_of(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for e in x:
            yield from arrays_of(e)


def near(a, b):
    """equal up to rounding, structure included"""
    A, B = list(arrays_of(a)), list(arrays_of(b))
    if not A and not B:
        return a == b or (isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-300) or (
            np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12))
    return len(A) == len(B) and all(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9 * (1e-300 + np.abs(x).max(initial=0)), equal_nan=True) for x, y in zip(A, B))


def embed(rng, a, how):
    """the array as a view in the middle of a larger buffer; returns (view, buffer)"""
    if how == "tight" or a.ndim == 0:
        b = a.copy()
        return b, b
    n = a.size
    fill = 7 if a.dtype.kind == "i" else 1234.5
    buf = np.full(n + 32, fill, dtype=a.dtype)
    v = buf[16:16 + n].reshape(a.shape)
    v[...] = a
    return v, buf


def run(spec, mon):
    rng = mon.rng()
    keep = []  # earlier results: must stay as they were
    base = ops(spec["fam"], rng)
    for rep in range(spec["reps"]):
        L = base if rep == 0 else ops(spec["fam"], rng, rep)
        for op in L:
            nm = op["name"]
            how = ["tight", "embedded"][rep % 2]
            pairs = [embed(rng, a, how) for a in op["arrays"]]
            ins, bufs = [p[0] for p in pairs], [p[1] for p in pairs]
            before = [digest(b) for b in bufs]

            def unchanged(what):
                for i, b in enumerate(bufs):
                    mon.true("inputs unchanged by %s" % nm.split(" ")[0], digest(b) == before[i],
                             "%s: input %d was modified (%s)" % (nm, i, what), key="input|%s|%s" % (nm, how))

            try:
                if "outs" not in op:
                    res = mon.do(nm, op["call"], ins)
                    unchanged("allocating call")
                    R = list(arrays_of(res))
                    if not op.get("alias"):
                        for x in R:
                            for i, b in enumerate(bufs):
                                mon.true("fresh result of %s" % nm.split(" ")[0], not np.shares_memory(x, b), "%s returns storage of input %d" % (nm, i), key="fresh|%s" % nm)
                            for (n2, y, _) in keep[-6:]:
                                mon.true("fresh result of %s" % nm.split(" ")[0], not np.shares_memory(x, y), "%s returns storage of an earlier result of %s" % (nm, n2), key="fresh earlier|%s" % nm)
                    d0 = digest(res)
                    res2 = mon.do(nm + " again", op["call"], ins)
                    unchanged("second call")
                    mon.true("a later call leaves earlier results of %s alone" % nm.split(" ")[0], digest(res) == d0, "%s: the first result changed" % nm, key="stable|%s" % nm)
                    for x, y in zip(R, arrays_of(res2)):
                        if not op.get("alias") and x.size:
                            mon.true("fresh result of %s" % nm.split(" ")[0], not np.shares_memory(x, y), "%s returns the same storage twice" % nm, key="fresh twice|%s" % nm)
                    # writing into a result must not reach the inputs or later results
                    if not op.get("alias"):
                        for x in R:
                            if x.flags.writeable:
                                x[...] = 9 if x.dtype.kind in "iu" else np.nan
                        unchanged("write into the result")
                        res3 = mon.do(nm + " after clobbering the first result", op["call"], ins)
                        mon.true("results of %s do not share state" % nm.split(" ")[0], near(res2, res3), "%s: %s vs %s" % (nm, res2, res3), key="noshare|%s" % nm)
                    keep += [(nm, x, digest(x)) for x in arrays_of(res2) if x.size]
                else:
                    want = mon.do(nm + " (allocating)", op["alloc"], ins)
                    want = list(arrays_of(want))
                    unchanged("allocating call")
                    for fill, kind in ((np.nan, "C"), (1e300, "C"), (0.0, "C")) if rep % 2 == 0 or "gradient" in nm else ((np.nan, "A"), (-5.0, "A")):
                        cans = [Canary(s, kind, fill) for s in op["outs"]]
                        mon.do(nm, op["call"], ins, [c.out for c in cans])
                        unchanged("in-place call")
                        for c, w in zip(cans, want):
                            tol = 1e-9 * np.abs(w).max(initial=0) + 1e-300
                            mon.close("in-place result of %s" % nm.split(" ")[0], c.out, w, tol, key="out %s%s|%s" % (fill, " strided" if kind == "A" else "", nm))
                            mon.true("nothing written outside the output of %s" % nm.split(" ")[0], c.intact(), "%s wrote outside its output array" % nm, key="canary %s|%s" % (kind, nm))
            except ApiFailed:
                continue
            mon.sample(op=nm, placement=how, inputs=[list(a.shape) for a in ins])
        if len(keep) > 60:
            keep = keep[-60:]
    for nm, x, dg in keep:
        mon.true("earlier results unchanged at the end", digest(x) == dg, "result of %s changed later" % nm, key="end|%s" % nm)
