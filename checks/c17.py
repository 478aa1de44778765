"""C17: Smolyak interpolation against the reference Chebyshev basis."""
import itertools
import numpy as np
from mon import gen, smolref as R

RULE = ("one case = one observation of an interpolant after a random sequence of value updates (values at grid points, at random points, gradient, derivative with "
        "respect to coefficients / grid values, one of the 15 combinations of requested outputs); key = (observation, d, mu, bounds form, data kind, flags, updates).  "
        "Oracle: reference Chebyshev basis at the object's own grid points, solved by numpy; random elements of the span with analytic gradient.")
ASSUMPTIONS = ["scalar-valued data (gradients of vector data are not promised)", "points in the domain", "tolerance scaled by the condition of the basis matrix"]
REQUIRED = ["grid values|", "span|", "gradient|", "coefficients|", "data derivative|", "flags|1111", "flags|0001", "flags|0010", "flags|0100", "flags|1000", "update2", "iso", "aniso", "shared grid", "close update|0", "close update|1", "close update|2"]


def tasks(tier, seed):
    q = tier == "quick"
    rng = np.random.default_rng(seed + 17)
    iso, an = R.configs(rng, tier, 320 if q else 1200)
    allc = iso + an
    k = 16 if q else 32
    return [dict(name="interp-%d" % i, cfg=[list(c) for c in allc[i::k]], reps=5 if q else 10) for i in range(k)]


def run(spec, mon):
    import interpolation.smolyak as M
    from checks.c16 import bound_forms
    rng = mon.rng()
    buf = gen.Buffers()
    for d, mu in spec["cfg"]:
        iso = isinstance(mu, int)
        tag = "%s|d%d|mu%s" % ("iso" if iso else "aniso", d, mu)
        deg = R.degrees(d, mu)
        n = len(deg)
        forms = [f for f in bound_forms(rng, d)]
        for form, lb, ub, LB, UB in [forms[i] for i in rng.permutation(len(forms))[:spec["reps"]]]:
            sg = mon.do("SmolyakGrid", M.SmolyakGrid, d, mu if iso else (list(mu) if rng.random() < 0.5 else np.array(mu)), lb, ub)
            G = np.asarray(sg.grid, dtype=float)
            if not mon.true("number of grid points", G.shape == (n, d), "%s" % (G.shape,), key="n"):
                continue
            W = UB - LB
            cube = lambda X: (X - (LB + UB) / 2) / (W / 2)
            XG = np.clip(cube(G), -1, 1)
            VG, _ = R.basis(deg, XG)
            cond = np.linalg.cond(VG)
            # rounding of the transform matters for domains far from the origin
            amp = (1e-13 * cond + 1e-11) * (1 + 1e-2 * np.max((np.abs(LB) + np.abs(UB)) / W)) * 10
            mon.sample(d=d, mu=mu, n=n, bounds=form, cond=float(cond))
            sis = []
            for upd in range(3):
                kind = ["span", "noise", "offset", "smooth", "micro"][rng.integers(5)]
                if kind == "span":
                    c = rng.standard_normal(n) * (rng.random(n) < 0.3)
                    f = VG @ c
                elif kind == "noise":
                    f = rng.standard_normal(n)
                elif kind == "micro":
                    f = rng.standard_normal(n) * 10.0 ** rng.uniform(-60, -10)
                elif kind == "offset":
                    f = 1e5 + rng.standard_normal(n)
                else:
                    f = np.exp(XG.sum(axis=1) / d) * 10.0 ** rng.uniform(-6, 6)
                if upd == 0 or rng.random() < 0.3:
                    si = mon.do("SmolyakInterp", M.SmolyakInterp, sg, f)
                    sis.append([si, f, 0])
                    if len(sis) > 1:
                        mon.cover("shared grid|" + tag)
                else:
                    it = sis[rng.integers(len(sis))]
                    mon.do("update_theta", it[0].update_theta, f)
                    it[1], it[2] = f, it[2] + 1
            f = rng.standard_normal(n)
            mon.do("update_theta", sis[0][0].update_theta, f * 5)
            mon.do("update_theta", sis[0][0].update_theta, f)
            sis[0][1], sis[0][2] = f, sis[0][2] + 2
            for it in sis:  # updates close to, or in place of, the values the object already has
                how = rng.integers(4)
                if how == 0:
                    it[1] = it[1] * (1 + 1e-6)
                elif how == 1:
                    it[1] = it[1] * np.where(rng.random(n) < 0.5, 2.0, 1.0)
                elif how == 2:  # the caller's own array, changed in place and handed over again
                    it[1] *= 3.0
                    it[1][rng.integers(n)] += np.abs(it[1]).max()
                if how < 3:
                    mon.do("update_theta", it[0].update_theta, it[1])
                    it[2] += 1
                    mon.cover("close update|%d" % how)
            for si, f, nu in sis:
                kk = "|%s|lb=%s|update%d" % (tag, form, min(nu, 2))
                c = np.linalg.solve(VG, f)
                cs = np.abs(c).sum() + np.abs(f).max() + 1e-300
                mon.close("values at the grid points", mon.do("interpolate at the grid", si.interpolate, G), f, amp * cs, key="grid values" + kk)
                P = LB + W * rng.random((int([1, 7, 20, 4000 if n < 60 and rng.random() < 0.1 else 5][rng.integers(4)]), d))
                if rng.random() < 0.5:
                    P[0] = np.where(rng.random(d) < 0.5, LB, UB)
                if rng.random() < 0.6:
                    P = buf.put(P)
                    mon.cover("refilled points")
                V, D = R.basis(deg, cube(P))
                v = V @ c
                g = np.tensordot(D, c, (1, 0)) * (2 / W)
                gs = (np.tensordot(np.abs(D), np.abs(c), (1, 0)) + deg.max() ** 2 * cs) * (2 / W)
                if rng.random() < 0.5:  # the same array of points held other numbers a moment ago
                    mon.do("interpolate", si.interpolate, P)
                    P[...] = P[::-1].copy()
                    V, D = V[::-1], D[::-1]
                    v, g, gs = v[::-1], g[::-1], gs[::-1]
                mon.close("the interpolant", mon.do("interpolate", si.interpolate, P), v, amp * cs, key="span" + kk)
                full = mon.do("interpolate(all outputs)", si.interpolate, P, True, True, True, True)
                if not mon.true("four outputs", isinstance(full, (list, tuple)) and len(full) == 4, "%s" % type(full), key="flags|four" + kk):
                    continue
                mon.close("value output", full[0], v, amp * cs, key="value" + kk)
                mon.close("gradient in user coordinates", full[1], g, amp * gs, key="gradient" + kk)
                # linear in the coefficients: derivative with respect to theta
                th = np.asarray(si.theta, dtype=float)
                Mth = np.asarray(full[2], dtype=float)
                if mon.true("shape of the coefficient derivative", Mth.shape == (len(P), n) and th.shape == (n,), "%s %s" % (Mth.shape, th.shape), key="coefficients|shape" + kk):
                    mon.close("derivative wrt coefficients times coefficients", Mth @ th, v, amp * cs, key="coefficients|product" + kk)
                    # the same matrix whatever the data, and the columns are the basis functions
                    cm = R.match_rows(np.ascontiguousarray(VG.T), np.ascontiguousarray(np.asarray(sg.B).T), 1e-8)
                    if cm is not None and form not in ("far",):
                        mon.close("derivative wrt coefficients", Mth, V[:, cm], 1e-9 * deg.max() ** 2, key="coefficients|matrix" + kk)
                DX = np.asarray(full[3], dtype=float)
                if mon.true("shape of the data derivative", DX.shape == (len(P), n), "%s" % (DX.shape,), key="data derivative|shape" + kk):
                    f2 = rng.standard_normal(n)
                    w2 = V @ np.linalg.solve(VG, f2)
                    mon.close("derivative wrt grid values", DX @ f2, w2, amp * (np.abs(f2).sum() + np.abs(w2)) * cond ** 0.5, key="data derivative" + kk)
                # all combinations of requested outputs
                for flags in itertools.product([True, False], repeat=4):
                    if not any(flags) or (n > 150 and rng.random() < 0.6):
                        continue
                    if rng.random() < 0.5:
                        r = mon.do("interpolate%s" % (flags,), si.interpolate, P, *flags)
                    else:
                        r = mon.do("interpolate%s" % (flags,), si.interpolate, P, interp=flags[0], deriv=flags[1], deriv_th=flags[2], deriv_X=flags[3])
                    want = [np.asarray(full[i]) for i in range(4) if flags[i]]
                    if len(want) == 1:
                        r = [r]
                    fk = "flags|" + "".join(str(int(x)) for x in flags) + kk
                    if not mon.true("number of outputs", isinstance(r, (list, tuple)) and len(r) == len(want), "flags %s gave %s" % (flags, type(r)), key=fk):
                        continue
                    for a, b in zip(r, want):
                        mon.close("outputs in order for flags %s" % (flags,), a, b, 1e-9 * (1e-300 + np.abs(b).max(initial=0)), key=fk)
                # equal to a freshly built one
                fr = mon.do("SmolyakInterp", M.SmolyakInterp, sg, f.copy())
                mon.close("equal to a fresh interpolant", si.theta, np.asarray(fr.theta), 1e-9 * cs, key="fresh" + kk)
