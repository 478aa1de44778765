"""Monitor: the object through which a workload talks to the code under test.

`do` performs an observed call (an event), `close`/`same`/`true` are oracle evaluations, `fail` records
a violation with its witness.  Coverage keys say *what* was observed, not how often something ran."""
import hashlib, os, sys, traceback
import numpy as np


class ApiFailed(Exception):
    pass


def short(x, n=6):
    if isinstance(x, np.ndarray):
        if x.size <= n:
            return "array(%s)" % np.array2string(np.asarray(x), threshold=10, precision=17, separator=",").replace("\n", "")
        return "array<%s%s %s>" % (x.dtype, list(x.shape), digest(x)[:8])
    if isinstance(x, tuple):
        return "(" + ", ".join(short(e, n) for e in x) + ",)"
    if isinstance(x, list):
        return "[" + ", ".join(short(e, n) for e in x[:8]) + "]"
    r = repr(x)
    return r if len(r) < 160 else r[:157] + "..."


def digest(x):
    h = hashlib.sha1()

    def add(x):
        if isinstance(x, np.ndarray):
            h.update(str((x.dtype.str, x.shape)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (tuple, list)):
            h.update(("%s%d" % (type(x).__name__, len(x))).encode())
            for e in x:
                add(e)
        elif isinstance(x, dict):
            for k in sorted(x):
                h.update(str(k).encode())
                add(x[k])
        elif isinstance(x, float):
            h.update(np.float64(x).tobytes())
        else:
            h.update(repr(x).encode())

    add(x)
    return h.hexdigest()


def flat(x, cap=600):
    """numbers of a nested result, for comparison up to rounding"""
    out = []

    def add(x):
        if isinstance(x, (list, tuple)):
            for e in x:
                add(e)
        else:
            out.extend(np.asarray(x, dtype=float).ravel().tolist()[:cap])

    add(x)
    return out


def agree(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if len(a) != len(b):
        return False
    a, b = np.array(a), np.array(b)
    return bool(np.all(np.abs(a - b) <= 1e-8 * (1e-6 + np.abs(a).max(initial=0))))


class Monitor:
    def __init__(self, spec):
        self.spec = spec
        self.evaluations = 0
        self.keys = {}
        self.notes = {}
        self.samples = []
        self.violations = []
        self.logs = {}
        self.current = ""
        self.nviol = 0
        p = os.environ.get("VERIF_PROGRESS")
        self.fd = os.open(p, os.O_RDWR) if p else None

    def rng(self, *extra):
        s = hashlib.sha256(repr((self.spec["seed"], self.spec["name"]) + extra).encode()).digest()
        return np.random.default_rng(int.from_bytes(s[:8], "little"))

    # -- observation ---------------------------------------------------------------------------
    def step(self, what):
        self.current = what
        if self.fd is not None:
            b = what.encode()[:2000]
            os.pwrite(self.fd, b + b"\0" * (2000 - len(b)), 0)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def do(self, label, fn, *args, **kw):
        """one observed call of the API under test"""
        self.step("%s(%s%s)" % (label, ", ".join(short(x) for x in args),
                                "".join(", %s=%s" % (k, short(v)) for k, v in kw.items())))
        self.note("calls")
        try:
            return fn(*args, **kw)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            msg = str(e).strip()
            self.fail("%s raises %s" % (label, type(e).__name__), "%s\n%s: %s" % (
                self.current, type(e).__name__, msg[-900:]))
            raise ApiFailed(label)

    def expect_raise(self, label, fn, *args, key=None, exc=Exception, **kw):
        self.step("%s(%s) expecting rejection" % (label, ", ".join(short(x) for x in args)))
        self.note("calls")
        self.evaluations += 1
        self.cover(key or label + " rejects")
        try:
            r = fn(*args, **kw)
        except exc:
            return True
        except Exception as e:
            self.fail("%s rejected with %s" % (label, type(e).__name__), self.current)
            return False
        self.fail("%s accepts invalid input" % label, "%s returned %s" % (self.current, short(r)))
        return False

    def cover(self, key):
        if key is not None:
            self.keys[str(key)] = self.keys.get(str(key), 0) + 1

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: short(v) if isinstance(v, (np.ndarray, tuple, list)) else v
                                 for k, v in kw.items()})

    # -- verdicts ------------------------------------------------------------------------------
    def fail(self, sig, detail):
        self.nviol += 1
        if len(self.violations) < 6:
            self.violations.append(dict(kind="oracle", sig=sig, detail=detail))

    def true(self, sig, cond, detail="", key=None):
        self.evaluations += 1
        self.cover(key or sig)
        if not cond:
            self.fail(sig, "%s\n%s" % (self.current, detail))
        return bool(cond)

    def close(self, sig, got, want, tol, key=None, ctx=None, shape=True, alts=()):
        """|got-want| <= tol elementwise (or <= tol from one of the alternatives `alts`)"""
        want = np.asarray(want, dtype=float)
        self.evaluations += max(1, want.size)
        self.cover(key or sig)
        try:
            g = np.asarray(got, dtype=float)
        except Exception:
            self.fail(sig + " (type)", "%s\nresult %s is not numeric" % (self.current, short(got)))
            return False
        if g.shape != want.shape:
            if shape or g.size != want.size:
                self.fail(sig + " (shape)", "%s\nshape %s, expected %s" % (self.current, g.shape, want.shape))
                return False
            g = g.reshape(want.shape)
        with np.errstate(all="ignore"):
            bad = ~(np.abs(g - want) <= tol)
            for alt in alts:
                if not bad.any():
                    break
                bad &= ~(np.abs(g - np.asarray(alt, dtype=float)) <= tol)
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            t = np.broadcast_to(np.asarray(tol), want.shape)
            self.fail(sig, "%s\nat index %s: got %.17g expected %.17g tolerance %.3g (%d of %d wrong)%s" % (
                self.current, i, float(g[i]), float(want[i]), float(t[i]), int(bad.sum()), want.size,
                "\n" + ctx(i) if ctx else ""))
            return False
        return True

    def same(self, sig, a, b, key=None, detail=""):
        """bitwise equality"""
        self.evaluations += 1
        self.cover(key or sig)
        if digest(a) != digest(b):
            self.fail(sig, "%s\n%s vs %s %s" % (self.current, short(a), short(b), detail))
            return False
        return True

    def log(self, key, value, exact=True):
        """record a result under its call key; the offline checker compares all records of one key,
        over the whole history of this process and over all processes"""
        self.evaluations += 1
        rec = digest(value) if exact else flat(value)
        old = self.logs.setdefault(key, rec)
        if old is not rec and not agree(old, rec):
            self.fail("result depends on the history", "%s\n%s: earlier in this process %s, now %s (%s)" % (
                self.current, key, short(old, 8), short(rec, 8), short(value)))
            return False
        return True

    def result(self):
        return dict(evaluations=self.evaluations, keys=self.keys, notes=self.notes, samples=self.samples,
                    violations=self.violations, logs=self.logs)
