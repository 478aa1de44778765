"""C22: the bundled template language (from which the spline evaluators are generated) against a reference renderer."""
import builtins, html as stdhtml, os, re, tempfile, threading
import numpy as np
from mon.core import ApiFailed

RULE = ("one case = one rendering of a randomly generated template compared with the text its constructs denote, one malformed template that must be rejected, or one loop position; "
        "key = (construct, context, way of calling).  Oracle: a reference renderer that walks the syntax tree the template text was generated from (it never parses the text).  "
        "Non-trivial: constructs nested up to depth 4, on lines of their own and inside lines, loops left and continued, variables carried from one construct to the next.")
ASSUMPTIONS = ["texts are str; lines end with a line feed", "blank lines beside statements are not generated (tempita drops some of them)", "expressions contain no | other than the filter bar",
               "{{def}} and {{inherit}}, which the documentation of the module does not list, are not judged"]
REQUIRED = ["render|expr", "render|filter", "render|if", "render|elif", "render|else", "render|for", "render|unpack", "render|break", "render|continue", "render|py|", "render|pyblock", "render|default",
            "render|comment", "render|looper", "unended", "inline", "own line", "nested", "delimiters", "again", "threads", "sub|", "namespace", "file|", "html|", "malformed|", "runtime error", "looper|group"]


def tasks(tier, seed):
    q = tier == "quick"
    return [dict(name="render-%d" % i, fam="render", reps=400 if q else 8000, cost=3) for i in range(2 if q else 8)] + [
        dict(name="malformed", fam="bad", reps=300 if q else 6000, cost=1), dict(name="looper", fam="looper", reps=300 if q else 6000, cost=1),
        dict(name="html", fam="html", reps=200 if q else 4000, cost=1)]


class Loop:  # reference of the loop helper
    def __init__(self, seq, i):
        self.index, self.number, self.item, self.first, self.last, self.length = i, i + 1, seq[i], i == 0, i == len(seq) - 1, len(seq)
        self.previous = seq[i - 1] if i else None
        self.following = seq[i + 1] if i + 1 < len(seq) else None
        self.odd, self.even = i % 2 == 0, i % 2 == 1


def ref_looper(seq):
    seq = list(seq)
    return [(Loop(seq, i), seq[i]) for i in range(len(seq))]


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


TEXT = ["alpha", "for x in y:", "if a < b:", "return 3", "# note", "a = [1, 2]", "{one}", "} else {", "%s %d", "\\n \\t", "λ_0 Φ μ", "$x ${y}", "100%", "'q' \"r\"", "<b>&amp;", "x | y", "endif", "a  b", "&", "py:", "0"]
EXPR = ["n", "n + 1", "s", "xs[0]", "len(xs)", "s * 2", "f(n)", "d['k']", "'%03d' % n", "(n, s)", "[i * n for i in range(3)]" if False else "[1, n]", "s.upper()", "none", "n > 2", "'a' if n else 'b'", "1.5", "u", "str(n) + s", "max(xs)",
        "g(xs, n)", "{'k': n}['k']"]
COND = ["n", "n > 2", "not n", "s == 'ab'", "xs", "n in xs", "True", "False", "n % 2 == 0 and s", "none", "len(xs) > 1 or n < 0", "d['k'] != n"]
FILT = ["f", "up", "str", "len0", "twice"]


def namespace(rng):
    n = int(rng.integers(-2, 6))
    return dict(n=n, s=str(rng.choice(["ab", "", "x y", "<&>", "λ", "{", "line1\nline2"])), xs=[int(v) for v in rng.integers(-3, 9, rng.integers(1, 5))], none=None, u="ü{{n}}",
                d={"k": int(rng.integers(0, 4))}, f=lambda v: "f(%s)" % (v,), g=lambda a, b: "%d/%s" % (len(a), b), up=lambda v: str(v).upper(), len0=lambda v: len(str(v)), twice=lambda v: "%s%s" % (v, v), t=0,
                pairs=[(int(a), str(b)) for a, b in zip(rng.integers(0, 9, 3), rng.choice(["p", "q", "r"], 3))])


class Gen:
    def __init__(self, rng, delims=("{{", "}}")):
        self.rng, self.o, self.c = rng, delims[0], delims[1]
        self.used = set()
        self.vars = []

    def pick(self, L):
        return L[int(self.rng.integers(len(L)))]

    def tag(self, s):
        if s.startswith(self.o[0]) or s.startswith("{"):
            s = " " + s
        if s.endswith("}") or s.endswith(self.c[0]):
            s = s + " "
        return self.o + s + self.c

    def text(self):
        while True:
            t = self.pick(TEXT)
            if self.o not in t and self.c not in t and t[-1] not in self.o and t[0] not in self.c:
                return t

    def expr(self):
        e = self.pick(EXPR + self.vars * 3)
        if self.rng.random() < 0.25:
            fs = [self.pick(FILT) for _ in range(int(self.rng.integers(1, 4)))]
            bar = self.pick(["|", " | ", "| "])
            self.used.add("filter")
            return dict(k="expr", src=bar.join([e] + fs), e=e, fs=fs)
        self.used.add("expr")
        return dict(k="expr", src=self.pick(["%s", " %s", "%s ", " %s "]) % e, e=e, fs=[])

    # -- structure: a block is a list of nodes ------------------------------------------------------
    def block(self, depth, inline, loop, top=False):
        L = []
        for _ in range(int(self.rng.integers(1, 5 if depth < 2 else 3))):
            r = self.rng.random()
            if r < 0.45 or depth >= 4:
                L.append(self.line(depth, inline, loop))
            else:
                L.append(self.stmt(depth, inline, loop))
        if inline or not any(x["k"] == "line" for x in L):
            L.append(self.line(depth, inline, loop))
        return L

    def line(self, depth, inline, loop):
        """text with expressions; on lines of its own when not inline"""
        parts = [dict(k="text", s=self.text())]
        for _ in range(int(self.rng.integers(0, 3))):
            r = self.rng.random()
            if r < 0.6:
                parts.append(self.expr())
            elif r < 0.7:
                self.used.add("comment")
                parts.append(dict(k="comment", s="# " + self.pick(["note", "n + 1", "if x", "a | b"])))
            elif depth < 3 and r < 0.9:
                parts.append(self.stmt(depth + 1, True, loop))
            parts.append(dict(k="text", s=self.text()))
        return dict(k="line", parts=parts, indent="" if inline else self.pick(["", "", "  ", "    ", "\t"]), trail=self.pick(["", "", "  "]), gap=self.pick([0, 0, 0, 1, 2]) if not inline else 0, tail=dict(k="text", s=self.text()))

    def stmt(self, depth, inline, loop):
        r = self.rng.random()
        self.used.add("inline" if inline else "own line")
        if depth >= 2:
            self.used.add("nested")
        if r < 0.35:
            n = int(self.rng.integers(1, 4))
            self.used.add("if")
            if n > 1:
                self.used.add("elif")
            br = [(self.pick(COND), self.pick(["", "", ":"]), self.block(depth + 1, inline, loop)) for _ in range(n)]
            els = self.block(depth + 1, inline, loop) if self.rng.random() < 0.5 else None
            if els:
                self.used.add("else")
            return dict(k="if", br=br, els=els)
        if r < 0.7:
            kind = self.pick(["one", "one", "unpack", "looper", "empty"])
            self.used.add("for")
            v = self.pick(["i", "j", "q"])
            vs, src = {"one": ([v], self.pick(["range(3)", "xs", "s", "sorted(xs)", "(n, s)", "[7]"])), "unpack": ([v, "w"], self.pick(["pairs", "enumerate(xs)", "zip(xs, s)", "[(1, 2)]"])),
                       "looper": (["loop", v], "looper(%s)" % self.pick(["xs", "s", "pairs"])), "empty": ([v], self.pick(["[]", "()", "''"]))}[kind]
            if kind in ("unpack", "looper"):
                self.used.add(kind)
            old = list(self.vars)
            self.vars += vs[1:] if kind == "looper" else vs
            if kind == "looper":
                self.vars += ["loop.number", "loop.index", "loop.first", "loop.last", "loop.length", "loop.previous", "bool(loop.odd)", "bool(loop.even)", "loop.item"]
            body = self.block(depth + 1, inline, True)
            self.vars = old
            return dict(k="for", vs=vs, sep=self.pick([", ", ","]), src=src, colon=self.pick(["", "", ":"]), body=body)
        if r < 0.78 and loop:
            k = self.pick(["break", "continue"])
            self.used.add(k)
            return dict(k="if", br=[(self.pick(COND), "", [dict(k=k)] if not inline else [dict(k="text", s="~"), dict(k=k), dict(k="text", s="!")])], els=None) if self.rng.random() < 0.85 else dict(k=k)
        if r < 0.86:
            self.used.add("py|")
            return dict(k="py", src=self.pick(["t = n + 1", "t = t + 1", "n = n - 1", "s = s + 'z'", "xs = xs + [n]", "m = t"]), sp=self.pick(["", " "]))
        if r < 0.93 and not inline:
            self.used.add("pyblock")
            return dict(k="pyblock", src=self.pick(["t = 0\nfor a_ in xs:\n    t += a_\n", "def f(v):\n    return 'g%s' % (v,)\n", "n = 1\n\nif t:\n    n = 2\n"]))
        self.used.add("default")
        return dict(k="default", var=self.pick(["n", "fresh", "s", "other", "none", "t", "xs"]), src=self.pick(["n", "'dflt'", "len(xs)", "s * 2"]), sp=self.pick(["=", " = "]))

    # -- concrete syntax ---------------------------------------------------------------------------
    def write(self, block, inline, top=False):
        out = []
        for x in block:
            k = x["k"]
            if k == "line":
                s = self.parts(x["parts"]) + self.tail(x)
                if inline:
                    out.append(s)
                else:
                    # text lines with blank lines inside the block of text
                    out.append(x["indent"] + s + x["trail"] + "\n" + ("\n" * x["gap"] + x["tail"]["s"] + "\n" if x["gap"] else ""))
            elif k == "text":
                out.append(x["s"])
            elif k == "if":
                for i, (c, col, b) in enumerate(x["br"]):
                    out.append(self.own("%s %s%s" % ("elif" if i else "if", c, col), inline))
                    out.append(self.write(b, inline))
                if x["els"] is not None:
                    out.append(self.own("else", inline))
                    out.append(self.write(x["els"], inline))
                out.append(self.own("endif", inline))
            elif k == "for":
                out.append(self.own("for %s in %s%s" % (x["sep"].join(x["vs"]), x["src"], x["colon"]), inline))
                out.append(self.write(x["body"], inline))
                out.append(self.own("endfor", inline))
            elif k in ("break", "continue"):
                out.append(self.own(k, inline))
            elif k == "py":
                out.append(self.own("py:" + x["sp"] + x["src"], inline))
            elif k == "pyblock":
                out.append(self.own("py:\n" + x["src"], inline))
            elif k == "default":
                out.append(self.own("default %s%s%s" % (x["var"], x["sp"], x["src"]), inline))
        return "".join(out)

    def tail(self, x):
        return ""

    def parts(self, parts):
        out = []
        for p in parts:
            if p["k"] == "text":
                out.append(p["s"])
            elif p["k"] in ("expr", "comment"):
                out.append(self.tag(p.get("src") or p["s"]))
            else:
                out.append(self.write([p], True))
        return "".join(out)

    def own(self, stmt, inline):
        s = self.o + stmt + self.c
        return s if inline else self.pick(["", "", "    ", "\t"]) + s + self.pick(["", "", "  "]) + "\n"


# -- reference renderer -----------------------------------------------------------------------------
def ev(src, ns):
    return eval(src, {"__builtins__": builtins, "looper": ref_looper}, ns)


def text_of(v):
    return "" if v is None else str(v)


def render(block, ns, inline, esc=lambda s, v: s):
    out = []
    try:
        _render(block, ns, inline, out, esc)
    except (Brk, Cnt):
        raise AssertionError("generator: loop statement outside of a loop")
    return "".join(out)


def _parts(parts, ns, out, esc):
    for p in parts:
        k = p["k"]
        if k == "text":
            out.append(p["s"])
        elif k == "expr":
            v = ev(p["e"], ns)
            for f in p["fs"]:
                v = ev(f, ns)(v)
            out.append(esc(text_of(v), v))
        elif k != "comment":
            _render([p], ns, True, out, esc)


def _render(block, ns, inline, out, esc):
    for x in block:
        k = x["k"]
        if k == "line":
            if not inline:
                out.append(x["indent"])
            _parts(x["parts"], ns, out, esc)
            if not inline:
                out.append(x["trail"] + "\n")
                if x["gap"]:
                    out.append("\n" * x["gap"] + x["tail"]["s"] + "\n")
        elif k == "text":
            out.append(x["s"])
        elif k == "if":
            for c, _, b in x["br"]:
                if ev(c, ns):
                    _render(b, ns, inline, out, esc)
                    break
            else:
                if x["els"] is not None:
                    _render(x["els"], ns, inline, out, esc)
        elif k == "for":
            for item in ev(x["src"], ns):
                if len(x["vs"]) == 1:
                    ns[x["vs"][0]] = item
                else:
                    a, b = item
                    ns[x["vs"][0]], ns[x["vs"][1]] = a, b
                try:
                    _render(x["body"], ns, inline, out, esc)
                except Cnt:
                    continue
                except Brk:
                    break
        elif k == "break":
            raise Brk()
        elif k == "continue":
            raise Cnt()
        elif k in ("py", "pyblock"):
            exec(x["src"], {"__builtins__": builtins}, ns)
        elif k == "default":
            if x["var"] not in ns:
                ns[x["var"]] = ev(x["src"], ns)


def copy_ns(ns):
    return {k: list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for k, v in ns.items()}


def make(rng, delims=("{{", "}}")):
    """(template text, syntax tree, constructs): the text always ends with a line of text, or with a statement"""
    g = Gen(rng, delims)
    if rng.random() < 0.25:
        tree = [g.line(0, True, False)]
        inline = True
    else:
        tree, inline = g.block(0, False, False), False
    src = g.write(tree, inline)
    if not inline and tree[-1]["k"] not in ("line", "text") and rng.random() < 0.6:
        src = src[:-1]  # a last statement without a line feed
        g.used.add("unended")
    return src, tree, inline, g.used


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "first difference at %d: ...%r instead of ...%r" % (i, a[max(0, i - 30):i + 30], b[max(0, i - 30):i + 30])
    return "lengths %d and %d: ...%r / ...%r" % (len(a), len(b), a[-40:], b[-40:])


def run(spec, mon):
    from interpolation import tempita as T
    rng = mon.rng()
    {"render": renders, "bad": malformed, "looper": loopers, "html": htmls}[spec["fam"]](spec, mon, T, rng)


def renders(spec, mon, T, rng):
    for r in range(spec["reps"]):
        delims = ("{{", "}}") if r % 5 else [("<<", ">>"), ("[%", "%]"), ("<?", "?>"), ("(*", "*)")][r // 5 % 4]
        src, tree, inline, used = make(rng, delims)
        ns = namespace(rng)
        try:
            want = render(tree, copy_ns(ns), inline)
        except (ZeroDivisionError, IndexError, ValueError, TypeError, NameError, AttributeError):
            mon.note("templates without a meaning for these variables")
            continue
        dk = {} if delims == ("{{", "}}") else dict(delimeters=delims)
        keys = ["render|" + u for u in sorted(used)] or ["render|text"]
        mon.sample(template=src[:300])

        def check(how, got):
            mon.true("rendering (%s)" % how, isinstance(got, str) and got == want, "%s\n%r\nvariables %s" % (diff(got, want) if isinstance(got, str) else type(got), src[:1500], {k: v for k, v in ns.items() if not callable(v)}), key=how + "|")
            for k in keys:
                mon.cover(k + "|" + how)
            if dk:
                mon.cover("delimiters|" + how)

        t = mon.do("Template", T.Template, src, **dk)
        check("substitute", mon.do("substitute", t.substitute, **copy_ns(ns)))
        how = r % 6
        if how == 0:
            check("again", mon.do("substitute", t.substitute, copy_ns(ns)))
            ns2 = namespace(rng)
            try:
                w2 = render(tree, copy_ns(ns2), inline)
            except (ZeroDivisionError, IndexError, ValueError, TypeError, NameError, AttributeError):
                w2 = None
            if w2 is not None:
                g2 = mon.do("substitute", t.substitute, copy_ns(ns2))
                mon.true("rendering (other variables)", g2 == w2, "%r\n%s" % (src, diff(g2, w2)), key="again|other variables")
                check("again", mon.do("substitute", t.substitute, copy_ns(ns)))
        elif how == 1:
            check("sub", mon.do("sub", T.sub, src, **dk, **copy_ns(ns)))
        elif how == 2:
            k = [v for v in sorted(ns)][r % len(ns)]
            n2 = copy_ns(ns)
            v = n2.pop(k)
            t2 = mon.do("Template", T.Template, src, namespace={k: v}, **dk)
            check("namespace", mon.do("substitute", t2.substitute, n2))
        elif how == 3 and not dk:
            with tempfile.TemporaryDirectory() as tmp:
                p = os.path.join(tmp, "t.txt")
                with open(p, "wb") as f:
                    f.write(src.encode("utf8"))
                t2 = mon.do("from_filename", T.Template.from_filename, p, encoding="utf8")
            check("file", mon.do("substitute", t2.substitute, **copy_ns(ns)))
        elif how == 4 and r % 4 == 0:
            res = []

            def work():
                try:
                    res.append(t.substitute(**copy_ns(ns)))
                except Exception as e:
                    res.append(e)
            th = [threading.Thread(target=work) for _ in range(4)]
            [x.start() for x in th]
            [x.join() for x in th]
            for g in res:
                check("threads", g)


def position(prefix, k):
    """(line, column) right after the first k characters"""
    s = prefix[:k]
    return s.count("\n") + 1, len(s) - (s.rfind("\n") + 1) + 1 if "\n" in s else len(s) + 1


BAD = [("{{if n}}x", 2, "no endif"), ("{{for i in xs}}x", 2, "no endfor"), ("{{if n}}a{{else}}b", 10 + 1, "no endif after else"), ("{{else}}", 2, "else"), ("{{elif n}}", 2, "elif"), ("{{endif}}", 2, "endif"),
       ("{{endfor}}", 2, "endfor"), ("{{continue}}", 2, "continue"), ("{{break}}", 2, "break"), ("{{if n}}{{break}}{{endif}}", 10, "break in if"), ("{{if}}x{{endif}}", 2, "if"), ("{{for}}", 2, "for"), ("{{for i xs}}{{endfor}}", 2, "no in"),
       ("{{for (i, j) in xs}}{{endfor}}", 2, "parens"), ("{{py:a=1\nb=2}}", 2, "py lines"), ("{{default n}}", 2, "default"), ("{{default a, b = 1}}", 2, "default pair"), ("{{default 1a = 1}}", 2, "default name"),
       ("{{if n}}{{for i in xs}}{{endif}}{{endfor}}", 25, "crossed"), ("{{for i in xs}}{{if i}}{{endfor}}{{endif}}", 25, "crossed"), ("{{n", 2, "open"), ("n}}", 3, "close"), ("{{n {{s}}", 6, "open twice"), ("{{n}} }}", 8, "close twice"),
       ("{{for i in xs}}{{i}}{{endfor}}{{endfor}}", 32, "endfor twice"), ("{{if n}}{{endif}}{{else}}", 19, "else after endif")]


class NoText:
    def __str__(self):
        raise ValueError("no text")


def malformed(spec, mon, T, rng):
    for r in range(spec["reps"]):
        frag, off, kind = BAD[r % len(BAD)]
        # a well-formed beginning, so that positions are not trivial
        g = Gen(rng)
        pre = "" if r < len(BAD) else g.write(g.block(1, False, False), False) + ["", "txt ", "  "][r % 3]
        src = pre + frag
        name = [None, "my.tmpl"][r % 2]
        mon.step("Template(%r) expecting TemplateError" % src[-200:])
        mon.note("calls")
        try:
            T.Template(src, name=name)
        except T.TemplateError as e:
            mon.true("malformed rejected", True, key="malformed|" + kind)
            L, C = position(src, len(pre) + off)
            msg = str(e)
            mon.true("position of the error", "line %d column %d" % (L, C) in msg, "%r\nmessage %r, expected line %d column %d" % (src, msg, L, C), key="malformed|position|" + kind)
            if name:
                mon.true("name in the error", name in msg, msg, key="malformed|name")
        except Exception as e:
            mon.fail("malformed template rejected with %s" % type(e).__name__, repr(src))
        else:
            mon.fail("malformed template accepted (%s)" % kind, repr(src))
        if r % 4 == 0:  # errors while rendering carry the position
            name = [None, "my.tmpl"][r // 4 % 2]
            bad, msg = [("{{1/0}}", "ZeroDivision"), ("{{nope}}", "nope"), ("{{if nope}}x{{endif}}", "nope"), ("{{py: nope()}}", "nope"), ("{{n | nope}}", "nope"), ("{{bad}}", "no text"), ("{{for i in nope}}x{{endfor}}", "nope")][r // 4 % 7]
            pre = "".join("txt %s\n" % g.pick(["", "{{n}}", "{{if n}}a{{else}}b{{endif}}"]) for _ in range(int(rng.integers(0, 4)))) + ["", "ab "][r % 2]
            t = mon.do("Template", T.Template, pre + bad, name=name)
            mon.step("substitute of %r" % (pre + bad))
            try:
                t.substitute(n=1, bad=NoText())
            except Exception as e:
                if name:
                    mon.true("name in the error while rendering", name in str(e), str(e), key="runtime error|name")
                L, C = position(pre + bad, len(pre) + 2)
                mon.true("position of the error while rendering", "line %d column %d" % (L, C) in str(e), "%r: %r, expected line %d column %d" % (pre + bad, str(e), L, C), key="runtime error|" + bad)
            else:
                mon.fail("error while rendering is lost", repr(pre + bad))
    for bad in ("{{nope}}", "{{if n}}"):
        mon.step("sub(%r, __name='my.tmpl')" % bad)
        try:
            T.sub(bad, __name="my.tmpl")
        except Exception as e:
            mon.true("name given to sub", "my.tmpl" in str(e), str(e), key="malformed|sub name")
        else:
            mon.fail("error is lost", bad)
    for o, c in (("{{", "}}"), ("<<", ">>"), ("[%", "%]")):
        dk = {} if o == "{{" else dict(delimeters=(o, c))
        g = mon.do("sub", T.sub, "a%sstart_braces%s b %send_braces%s" % (o, c, o, c), **dk)
        mon.true("braces by name", g == "a%s b %s" % (o, c), repr(g), key="delimiters|by name")
    t = T.Template("{{n}}")
    for a, k in (((dict(n=1),), dict(n=1)), ((dict(n=1), dict(n=2)), {}), ((3,), {})):
        mon.expect_raise("substitute", t.substitute, *a, key="malformed|arguments", exc=TypeError, **k)


def loopers(spec, mon, T, rng):
    looper = T.looper
    for r in range(spec["reps"]):
        n = int(rng.integers(0, 7))
        seq = [dict(a=int(rng.integers(0, 2)), b=i) for i in range(n)] if r % 2 else [int(v) for v in rng.integers(0, 3, n)]
        arg = [seq, tuple(seq), iter(seq)][r % 3]
        got = mon.do("looper", lambda: list(looper(arg)))
        mon.true("number of items", len(got) == n, key="looper|length")
        for i, ((loop, item), w) in enumerate(zip(got, [x[0] for x in ref_looper(seq)])):
            mon.step("looper(%r)[%d]" % (seq, i))
            mon.true("item", item == seq[i], key="looper|item")
            for a in ("index", "number", "item", "first", "last", "length", "previous", "odd", "even"):
                v, x = getattr(loop, a), getattr(w, a)
                if a in ("odd", "even", "first", "last"):
                    v = bool(v)
                mon.true("loop.%s" % a, v == x, "%r instead of %r" % (v, x), key="looper|%s|%s" % (a, "first" if i == 0 else "last" if i == n - 1 else "middle"))
            mon.true("next item", loop.__next__ == w.following, key="looper|next")
            if isinstance(seq[i], dict):
                get, f = (["a"], ["b"], [lambda v: v["a"] + v["b"] // 2])[r // 2 % 3], (lambda v: v["a"], lambda v: v["b"], lambda v: v["a"] + v["b"] // 2)[r // 2 % 3]
            else:
                get, f = [(), (".real",), (".bit_length()",)][r // 2 % 3], (lambda v: v, lambda v: v, lambda v: v.bit_length())[r // 2 % 3]
            mon.true("start of a group", bool(loop.first_group(*get)) == (i == 0 or f(seq[i]) != f(seq[i - 1])), repr(seq), key="looper|group start")
            mon.true("end of a group", bool(loop.last_group(*get)) == (i == n - 1 or f(seq[i]) != f(seq[i + 1])), repr(seq), key="looper|group end")


def esc(s, v):
    return s if isinstance(v, Raw) else stdhtml.escape(s)


class Raw(str):
    def __html__(self):
        return str(self)


def unq(s):
    """quoting of the apostrophe is optional"""
    return s.replace("&#x27;", "'").replace("&#39;", "'") if isinstance(s, str) else s


def htmls(spec, mon, T, rng):
    for r in range(spec["reps"]):
        src, tree, inline, used = make(rng)
        ns = namespace(rng)
        ns["s"] = ["<&\">", "plain", "a'b", "&amp;"][r % 4]
        ns["u"] = Raw("<b>%d</b>" % r)
        try:
            want = render(tree, copy_ns(ns), inline, esc)
        except (ZeroDivisionError, IndexError, ValueError, TypeError, NameError, AttributeError):
            continue
        t = mon.do("HTMLTemplate", T.HTMLTemplate, src)
        got = mon.do("substitute", t.substitute, **copy_ns(ns)) if r % 2 else mon.do("sub_html", T.sub_html, src, **copy_ns(ns))
        mon.true("HTML rendering", unq(got) == unq(want), "%s\n%r" % (diff(unq(got), unq(want)), src[:1500]), key="html|" + "|".join(sorted(used))[:60])
        if r % 10 == 0:
            v = ["<a & \"b\">", 7, "x"][r // 10 % 3]
            mon.true("html()", str(mon.do("sub_html", T.sub_html, "{{v}}{{v | html}}", v=v if isinstance(v, str) else str(v))) == stdhtml.escape(str(v)) + str(v), key="html|html()")
            g = mon.do("sub_html", T.sub_html, "<i {{attr(b=v, class_=2, bb=None)}}>{{url(v)}}", v=v)
            from urllib.parse import quote
            mon.true("attr, url", g == '<i b="%s" class="2">%s' % (stdhtml.escape(str(v)), quote(str(v))), repr(g), key="html|attr")
            b = mon.do("bunch", T.bunch, a=v, z=1)
            mon.true("bunch", b.a == v and b["z"] == 1 and dict(b) == dict(a=v, z=1) and repr(b) == "<bunch a=%r z=1>" % (v,) and repr(T.bunch(z=1, a=v)) == repr(b), repr(b), key="html|bunch")
            mon.expect_raise("attribute of a bunch", lambda: b.nope, key="html|bunch missing", exc=AttributeError)
            mon.true("html", str(T.html("<b>")) == "<b>" and mon.do("sub_html", T.sub_html, "{{v}}", v=T.html("<b>")) == "<b>", key="html|html object")
            b.default = 5
            mon.true("bunch default", b["nope"] == 5, key="html|bunch default")
