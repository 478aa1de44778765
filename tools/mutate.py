"""Mutation sweep (development tool, not part of any check): plants small random changes one at a time in scratch
copies of the package and reports those no monitor notices.  The survivors are read by hand: equivalent change or gap.

python tools/mutate.py FILE N SEED C01,C06,...  [--jobs 4]     FILE relative to /repo/interpolation
"""
import ast, io, os, random, re, shutil, subprocess, sys, tokenize, tempfile

SWAP = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"], "*": ["+"],
        "/": ["*"], "//": ["/"], "+=": ["-="], "-=": ["+="], "/=": ["*="], "*=": ["/="]}
WORD = {"min": "max", "max": "min", "and": "or", "or": "and", "True": "False", "False": "True", "break": "continue",
        "continue": "break", "not": "", "zeros": "ones", "floor": "ceil", "cumprod": "cumsum", "lb": "ub", "ub": "lb",
        "smin": "smax", "smax": "smin", "ravel": "copy", "reverse": "sort", "ascontiguousarray": "asfortranarray"}
TEXT = re.compile(r"(?<![\w.])(\d+)(?![\w.])|(<=|>=|==|!=|<|>|\+|-|\*|/)(?=[\s\w(.{])|\b(min|max|and|or|not|floor|zeros)\b|(\d+\.\d+)")


def sites(src, templates):
    "list of (start offset, end offset, replacement)"
    out = []
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))
    pos = lambda p: off[p[0] - 1] + p[1]
    tree = ast.parse(src)
    doc = set()
    main = 10 ** 9
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            doc.add((n.body[0].lineno, n.body[0].col_offset))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, "id", "") == "__name__":
            main = min(main, n.lineno)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert)) and n.lineno == n.end_lineno and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            # byte offsets: only ascii lines
            if lines[n.lineno - 1].isascii():
                out.append((n.lineno, off[n.lineno - 1] + n.col_offset, off[n.lineno - 1] + n.end_col_offset, "pass"))
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        a, b, ln = pos(t.start), pos(t.end), t.start[0]
        if t.type == tokenize.OP:
            for r in SWAP.get(t.string, []):
                out.append((ln, a, b, r))
        elif t.type == tokenize.NUMBER and re.fullmatch(r"\d+", t.string):
            out += [(ln, a, b, str(int(t.string) + 1))] + ([(ln, a, b, str(int(t.string) - 1))] if int(t.string) else [])
        elif t.type == tokenize.NUMBER:
            out.append((ln, a, b, str(float(t.string) + 1)))
        elif t.type == tokenize.NAME and t.string in WORD:
            out.append((ln, a, b, WORD[t.string]))
        elif templates and t.type in (tokenize.STRING, getattr(tokenize, "FSTRING_MIDDLE", -1)) and t.start not in doc:
            for m in TEXT.finditer(t.string):
                s = m.group(0)
                r = (str(int(s) + 1) if s.isdigit() else str(float(s) + 1) if s[0].isdigit() else WORD.get(s) if s in WORD else SWAP[s][0])
                if s == "zeros":
                    continue
                out.append((ln, a + m.start(), a + m.end(), r))
    return [s for s in out if s[0] < main]


def main():
    f, n, seed, props = sys.argv[1:5]
    jobs = sys.argv[6] if len(sys.argv) > 6 else "4"
    src = open("/repo/interpolation/" + f, encoding="utf8").read()
    S = sorted(set(sites(src, f.split("/")[-1] in ("codegen.py", "fungen.py", "mlinterp.py", "eval_splines.py", "eval_cubic.py"))))
    random.Random(int(seed)).shuffle(S)
    done = killed = 0
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for ln, a, b, r in S:
        if done >= int(n):
            break
        new = src[:a] + r + src[b:]
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        done += 1
        d = tempfile.mkdtemp(dir="/tmp/w/mu")
        try:
            subprocess.check_call(["cp", "-a", "/repo/.", d])
            open(d + "/interpolation/" + f, "w", encoding="utf8").write(new)
            res = "SURVIVED"
            for p in props.split(","):
                try:
                    x = subprocess.run(["bash", here + "/check.sh", p, "quick", "-x", "--jobs", jobs], env=dict(os.environ, VERIF_REPO=d),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired:
                    res = "timeout " + p
                    break
                if x.returncode:
                    res = "rc%d %s" % (x.returncode, p)
                    break
            killed += res != "SURVIVED"
            line = src.splitlines()[ln - 1].strip()
            l0 = src.rfind("\n", 0, a) + 1
            l1 = src.find("\n", b)
            print("%-12s %s:%d  %s  ->  %s" % (res, f, src.count("\n", 0, a) + 1, src[l0:l1].strip()[:110], (src[l0:a] + "«" + r + "»" + src[b:l1]).strip()[:120]), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    print("%s: %d mutants, %d noticed" % (f, done, killed))


if __name__ == "__main__":
    main()
