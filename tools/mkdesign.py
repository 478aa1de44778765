"""refresh the generated parts of DESIGN.md: counted cases and assumptions (from checks/*.py), table of planted bugs (from seeded/*/meta.json)"""
import importlib, json, os, re, sys
sys.path.insert(0, "/verif")
D = open("/verif/DESIGN.md").read()
for i in range(1, 40):
    p = "C%02d" % i
    if not os.path.exists("/verif/checks/%s.py" % p.lower()):
        continue
    m = importlib.import_module("checks." + p.lower())
    j = D.index("### %s " % p)
    k = re.compile(r"^##", re.M).search(D, j + 3).start()
    sec = D[j:k]
    sec = re.sub(r"\* What is counted:.*", lambda _: "* What is counted: " + m.RULE, sec)
    sec = re.sub(r"\* Assumptions:.*", lambda _: "* Assumptions: " + "; ".join(m.ASSUMPTIONS) + ".", sec)
    D = D[:j] + sec + D[k:]
# planted bugs: what was done when a check first missed one
FIRST = json.load(open("/verif/tools/first_missed.json"))
rows = ["| planted bug | property | needs | caught by | first |", "|---|---|---|---|---|"]
for s in sorted(os.listdir("/verif/seeded")):
    f = "/verif/seeded/%s/meta.json" % s
    if os.path.exists(f):
        d = json.load(open(f))
        b = FIRST.get(s)
        rows.append("| %s | %s | %s | %s | %s |" % (s, d["property"], d["needs"].replace("|", "/"), d["property"], "missed; " + b if b else "caught"))
a, e = "<!-- planted -->\n", "<!-- /planted -->\n"
D = D[:D.index(a) + len(a)] + "\n".join(rows) + "\n" + D[D.index(e):]
open("/verif/DESIGN.md", "w").write(D)
