"""python3 tools/bugtable.py SWEEP.txt: rewrite the table of planted bugs in DESIGN.md (authoring aid)"""
import glob, json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for line in open(sys.argv[1], encoding="utf-8"):
    m = re.match(r"BUG (\S+) (\S+) (\S+) (.*)", line)
    if m:
        caught[m[1]] = [x for x in m[4].split() if re.fullmatch(r"C\d\d", x)]
rows = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f, encoding="utf-8"))
    c = caught.get(i, [])
    if m["property"] == "C34":
        c = ["C34"] + c  # the sweep leaves the witness crate out
    own = [x for x in c if x == m["property"]]
    rest = [x for x in c if x != m["property"]]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), " ".join("**%s**" % x for x in own) + (" " + " ".join(rest) if rest else "") or "-"))
p = V + "/DESIGN.md"
s = open(p, encoding="utf-8").read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda m: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open(p, "w", encoding="utf-8").write(s)
