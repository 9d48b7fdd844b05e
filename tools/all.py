"""Decide every claimed property in one process: python3 tools/all.py [ids...]  (SA_REPO, SA_BUILD select another tree)"""
import os, sys, time
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import obligations as O
from sa.decide import Context, BROKEN, OPEN
import json
from sa import build
ids = sys.argv[1:] or [c["property"] for c in json.load(open(os.path.join(build.VERIF, "MANIFEST.json")))["checks"]]
skip = set(os.environ.get("SKIP", "").split())
ctx = Context("quick")
W = int(os.environ.get("W", "300"))
seen = set()
for i in ids:
    if i in skip:
        continue
    rs = O.decide(ctx, i)
    b = [r for r in rs if r.status == BROKEN]
    o = [r for r in rs if r.status == OPEN]
    if b or o:
        print(i, "VIOLATED" if b else "quiet", "undecided=%d" % len(o) if o else "")
        for r in b + o:
            for t in r.detail[:3]:
                if t not in seen:
                    seen.add(t)
                    print("   ", "[" + r.status[0] + "]", r.name[:60], "|", t[:W].replace("\n", "\n        "))
