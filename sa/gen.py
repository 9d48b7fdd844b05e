"""Write the tables of the current tree: python3 -m sa.gen [area...]  (authoring only)"""
import os
import sys

sys.setrecursionlimit(20000)
from . import facts as F, build, spec as S
from .contracts import evaluate, panic_rows, accepted_panic
from .roots import ROOTS

if __name__ == "__main__":
    areas = sys.argv[1:]
    fc = F.Facts(build.repo_facts(None))
    fm = F.Facts(build.models())
    by = {}
    for r in ROOTS:
        if areas and r["area"] not in areas:
            continue
        try:
            ev = evaluate(fc, fm, r)
        except Exception as e:
            print("FAIL", r["fn"], repr(e)[:300])
            continue
        t = S.render(r["fn"], ev.rows, ev.n)
        by.setdefault(r["area"], []).append(t)
        for p in panic_rows(ev):
            if accepted_panic(r, p) is None:
                print("PANIC", r["fn"][:80], p[:220])
    d = os.path.join(build.VERIF, "specs")
    os.makedirs(d, exist_ok=True)
    for a, ts in by.items():
        with open(os.path.join(d, a + ".spec"), "w") as fh:
            fh.write("\n".join(ts))
