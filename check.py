#!/usr/bin/env python3
"""python3 check.py <property> [--json]   decide one property on /repo's working tree"""
import json
import os
import sys
import time

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import build  # noqa: E402
from sa.decide import Context, HELD, BROKEN, OPEN  # noqa: E402
from sa import obligations  # noqa: E402

EVID = os.path.join(build.VERIF, "evidence")


def known_findings(prop):
    p = os.path.join(build.VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Context(tier)
    results = obligations.decide(ctx, prop)
    known = known_findings(prop)
    held = [r for r in results if r.status == HELD]
    broken = [r for r in results if r.status == BROKEN]
    undecided = [r for r in results if r.status == OPEN]
    quiet = []
    for r in list(broken):
        left = []
        for t in r.detail:
            k = next((k for k in known if k in t), None)
            if k:
                quiet.append(k)
            else:
                left.append(t)
        r.detail = left
        if not left:
            broken.remove(r)
    os.makedirs(EVID, exist_ok=True)
    tot = {}
    for r in results:
        for k, v in r.stats.items():
            if isinstance(v, int):
                tot[k] = tot.get(k, 0) + v
    cov = {
        "explanation": obligations.EXPLAIN[prop],
        "obligations": len(results),
        "discharged": len(held),
        "undecided": [r.d() for r in undecided],
        "analysed": {"counts": tot, "subjects": sorted({r.name for r in results})},
        "rule": "every obligation is decided from the compiler's intermediate representation of /repo's working tree; nothing is executed",
        "samples": [r.d() for r in (broken or held)[:3]],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": obligations.ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(len(r.detail) for r in broken),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in sorted(set(quiet)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if broken:
        rp = os.path.join(EVID, prop + ".violation.txt")
        with open(rp, "w") as fh:
            for r in broken:
                for t in r.detail:
                    fh.write("[%s] %s\n\n" % (r.kind, t))
        for r in broken:
            for t in r.detail[:4]:
                print("[%s] %s" % (r.kind, t[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    for r in undecided:
        print("undecided: %s: %s" % (r.name, "; ".join(r.detail)[:300]))
    print("%s: %d of %d obligations hold, %d undecided, %.1f s" % (prop, len(held), len(results), len(undecided), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
