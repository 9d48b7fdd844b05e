"""Call sites, call graph and effect summaries straight from the facts."""
from . import facts as F


class Site:
    __slots__ = ("fn", "path", "res", "at", "loc", "term")

    def __init__(self, fn, path, res, at, loc, term):
        self.fn, self.path, self.res, self.at, self.loc, self.term = fn, path, res, at, loc, term

    def names(self):
        return [x for x in (self.res, self.path) if x]

    def where(self):
        return "%s:%s" % (self.loc[0], self.loc[1]) if self.loc else self.fn.loc


def fnrefs(x, out):
    """every function item mentioned in an operand or rvalue"""
    if isinstance(x, dict):
        if x.get("k") == "fn" and "p" in x:
            out.append(x)
        for v in x.values():
            fnrefs(v, out)
    elif isinstance(x, list):
        for v in x:
            fnrefs(v, out)


def bodies(fn):
    yield fn.blocks
    for p in fn.promoted or ():
        if isinstance(p, dict) and "blocks" in p:
            yield p["blocks"]


def sites(fn):
    for blocks in bodies(fn):
        for b in blocks:
            if b["cl"]:
                continue
            t = b["t"]
            if t["k"] != "call":
                continue
            f = t["f"].get("k") if isinstance(t["f"], dict) else None
            if isinstance(f, dict) and f.get("k") == "fn":
                yield Site(fn, f["p"], f.get("r"), [fn.facts.ty(i) for i in t["at"]], b.get("l"), t)
            else:
                yield Site(fn, "(value)", None, [fn.facts.ty(i) for i in t["at"]], b.get("l"), t)


def mentions(fn):
    out = []
    for blocks in bodies(fn):
        for b in blocks:
            if not b["cl"]:
                fnrefs(b["s"], out)
                fnrefs(b["t"], out)
    return out


def closures_of(fc):
    by = {}
    for p in fc.fns:
        i = p.find("::{closure#")
        while i >= 0:
            by.setdefault(p[:i], set()).add(p)
            i = p.find("::{closure#", i + 1)
    return by


def reach(fc, roots):
    """functions of the crate reachable from the roots (trait calls: every local impl)"""
    clo = closures_of(fc)
    impls = {}
    for i in fc.impls:
        if i["trait"]:
            for p, _ in i["items"]:
                impls.setdefault((i["trait"], p.split("::")[-1]), []).append(p)
    seen, work = {}, [(r, None) for r in roots if r in fc.fns]
    while work:
        p, via = work.pop()
        if p in seen:
            continue
        seen[p] = via
        fn = fc.fns[p]
        for q in clo.get(p, ()):
            work.append((q, p))
        for m in mentions(fn):
            cands = []
            if m.get("r") and m["r"] in fc.fns:
                cands = [m["r"]]
            elif m["p"] in fc.fns:
                cands = [m["p"]]
                if m.get("trait") and m.get("rk") != "item":
                    cands += impls.get((m["trait"], m["name"]), [])
            elif m.get("trait") and not m.get("rlocal") :
                # an unresolved or foreign generic: a local impl may be behind it
                if not m.get("r") or m.get("rk") != "item":
                    cands = impls.get((m["trait"], m["name"]), [])
                else:
                    cands = []
            for q in cands:
                if q in fc.fns:
                    work.append((q, p))
    return seen


def path_to(seen, p):
    out = [p]
    while seen.get(out[-1]):
        out.append(seen[out[-1]])
    return list(reversed(out))
