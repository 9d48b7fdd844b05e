"""Rules over the whole program: effects, sharing, derived impls, safety."""
import re

from . import facts as F, graph as G
from .decide import Result, HELD, BROKEN, OPEN

IT = "core::iter::traits::iterator::Iterator"
DISP = "core::fmt::Display"

PARSE_ENTRY = [
    "crate::parser::GrammarParser::new",
    "crate::parser::GrammarParser::parse_input",
    "crate::parser::GrammarParser::parse_input_starting_with",
    "crate::grammar::Grammar::build_parser",
    "crate::grammar::Grammar::parse_input",
    "crate::grammar::Grammar::parse_input_starting_with",
]
TEXT_ENTRY = ["crate::grammar::Grammar::parse_from"]
SEEDED_ENTRY = [
    "crate::grammar::Grammar::generate_seeded",
    "crate::grammar::Grammar::generate_seeded_callback",
    "crate::grammar::Grammar::generate_seeded_with_strategy",
    "crate::grammar::Grammar::generate_seeded_callback_with_strategy",
    "crate::generation::RandomWalk::from_seed",
    "crate::generation::DepthBounded::from_seed",
    "crate::generation::CoverageGuided::from_seed",
    "crate::generation::Weighted::from_seed",
]


def entry_points(fc, kinds):
    out = []
    if "parse" in kinds:
        out += PARSE_ENTRY
        out += [p for p in fc.fns if re.match(r"<crate::earley::.* as %s>::next$" % re.escape(IT), p)]
    if "text" in kinds:
        out += TEXT_ENTRY
        out += [p for p in fc.fns if re.match(r"<crate::(term|expression|production|grammar)::\w+ as core::str::traits::FromStr>::from_str$", p)]
    if "format" in kinds:
        out += [p for p in fc.fns if p.endswith(" as %s>::fmt" % DISP)] + ["crate::grammar::ParseTree::mermaid"]
    if "seeded" in kinds:
        out += SEEDED_ENTRY
        out += [p for p in fc.fns if re.search(r" as crate::generation::GenerationStrategy>::choose$", p)]
    return [p for p in out if p in fc.fns]


HASH = re.compile(r"^(hashbrown|std::collections::hash|std::collections)::(map|set|hash|hash_map|hash_set|raw|table)\b")
HASH_ITER = re.compile(
    r"^(hashbrown|std::collections::hash)::(map|set|table)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|ExtractIf|Difference|Intersection|Union|SymmetricDifference)$"
)
ORDER_FREE = re.compile(r"::(any|all|count|len|is_empty|is_subset|is_superset|is_disjoint|size_hint|fold_set|sum|max|min)$")
AMBIENT = [
    (re.compile(r"^(rand::rngs::thread::|rand::random|rand::rng$|rand::thread_rng|.*::from_os_rng|.*::from_rng$|.*::try_from_os_rng|.*::from_entropy|getrandom::)"), "draws ambient randomness"),
    (re.compile(r"^std::time::|^core::time::.*now|::SystemTime|::Instant::now"), "reads the clock"),
    (re.compile(r"^std::(env|process|fs|io|net)::"), "reads the environment"),
    (re.compile(r"^std::thread::|^std::sys::"), "depends on the running thread"),
    (re.compile(r"RandomState|::hash_one$|DefaultHasher|::finish$"), "uses a hash value as data"),
    (re.compile(r"^core::ptr::.*::(addr|expose_provenance|cmp|lt|gt|le|ge|offset_from)$|^core::fmt::.*Pointer"), "uses an address as data"),
    (re.compile(r"^core::sync::atomic::|^std::sync::|LocalKey|OnceCell|LazyLock|LazyCell|OnceLock"), "uses shared mutable state"),
]


def hash_iter_type(t):
    t = F.peel(t)
    if t[0] == "adt":
        if HASH_ITER.match(t[1]):
            return t[1]
        for x in t[2]:
            r = hash_iter_type(x)
            if r:
                return r
    return None


def order_free_sink(fc, s):
    """does this call consume an iterator without revealing its order?"""
    if ORDER_FREE.search(s.path):
        return True
    if s.path.endswith(("::collect", "::extend")):
        ts = [fc.ty(s.term["dt"])] + s.at[:1]
        return any(F.peel(t)[0] == "adt" and re.search(r"(HashMap|HashSet|BTreeMap|BTreeSet)$", F.peel(t)[1]) for t in ts)
    return False


def sorted_next(fn, s):
    """a list collected and put in order before anything else is done"""
    if not s.path.endswith("::collect"):
        return False
    b = s.term.get("t")
    for _ in range(6):
        if b is None or b >= len(fn.blocks):
            return False
        t = fn.blocks[b]["t"]
        if t["k"] == "call":
            f = t["f"].get("k") if isinstance(t["f"], dict) else None
            p = f.get("p", "") if isinstance(f, dict) else ""
            if re.search(r"\]::sort(_unstable)?$", p):
                return True
            if not p.endswith(("::deref_mut", "::as_mut_slice")):
                return False
        elif t["k"] != "goto":
            return False
        b = t.get("t")
    return False


CONSUME = re.compile(
    r"::(next|for_each|try_for_each|fold|try_fold|collect|extend|find|find_map|position|last|nth|reduce|max_by\w*|min_by\w*|partition|zip|enumerate|chain|take|skip|take_while|skip_while|join|from_iter|for_each|min_by_key|max_by_key|unzip|peekable|copied_next)$"
)


def deterministic(ctx, kinds, what, exempt=()):
    """no call reachable from these entry points reads anything but its arguments"""
    fc = ctx.facts()
    roots = entry_points(fc, kinds)
    seen = G.reach(fc, roots)
    bad = []
    nsites = 0
    for p in sorted(seen):
        fn = fc.fns[p]
        if fn.d["derived"] or any(re.search(e, p) for e in exempt):
            continue
        for s in G.sites(fn):
            nsites += 1
            for name in s.names():
                hit = next((why for rx, why in AMBIENT if rx.search(name)), None)
                if hit:
                    bad.append("%s in %s at %s\n  call: %s\n  reached: %s" % (hit, p, s.where(), name, " -> ".join(G.path_to(seen, p))))
                    break
            if s.at and CONSUME.search(s.path):
                h = hash_iter_type(s.at[0]) or (len(s.at) > 1 and hash_iter_type(s.at[1]))
                if h and not order_free_sink(fc, s) and not sorted_next(fn, s):
                    bad.append("order of a hash table reaches the result in %s at %s\n  call: %s over %s\n  reached: %s" % (p, s.where(), s.path, h, " -> ".join(G.path_to(seen, p))))
        for w in casts(fn):
            bad.append("address used as a number in %s at %s" % (p, w))
    if not roots:
        return Result("rule", what, OPEN, ["no entry point found"])
    return Result("rule", what, BROKEN if bad else HELD, bad, entry_points=len(roots), functions=len(seen), sites=nsites)


def casts(fn):
    """pointer-to-integer casts"""
    for b in fn.blocks:
        if b["cl"]:
            continue
        for st in b["s"]:
            r = st[1] if len(st) > 1 else None
            if isinstance(r, list) and r and r[0] == "cast" and any(isinstance(x, str) and "Expose" in x for x in r):
                yield "%s:%s" % tuple(st[2][:2]) if len(st) > 2 and st[2] else fn.loc


# -- sharing ------------------------------------------------------------------


def interior_path(fc, ti, seen=None, trail=()):
    """how a value of this type reaches an UnsafeCell it owns or shares, or None"""
    seen = seen if seen is not None else set()
    t = fc.ty(ti) if isinstance(ti, int) else ti
    if t in seen:
        return None
    seen.add(t)
    k = t[0]
    if k in ("ref", "ptr"):
        return interior_path(fc, t[2], seen, trail)
    if k in ("slice", "array"):
        return interior_path(fc, t[1], seen, trail)
    if k == "tuple":
        for x in t[1]:
            r = interior_path(fc, x, seen, trail)
            if r:
                return r
        return None
    if k == "adt":
        if re.search(r"(UnsafeCell|^core::cell::|^std::sync::|^core::sync::|OnceCell|Mutex|RwLock|Atomic)", t[1]):
            return trail + (t[1],)
        for x in t[2]:
            r = interior_path(fc, x, seen, trail + (t[1],))
            if r:
                return r
        a = fc.adt_by_path.get(t[1])
        if a is not None and a["local"]:
            for v in a["v"]:
                for f in v["f"]:
                    r = interior_path(fc, f["t"], seen, trail + ("%s.%s" % (t[1], f["n"]),))
                    if r:
                        return r
        return None
    if k == "dyn":
        return trail + ("dyn " + t[1],)
    return None


def no_shared_state(ctx, types, what):
    fc = ctx.facts()
    bad = []
    for s in fc.statics:
        t = fc.ty(s["t"])
        p = interior_path(fc, t)
        if s["mut"] or p:
            bad.append("mutable static %s at %s" % (s["p"], "%s:%s" % tuple(s["loc"][:2]) if s["loc"] else "?"))
    n = 0
    for a in fc.adts:
        if not a["local"] or a["p"] not in types:
            continue
        n += 1
        for v in a["v"]:
            for f in v["f"]:
                p = interior_path(fc, f["t"])
                if p:
                    bad.append("field %s.%s at %s can change behind a shared reference\n  through: %s" % (a["p"], f["n"], "%s:%s" % tuple(a["loc"][:2]), " -> ".join(p)))
    # thread locals
    m = 0
    for fn in fc.all:
        for s in G.sites(fn):
            m += 1
            if any("LocalKey" in x for x in s.names()):
                bad.append("thread-local state used in %s at %s" % (fn.p, s.where()))
    return Result("rule", what, BROKEN if bad else HELD, bad, statics=len(fc.statics), types=n, sites=m)


# -- derived impls -----------------------------------------------------------

STRUCTURAL = {
    "core::cmp::PartialEq": ["crate::term::Term", "crate::expression::Expression", "crate::production::Production", "crate::grammar::Grammar", "crate::grammar::ParseTree", "crate::grammar::ParseTreeNode", "crate::error::Error"],
    "core::hash::Hash": ["crate::term::Term", "crate::expression::Expression", "crate::production::Production", "crate::grammar::Grammar"],
    "core::cmp::Ord": ["crate::term::Term", "crate::expression::Expression"],
    "core::cmp::PartialOrd": ["crate::term::Term", "crate::expression::Expression"],
    "core::clone::Clone": ["crate::term::Term", "crate::expression::Expression", "crate::production::Production", "crate::grammar::Grammar", "crate::grammar::ParseTree", "crate::grammar::ParseTreeNode", "crate::error::Error"],
}
METHOD = {"core::cmp::PartialEq": "eq", "core::hash::Hash": "hash", "core::cmp::Ord": "cmp", "core::cmp::PartialOrd": "partial_cmp", "core::clone::Clone": "clone"}


def structural(ctx):
    from . import contracts as C

    fc = ctx.facts()
    by = {}
    for i in fc.impls:
        t = fc.ty(i["self"])
        if t[0] == "adt":
            by.setdefault((t[1], i["trait"]), []).append(i)
    out = []
    for tr, tys in STRUCTURAL.items():
        for ty in tys:
            name = "<%s as %s>" % (ty, tr)
            im = by.get((ty, tr))
            if not im:
                out.append(Result("rule", name, OPEN, ["no such impl"]))
                continue
            if all(i["derived"] for i in im):
                out.append(Result("rule", name, HELD, where=ty, how="compiler-derived"))
                continue
            out.append(manual(ctx, fc, ty, tr, name))
    return out


def manual(ctx, fc, ty, tr, name):
    """a hand-written impl has to be the structural one"""
    from . import contracts as C

    from . import spec as S

    fns = [f for f in fc.all if f.d.get("impl_trait") == tr and not f.d["derived"] and f.p.endswith(">::" + METHOD[tr]) and fc.ty(f.d["impl_self"])[:2] == ("adt", ty)]
    if len(fns) != 1:
        return Result("rule", name, OPEN, ["impl not found"])
    fn = fns[0]
    adt = fc.adt_by_path[ty]
    loc = "%s:%s" % tuple(fn.d["loc"][:2])
    ev = ctx.ev(dict(fn=fn.p, area="rule", props=[]))
    if isinstance(ev, str):
        return Result("rule", name, OPEN, [ev])
    m = S.texts(ev.rows, {})
    held = Result("rule", name, HELD, where=loc, how="hand-written, structural")
    fs = [f["n"] for f in adt["v"][0]["f"]]
    if tr == "core::cmp::PartialEq":
        if adt["kind"] == "struct":
            want = [" & ".join(sorted("eq(a1.%s,a2.%s)" % (f, f) for f in fs))]
        else:
            want = [" & ".join(sorted(["a1~" + v["n"], "a2~" + v["n"]] + ["eq(a1.%s.%s,a2.%s.%s)" % (v["n"], f["n"], v["n"], f["n"]) for f in v["f"]])) for v in adt["v"]]
        got = m.get("ret(true)")
        if got and C.relate(got[0], tuple(sorted(want))) == "=":
            return held
    if tr == "core::clone::Clone":
        want = {"ret(a1)"}
        if adt["kind"] == "struct":
            want.add("ret(%s{%s})" % (ty.split("::")[-1], ",".join("%s:a1.%s" % (f, f) for f in fs)))
        else:
            want |= {"ret(%s::%s{%s})" % (ty.split("::")[-1], v["n"], ",".join("%s:a1.%s.%s" % (f["n"], v["n"], f["n"]) for f in v["f"])) for v in adt["v"]}
        if m and set(m) <= want:
            return held
    if tr == "core::hash::Hash":
        # whatever is fed to the hasher is a part of the value: equal values feed the same
        if all(t == "ret(())" or re.match(r"call\(.* as core::hash::Hash>::hash,", t) for t in m) and not any("ambient" in t or "ptr" in t for t in m):
            return held
    if tr in ("core::cmp::Ord", "core::cmp::PartialOrd"):
        ok = {"ret(cmp(a1,a2))", "ret(Some{0:cmp(a1,a2)})"} if tr.endswith("PartialOrd") else set()
        if adt["kind"] == "struct" and len(fs) == 1:
            for f in fs:
                for c in ("Ord>::cmp(a1.%s,a2.%s)" % (f, f), "Ord::cmp(a1.%s,a2.%s)" % (f, f)):
                    ok |= {"ret(%s)" % c, "ret(Some{0:%s})" % c}
                ok |= {"ret(PartialOrd>::partial_cmp(a1.%s,a2.%s))" % (f, f)}
        rets = {t for t in m if t.startswith("ret(")}
        if rets and rets <= ok:
            return held
        if len(fs) > 1 or adt["kind"] != "struct":
            return Result("rule", name, OPEN, ["a hand-written order of a type of several parts, at %s" % loc], loc)
    return Result("rule", name, BROKEN, ["hand-written %s is not the structural one, at %s\n  construct: %s" % (name, loc, "; ".join("%s when %s" % (t, " or ".join(g)) for t, (g, _) in sorted(m.items()))[:600])], loc)


# -- memory safety ------------------------------------------------------------


def places(x):
    if isinstance(x, list):
        if len(x) >= 2 and isinstance(x[0], int) and x[1] == "*":
            yield x
        for y in x:
            yield from places(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from places(y)


def memory_safe(ctx):
    """no unsafe operation outside what the standard library's own macros expand to"""
    bad = []
    nf = ns = nd = 0
    for feat in (None, "ABNF,tracing,serde"):
        fc = ctx.facts(feat)
        for fn in fc.all:
            nf += 1
            if fn.d["unsafe"] and not fn.d["derived"]:
                bad.append("unsafe function %s at %s" % (fn.p, fn.loc))
            for m in G.mentions(fn):
                ns += 1
                if m.get("u") and m["p"] != "core::fmt::Arguments::new" and not m["p"].startswith(("core::fmt::rt::", "core::panicking", "tracing")):
                    bad.append("call of an unsafe function in %s (%s)\n  callee: %s" % (fn.p, fn.loc, m["p"]))
            for b in fn.blocks:
                for pl in list(places(b["s"])) + list(places(b["t"])):
                    nd += 1
                    t = fc.ty(fn.locals[pl[0]])
                    if t[0] == "ptr" and not (len(pl) > 3 and pl[2:4] == [{"f": "value"}, {"f": "value"}]):
                        bad.append("raw pointer dereferenced in %s (%s)" % (fn.p, fn.loc))
        for s in fc.statics:
            if s["mut"]:
                bad.append("static mut %s" % s["p"])
    return Result("rule", "no unsafe operation", BROKEN if bad else HELD, sorted(set(bad)), functions=nf, callees=ns, dereferences=nd)
