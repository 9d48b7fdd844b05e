"""Guarded effects: what a function does, under which conditions.

A Summary holds one trace per path.  `Flat` turns the set of traces into rows
that no longer depend on the order in which independent statements or tests
were written, on which helper they sit in, or on how a loop is spelled:

  (effect, args)  -> minimal DNF of the conditions under which it happens
  ret(value)      -> minimal DNF

Iteration is part of the condition: `each X` (once for every element of X),
`first X` (for the element at which the loop is left), `none X` (X was
exhausted by a loop that can also be left early).  Conditions whose other
side only panics are not guards (the panic rules look at those), a failing
formatter is not a guard, and plain exhaustion of a loop is not a guard.
"""
import copy

import re

from .terms import *
from .engine import refplace

VERSIONED = {"push": 0, "pushf": 0, "popfront": 0, "popback": 0, "sadd": 0, "srem": 0, "mput": 0, "mrem": 0, "vinsert": 0, "remove": 0, "swap_remove": 0}


STRUCTS = []  # [(path, name, field names)] of the crate's structs


def whole(t):
    """a struct some of whose fields were replaced is a new struct"""
    fs = {}
    b = t
    while b.op == "upd" and b.args[1][0] == "f":
        fs.setdefault(b.args[1][1], b.args[2])
        b = b.args[0]
    own = [s for s in STRUCTS if set(fs) <= set(s[2])]
    if len(own) != 1 or b.op == "upd":
        return None
    p, v, names = own[0]
    return agg(p, v, [(n, fs[n] if n in fs else field(b, n)) for n in names])


def _er(t):
    o = t.op
    if o == "upd":
        w = whole(t)
        return None if w is None else erase(w)
    if o == "lv":
        return erase(t.args[1])
    if o in VERSIONED:
        return erase(t.args[0])
    if o == "ref":
        return erase(refplace(t))
    if o == "has" and t.args[0].op == "range":
        r = t.args[0]
        if r.args[0] is ZERO and r.args[1].op == "len":
            return mk("has", mk("over", erase(r.args[1].args[0])), *t.args[1:])
    return None


def _ev(t):
    o = t.op
    if o == "push":
        b = t
        while b.op == "push":
            b = b.args[0]
        if b.op == "lv" or rooted_local(erase(b)):
            return erase(b)
        return mk("app", erase_value(t.args[0]), erase_value(t.args[1]))
    if o == "upd":
        w = whole(t)
        return None if w is None else erase_value(w)
    if o == "lv" or o in VERSIONED or o == "ref":
        return _er(t)
    return None


def erase_value(t):
    """a value handed over for good: what was appended to it is part of it"""
    return rewrite(t, _ev, _vmemo)


_memo = {}
_vmemo = {}


def erase(t):
    """drop container versions: the same container at any time is one term"""
    if isinstance(t, tuple):
        return tuple(erase(x) for x in t)
    if not is_t(t):
        return t
    return rewrite(t, _er, _memo)


def base_of(it):
    while it.op in ("map", "filter", "enumerate", "filter_map", "take_while", "skip_while", "inspect"):
        it = it.args[0]
    return it


def lit(t, b):
    """(key, value)"""
    if t.op == "is":
        x = erase(t.args[0])
        if x.op == "parse" and x.args[0].op == "nom" and x.args[0].args[0].endswith(("complete::char", "complete::tag")) and len(x.args[0].args) == 2:
            p = x.args[0].args[1]
            if p.op in ("char", "str"):
                return (mk("starts", x.args[1], mk("str", chr(p.args[0])) if p.op == "char" else p), (t.args[1] == "Ok") == b)
        if t.args[1] in ("Some", "None"):
            # some element is taken: all that matters is whether there is one
            if x.op == "itop" and x.args[0] in ("min", "max", "last") and len(x.args) == 2:
                return (mk("empty", x.args[1]), t.args[1] == "None")
            if x.op == "firstof":
                return (mk("empty", x.args[0]), t.args[1] == "None")
        return (x, t.args[1])
    t = erase(t)
    while t.op == "not":
        t = t.args[0]
        b = not b
    if t.op == "bool":
        return None if t.args[0] == b else False
    return (t, b)


CONTAINER = {"push", "pushf", "vinsert", "sadd", "srem", "mput", "mrem", "popfront", "popback", "remove", "swap_remove"}

SEQUENCED = {"push", "pushf", "vinsert", "popfront", "popback"}


def shown(t, loc):
    """loc is part of t, beyond the wording of an error"""
    if t is loc:
        return True
    if is_t(t):
        return not (t.op == "agg" and t.args[0] == "crate::error::Error") and any(shown(x, loc) for x in t.args)
    return isinstance(t, tuple) and any(shown(x, loc) for x in t)


def rooted_local(t):
    while t.op in ("field", "vf", "index", "mslot"):
        t = t.args[0]
    return t.op == "loc"


class Flat:
    def __init__(self, summ, ordered=True):
        self.s = summ
        self.E = summ.E
        self.panic_cubes = []
        STRUCTS[:] = [(a["p"], a["v"][0]["n"], [y["n"] for y in a["v"][0]["f"]]) for a in self.E.crate.adts if a["kind"] == "struct" and a["local"]]
        self.raw = {}  # (name, args) -> {"cubes": set, "sites": set}
        self.panics = {}  # (kind, args) -> {"cubes", "sites"}
        self.early = set()  # has-terms some loop over which can be left early
        self.exits = {}  # has-term -> set of frozenset(lits of the leaving iteration)
        self.nloops = 0
        self._inner = {}
        self.leaves = {}
        self.exit_any = {}
        self.loopids = set()
        paths = [p for p in summ.paths if not self.wf(p.items)]
        first_flags(paths)
        for p in paths:
            if p.kind != "panic":
                self.scan(p.items, None)
        for p in paths:
            self.walk(p.items, frozenset(), p, None)
        for p in paths:
            if p.kind != "panic" and ordered:
                self.orders(p.items, None, frozenset())
        # the order in which a worklist or a sorted list is filled is not observable
        unordered = {a[0] for n, a in self.raw if n in SEQUENCED - {"push", "pushf"}}
        for k in [k for k in self.raw if k[0] == "order" and k[1][0] in unordered]:
            del self.raw[k]
        self.joins = {}
        self.accs = {}
        self.outs = {}  # output sequence (ast) -> set of cubes
        if self.E.sinks:
            self.sinks = {r[1] for r in self.E.sinks}
            for p in paths:
                if p.kind == "ret":
                    seq, conds = self.out_seq(p.items, None)
                    if seq is not None:
                        self.outs.setdefault(tuple(seq), set()).add(frozenset(conds))
            self.drop_sink_rows()
        self.pinned()
        self.keys()
        self.firsts()
        self.members()
        self.entries()
        self.emptiness()
        self.ascii_bytes()
        self.ambient()
        self.filter_locals()
        self.coalesce()
        self.deforest()
        self.membership_only()
        self.copies()
        self._rows = None
        self._pmin = False

    @staticmethod
    def wf(items):
        return any(it[0] == "c" and it[1].op == "wfail" and it[2] for it in items)

    def mode(self, t, b, L):
        """how a has() literal is met: each / first / none"""
        e = erase(t)
        if L is not None:
            own = False
            for c in L.chains:
                bs = base_of(c)
                if erase(mk("has", bs, *t.args[1:])) is e:
                    own = True
                elif c.op in ("flatmap", "chain", "zip") or bs.op in ("flatmap", "chain", "zip"):
                    own = own or e not in self.inner(L)
            if own:
                return e, ("each" if b else None)
        return e, ("first" if b else "none")

    def inner(self, L):
        """has-terms that only loops inside this loop are over, not the loop itself"""
        if id(L) in self._inner:
            return self._inner[id(L)][0]
        own, nested = set(), set()
        for items, _ in L.paths:
            seen = set()
            for it in items:
                if it[0] == "l":
                    seen |= {erase(mk("has", base_of(c), 0)).args[0] for c in it[1].chains}
                elif it[0] == "c" and it[1].op == "has":
                    e = erase(it[1])
                    (nested if e.args[0] in seen else own).add(e)
        self._inner[id(L)] = (nested - own, L)
        return nested - own

    def scan(self, items, L):
        for i, it in enumerate(items):
            if it[0] == "c" and it[1].op == "has" and it[1].args[0].op == "opt":
                continue
            if it[0] == "c" and it[1].op == "has":
                e, m = self.mode(it[1], it[2], L)
                if m == "first":
                    self.early.add(e)
                    rest = []
                    for x in items[i + 1 :]:
                        if x[0] == "l":
                            break
                        if x[0] == "c" and x[1].op not in ("has", "wfail", "skipping"):
                            l = lit(x[1], x[2])
                            if l:
                                rest.append(l)
                    self.exits.setdefault(e, set()).add(frozenset(rest))
            elif it[0] == "l":
                for k, v in self.exit_flags(it[1]).items():
                    self.exit_any[k] = self.exit_any.get(k, False) or v
                for pi, _ in it[1].paths:
                    if not self.wf(pi):
                        self.scan(pi, it[1])

    def lits(self, t, b, L):
        if t.op == "has":
            if t.args[0].op == "opt":
                return None
            e, m = self.mode(t, b, L)
            if m is None or (m == "none" and e not in self.early):
                return None
            return (e, m)
        if t.op in ("wfail",):
            return None
        if t.op == "skipping":
            return (t, b)
        return lit(t, b)

    def exit_flags(self, lp):
        """has-term -> can this very loop be left before it is exhausted"""
        out = {}
        for kind, ei in lp.exits:
            if kind == "panic" or self.wf(ei):
                continue
            for x in ei:
                if x[0] == "c" and x[1].op == "has":
                    e = erase(x[1])
                    out[e] = out.get(e, False) or x[2]
        return out

    @staticmethod
    def event(name, a):
        """(name, erased args) or None when the value flow already shows it"""
        if name in CONTAINER:
            if a[0].op == "ref" and rooted_local(erase(a[0])) and a[1].op in ("seq", "str"):
                return None
            pl = erase(a[0])
            if rooted_local(pl):
                # a container made under another name and moved here is that one
                was = erase(a[1])
                if rooted_local(was):
                    pl = was
            return name, (pl,) + tuple(erase_value(x) for x in a[2:])
        if name == "write" and rooted_local(erase(a[1])):
            return None
        if name in ("clear", "reserve"):
            return None
        return name, tuple(erase(x) for x in a)

    def row(self, name, args, conds, site):
        if name in ("set", "init", "step") and args[1].op == "out":
            return
        r = self.raw.get((name, args))
        if r is None:
            r = self.raw[(name, args)] = {"cubes": set(), "sites": set()}
        r["cubes"].add(frozenset(conds))
        if site:
            r["sites"].add(site)

    def walk(self, items, conds, path, L):
        conds = set(conds)
        post = {}
        for it in items:
            if it[0] == "c":
                l = self.lits(it[1], it[2], L)
                if l and l[1] == "none" and l[0].op == "has" and post.get(l[0]) is False:
                    l = None
                if l is False:
                    return
                if l is not None:
                    # a loop variable met again later replaces its earlier mode
                    if l[0].op == "has":
                        conds = {c for c in conds if c[0] is not l[0]}
                    conds.add(l)
            elif it[0] == "e":
                name = it[1]
                if name in ("panic", "panic?"):
                    if name == "panic":
                        self.panic_cubes.append(frozenset(conds))
                    r = self.panics.setdefault((name, erase(it[2])), {"cubes": set(), "sites": set()})
                    r["cubes"].add(frozenset(conds))
                    r["sites"].add(it[3])
                    continue
                r = self.event(name, it[2])
                if r is not None:
                    for args, c2 in self.flags(name, r[1], conds):
                        self.row(r[0], args, c2, it[3])
            elif it[0] == "l":
                lp = it[1]
                for k in self.exit_flags(lp).items():
                    post[k[0]] = k[1]
                for kind, ei in lp.exits:
                    if kind == "panic" or self.wf(ei):
                        continue
                    c2 = set(conds)
                    hs = []
                    for x in ei:
                        if x[0] != "c":
                            continue
                        l = self.lits(x[1], x[2], None)
                        if l and l[0].op == "has":
                            c2 = {y for y in c2 if y[0] is not l[0]}
                            if l[1] == "first":
                                hs.append(l[0])
                            elif l[1] == "none" and not self.exit_any.get(l[0]):
                                continue
                        if l:
                            c2.add(l)
                    for h in hs:
                        self.leaves.setdefault(h, set()).add(frozenset(c2))
                if lp.id not in self.loopids:
                    self.loopids.add(lp.id)
                    self.nloops += 1
                for k, v in lp.init.items():
                    if v is not None:
                        pk, pv = erase(k), erase(v)
                        if pk is not pv:
                            self.row("init", (pk, pv), conds, None)
                for kind, ei in lp.exits:
                    if kind == "panic" and not self.wf(ei):
                        self.walk(ei, frozenset(conds), None, lp)
                for pi, u in lp.paths:
                    if self.wf(pi):
                        continue
                    c2 = self.walk(pi, frozenset(conds), None, lp)
                    if c2 is None:
                        continue
                    tested = {x[:3] for x in pi if x[0] == "c"}
                    for k, v in u.items():
                        if v is k:
                            continue
                        pk, pv = erase(k), erase(v)
                        if pk is pv:
                            continue
                        for b, c3 in self.truth(pv, c2):
                            if b is None or ("c", k, b) not in tested:
                                self.row("step", (pk, pv if b is None else boolean(b)), c3, None)
        if path is not None and path.kind == "ret":
            v = erase_value(path.val)
            for b, c3 in self.truth(v, conds):
                self.row("ret", (v if b is None else boolean(b),), c3, None)
            for root, val in path.st.store.items():
                if root[0] == "O":
                    self.sets(erase(root[1]), val, path.st, conds)
        return conds

    def orders(self, items, L, each):
        """which changes of a sequence come before which, and within which iterations"""
        each = set(each)
        seen = []
        for it in items:
            if it[0] == "c" and it[1].op == "has":
                l = self.lits(it[1], it[2], L)
                if l:
                    each = {c for c in each if c[0] is not l[0]}
                    if l[1] == "each":
                        each.add(l)
            elif it[0] == "e" and it[1] in SEQUENCED:
                r = self.event(it[1], it[2])
                if r is not None:
                    k = (r, it[3])
                    for s, e, inl in seen:
                        if not (inl and s[0] == r):
                            self.before(s, k, e & each)
                    seen.append((k, frozenset(each), False))
            elif it[0] == "l":
                subs = []
                for pi, _ in it[1].paths:
                    if not self.wf(pi):
                        sub = self.orders(pi, it[1], each)
                        if sub:
                            subs.append((sub, pi))
                # the parts of a chained iterator are met one after the other
                chained = any(t.op in ("chain", "flatmap") for c in it[1].chains for t in subterms(c))
                for s1, p1 in subs if chained else ():
                    h1 = {x[1] for x in p1 if x[0] == "c" and x[1].op == "has" and x[2]}
                    for s2, p2 in subs:
                        if any(x[0] == "c" and x[1].op == "has" and not x[2] and x[1] in h1 for x in p2):
                            for a, e, _ in s1:
                                for b, e2, _ in s2:
                                    self.before(a, b, e & e2)
                allk = [x for sub, _ in subs for x in sub]
                for s, e, inl in seen:
                    for b, e2, _ in allk:
                        if inl or s[0] != b[0]:
                            self.before(s, b, e & e2)
                seen += [(k, frozenset(each) & e, True) for k, e, _ in allk]
        return seen

    def before(self, a, b, each):
        (x, s1), (y, s2) = a, b
        if x[1][0] is not y[1][0]:
            return
        self.row("order", (x[1][0], mk("at", x[0], *x[1][1:]), mk("at", y[0], *y[1][1:])), each, s2)

    @staticmethod
    def truth(v, conds):
        """a flag set to a test is a branch on the test"""
        if v.op == "bool":
            return [(v.args[0], conds)]
        if v.op not in ("eq", "lt", "not", "empty", "starts", "contains", "inset", "scontains"):
            return [(None, conds)]
        out = []
        for b in (True, False):
            l = lit(v, b)
            if l is None:
                out.append((b, conds))
            elif l is not False and (l[0], not l[1]) not in conds:
                out.append((b, frozenset(conds) | {l}))
        return out

    def flags(self, name, args, conds):
        """a test passed on as a flag is a branch on the test"""
        outs = [(args, conds)]
        if name not in ("rec", "call"):
            return outs
        for i, v in enumerate(args):
            if is_t(v):
                outs = [(a if b is None else a[:i] + (boolean(b),) + a[i + 1 :], c2) for a, c in outs for b, c2 in self.truth(v, c)]
        return outs

    def sets(self, place, val, st, conds):
        if val.op == "upd":
            from .engine import placeproj

            base, pe, x = val.args
            self.sets(erase(placeproj(place, pe)), x, st, conds)
            self.sets(place, base, st, conds)
            return
        ev = erase(self.E.deep(st, val))
        if ev is place:
            return
        if val.op == "agg" and ev.op == "agg":
            for (n, x), (_, y) in zip(val.args[2], ev.args[2]):
                if y is not mk("field", place, n):
                    self.sets(mk("field", place, n), x, st, conds)
            return
        self.row("set", (place, ev), conds, None)

    # -- ordered output ----------------------------------------------------
    def out_seq(self, items, L):
        """what a path writes, in order: [("t", text parts) | ("e", effect) | ("loop", alternatives)]"""
        conds = set()
        seq = []
        for it in items:
            if it[0] == "c":
                l = self.lits(it[1], it[2], L)
                if l is False:
                    return None, None
                if l is not None:
                    if l[0].op == "has":
                        conds = {c for c in conds if c[0] is not l[0]}
                    conds.add(l)
            elif it[0] == "e":
                name, a = it[1], it[2]
                if name == "write" and erase(a[1]) in self.sinks:
                    x = erase(a[0])
                    for y in x.args if x.op == "cat" else (x,):
                        if y is not EMPTY_STR:
                            seq.append(("t", y))
                elif name in ("rec", "call") and any(is_t(x) and x in self.sinks for x in a):
                    a = erase(a)
                    fs = self.flags(name, a, conds)
                    seq.append(("e", name, fs[0][0] if len(fs) == 1 else a))
                elif name in CONTAINER:
                    r = self.event(name, a)
                    if r is not None and not rooted_local(r[1][0]):
                        seq.append(("e", r[0], r[1]))
            elif it[0] == "l":
                alts = {}
                for pi, _ in it[1].paths:
                    if self.wf(pi):
                        continue
                    sq, cs = self.out_seq(pi, it[1])
                    if sq:
                        alts.setdefault(tuple(sq), set()).add(frozenset(cs))
                if alts:
                    seq.append(("loop", frozenset((k, frozenset(v)) for k, v in alts.items())))
        return seq, conds

    def drop_sink_rows(self):
        for (n, a) in list(self.raw):
            if (n == "write" and a[1] in self.sinks) or (n in ("rec", "call") and any(x in self.sinks for x in a if is_t(x))):
                del self.raw[(n, a)]

    def seq_terms(self, seq, out):
        for x in seq:
            if x[0] == "t":
                out |= {t.id for t in subterms(x[1])}
            elif x[0] == "e":
                for y in x[2]:
                    if is_t(y):
                        out |= {t.id for t in subterms(y)}
            else:
                for sq, cubes in x[1]:
                    self.seq_terms(sq, out)
                    for c in cubes:
                        for k, _ in c:
                            out |= {t.id for t in subterms(k)}
        return out

    def seq_ast(self, seq):
        out = []
        for x in seq:
            if x[0] == "t":
                y = x[1]
                j = self.join_loop(y)
                if j is not None:
                    out.append(j)
                    continue
                j = self.acc_loop(y)
                if j is not None:
                    out = merge_str(out + self.seq_ast(j))
                    continue
                y = ast(y)
                if out and y[0] == "str" and out[-1][0] == "str":
                    out[-1] = ("str", out[-1][1] + y[1])
                else:
                    out.append(y)
            elif x[0] == "e":
                e = ("call", x[1]) + tuple(ast(y) if is_t(y) else ("id", str(y)) for y in x[2])
                # an effect on a container commutes with output that does not read it
                i = len(out)
                if x[1] in CONTAINER:
                    pl = ast(x[2][0])
                    while i > 0 and not mentions(out[i - 1], pl):
                        i -= 1
                out.insert(i, e)
            else:
                alts = {}
                for sq, cubes in x[1]:
                    alts.setdefault(tuple(self.seq_ast(sq)), set()).update(cubes)
                out.append(("loop", frozenset((k, frozenset(frozenset(lit_ast(a, b) for a, b in c) for c in self.minimise(v))) for k, v in alts.items())))
        return separated(merge_str(out))

    def join_loop(self, y):
        """join of one piece per element: the same text as writing the pieces in a loop"""
        if y.op != "join" or not rooted_local(y.args[0]):
            return None
        if y in self.joins:
            return self.joins[y]
        r = self.joins[y] = self.join_loop0(y)
        return r

    def join_loop0(self, y):
        loc = y.args[0]
        rs = [(n, a, r) for (n, a), r in self.raw.items() if a and a[0] is loc and n not in ("init", "order")]
        if len(rs) != 1 or rs[0][0] != "push" or len(rs[0][2]["cubes"]) != 1:
            return None
        (cube,) = rs[0][2]["cubes"]
        if len(cube) != 1:
            return None
        ((k, v),) = cube
        if k.op != "has" or v != "each" or k.args[0].op != "over":
            return None
        piece = rs[0][1][1]
        x = k.args[0].args[0]
        idx = mk("elem", mk("range", ZERO, length(x)), *k.args[1:])
        first = ("t" , ("eq",) + tuple(sorted((ast(idx), ast(ZERO)), key=repr)))
        each = lit_ast(k, v)
        body = []
        for z in piece.args if piece.op == "cat" else (piece,):
            body.append(("t", z))
        sep = [("t", y.args[1])]
        return ("loop", frozenset({
            (tuple(self.seq_ast(body)), frozenset({frozenset({each, first})})),
            (tuple(self.seq_ast(sep + body)), frozenset({frozenset({each, ("f", first[1])})})),
        }))

    def acc_loop(self, y):
        """a text put together in one loop: the same as writing the pieces as they come"""
        if y.op != "loc":
            return None
        if y not in self.accs:
            self.accs[y] = None
            self.accs[y] = self.acc_loop0(y)
        return self.accs[y]

    def acc_loop0(self, y):
        rs = [(n, a, r["cubes"]) for (n, a), r in self.raw.items() if a and a[0] is y]
        init = [a[1] for n, a, _ in rs if n == "init"]
        steps = [(a[1], c) for n, a, c in rs if n == "step"]
        if len(init) != 1 or not steps or len(steps) + 1 != len(rs) or y in subterms(init[0]):
            return None
        alts = {}
        each = None
        blank = mk("empty", y)
        pieces = []
        for v, cubes in steps:
            for c in cubes:
                hs = [k for k, b in c if k.op == "has" and b == "each"]
                if len(hs) != 1 or (each is not None and hs[0] is not each) or hs[0].args[1:] != (0,):
                    return None
                each = hs[0]
                ps = list(v.args) if v.op == "cat" else [v]
                if ps and ps[0] is y:
                    ps = ps[1:]
                elif (blank, True) not in c:
                    return None
                if any(y in subterms(p) for p in ps):
                    return None
                x = each.args[0].args[0] if each.args[0].op == "over" else None
                base = x.args[0] if x is not None and x.op == "slice" else x
                c = frozenset((k, b) for k, b in c if not (base is not None and k.op == "empty" and k.args[0] is base and b is False))
                alts.setdefault(tuple(("t", p) for p in ps), set()).add(c)
                pieces.append(ps)
        if any(y in subterms(k) and k is not blank for cs in alts.values() for c in cs for k, _ in c):
            return None
        if any(k is blank for cs in alts.values() for c in cs for k, _ in c):
            # still blank: nothing was added yet, when no piece is blank
            full = lambda p: (p.op == "str" and p.args[0] != "") or (p.op == "disp" and p.args[0] in ("crate::term::Term", "crate::production::Production"))
            if init[0] is not EMPTY_STR or each.args[0].op != "over" or not all(any(full(p) for p in ps) for ps in pieces):
                return None
            first = eq(mk("elem", mk("range", ZERO, length(each.args[0].args[0])), *each.args[1:]), ZERO)
            alts = {k: {frozenset((first if l[0] is blank else l[0], l[1]) for l in c) for c in cs} for k, cs in alts.items()}
        parts = init[0].args if init[0].op == "cat" else (init[0],)
        seq = [("t", p) for p in parts if p is not EMPTY_STR] + [("loop", frozenset((k, frozenset(v)) for k, v in alts.items()))]
        return seq

    def out_rows(self):
        """[(("row","out",...), dnf of lit asts)]"""
        alts = {}
        for seq, cubes in sink_invariants(self.outs).items():
            alts.setdefault(tuple(self.seq_ast(seq)), set()).update(cubes)
        alts = {k: {frozenset(c) for c in self.minimise(v)} for k, v in alts.items()}
        # a loop over nothing writes nothing
        changed = True
        while changed:
            changed = False
            for k, cubes in list(alts.items()):
                for c in list(cubes):
                    for a, b in c:
                        if a.op != "empty" or b is not False:
                            continue
                        over = ast(a.args[0])
                        gone = (over, ("call", "slice", over, ("int", 1), ("raw", "None")))
                        strip = lambda kk: tuple(merge_str([x for x in kk if not (x[0] == "loop" and any(loop_over(x, o) for o in gone))]))
                        c2 = (c - {(a, b)}) | {(a, True)}
                        ks = []
                        for k3 in [k, terminated(k, over)] + shifted(k, over):
                            if k3 is not None and not ks:
                                ks = [(kk, k3) for kk, cc in alts.items() if kk != k and c2 in cc and strip(kk) == strip(k3)]
                        if ks:
                            k2, k3 = ks[0]
                            if k3 != k:
                                alts[k].discard(c)
                                if not alts[k]:
                                    del alts[k]
                                k = k3
                                alts.setdefault(k, set())
                            alts[k2].discard(c2)
                            if not alts[k2]:
                                del alts[k2]
                            alts[k] = (alts[k] - {c}) | {c - {(a, b)}}
                            changed = True
                            break
                    if changed:
                        break
                if changed:
                    break
        out = []
        for k, cubes in alts.items():
            out.append((("row", "out") + k, frozenset(frozenset(lit_ast(a, b) for a, b in c) for c in self.minimise(cubes))))
        return out

    def filter_locals(self):
        """init/step rows of locals nobody reads, and writes to locals, are not effects"""
        used = set()
        pend = []
        for seq, cubes in self.outs.items():
            seq = [y for x in seq for y in ((x[0] == "t" and self.acc_loop(x[1])) or [x])]
            self.seq_terms([x for x in seq if not (x[0] == "t" and self.join_loop(x[1]))], used)
            for c in cubes:
                for k, _ in c:
                    used |= {t.id for t in subterms(k)}
        for (n, a), r in self.raw.items():
            terms = set()
            loc = n in ("init", "step") or (n in CONTAINER | {"order"} and rooted_local(a[0]))
            for x in a[1:] if loc else a:
                terms |= {t.id for t in subterms(x)}
            for c in r["cubes"]:
                for k, _ in c:
                    terms |= {t.id for t in subterms(k)}
            if loc:
                pend.append(((n, a), terms))
            else:
                used |= terms
        for p in self.panics.values():
            for c in p["cubes"]:
                pass
        changed = True
        keep = set()
        while changed:
            changed = False
            for k, terms in pend:
                if k in keep:
                    continue
                pl = k[1][0]
                while pl.id not in used and pl.op in ("field", "vf", "index", "mslot"):
                    pl = pl.args[0]
                if pl.id in used:
                    keep.add(k)
                    used |= {t for t in terms}
                    changed = True
        for k, _ in pend:
            if k not in keep:
                del self.raw[k]

    def pinned(self):
        """where x is zero, sums over x are written without it"""

        def re(c):
            zs = {}
            for k, b in c:
                if k.op == "eq" and b is True and ZERO in k.args:
                    x = k.args[0] if k.args[1] is ZERO else k.args[1]
                    if x.op in ("field", "loc", "index"):
                        zs[x] = k
            if not zs:
                return c
            out = set()
            for k, b in c:
                if k.op in ("eq", "lt") and any(a.op == "sum" and any(x in zs for _, x in a.args[0]) for a in k.args):
                    f = eq if k.op == "eq" else lt
                    l = lit(f(*[rewrite(a, lambda t: ZERO if t in zs else None) if a.op == "sum" else a for a in k.args]), b)
                    if l is None:
                        continue
                    if l is False:
                        return None
                    out.add(l)
                else:
                    out.add((k, b))
            return frozenset(out)

        self.recube(re)

    def keys(self):
        """a key made of several parts is the tuple of its parts"""

        def plain(t):
            if t.op == "agg" and t.args[1] == t.args[0].split("::")[-1] and len(t.args[2]) > 1:
                return mk("tup", *[x for _, x in t.args[2]])
            return t

        def f(t):
            if t.op in ("mslot", "contains") and len(t.args) == 2:
                k = plain(t.args[1])
                if k is not t.args[1]:
                    return mk(t.op, rewrite(t.args[0], f), rewrite(k, f))
            return None

        self.rewrite_all(f)
        for (n, a), r in list(self.raw.items()):
            if n in ("mput", "sadd", "srem", "mrem") and is_t(a[1]) and plain(a[1]) is not a[1]:
                del self.raw[(n, a)]
                o = self.raw.setdefault((n, (a[0], plain(a[1])) + a[2:]), {"cubes": set(), "sites": set()})
                o["cubes"] |= r["cubes"]
                o["sites"] |= r["sites"]

    def firsts(self):
        """the first character of a text is c: the text starts with c"""
        tests = {}

        def of(k):
            if k.op != "eq":
                return None
            for a, b in (k.args, k.args[::-1]):
                if b.op in ("char", "str") and a.op == "vf" and a.args[1] == "Some" and a.args[0].op == "firstof" and a.args[0].args[0].op == "chars":
                    c = b if b.op == "str" else mk("str", chr(b.args[0]))
                    return a.args[0].args[0], mk("starts", a.args[0].args[0].args[0], c)
            return None

        for c in self.all_cubes():
            for k, _ in c:
                r = of(k)
                if r:
                    tests.setdefault(mk("empty", r[0]), set()).add(r[1])
        if not tests:
            return

        def re(c):
            out = set()
            for k, b in c:
                r = of(k)
                if r:
                    out.add((r[1], b))
                    continue
                out.add((k, b))
                if k in tests and b is True:
                    out |= {(s, False) for s in tests[k]}
            return frozenset(x for x in out if not (x[0] in tests and x[1] is False and any((s, True) in out for s in tests[x[0]])))

        self.recube(re)

    def all_cubes(self):
        return [c for d in (self.raw, self.panics) for r in d.values() for c in r["cubes"]] + [c for v in self.outs.values() for c in v] + list(self.panic_cubes)

    def recube(self, re):
        for d in (self.raw, self.panics):
            for r in d.values():
                r["cubes"] = {x for x in map(re, r["cubes"]) if x is not None}
        self.outs = {k: {x for x in map(re, v) if x is not None} for k, v in self.outs.items()}
        self.panic_cubes = [x for x in map(re, self.panic_cubes) if x is not None]

    def entries(self):
        """a fresh entry holding x where there was none, x appended where there was: appended to the entry"""
        for (n, a), r in list(self.raw.items()):
            # put at its place in an ordered list unless it is there: added to an ordered set
            if n == "vinsert" and a[1].op == "vf" and a[1].args[0] is mk("bsearch", a[0], a[2]):
                t = a[1].args[0]
                if all((t, "Err") in c for c in r["cubes"]):
                    del self.raw[(n, a)]
                    o = self.raw.setdefault(("sadd", (a[0], a[2])), {"cubes": set(), "sites": set()})
                    o["cubes"] |= {c - {(t, "Err")} for c in r["cubes"]}
                    o["sites"] |= r["sites"]
                continue
            # appended and sorted, or appended, unless it is there: ids are handed out and met in increasing order
            if n == "push" and a[0].op == "mslot":
                t, u = mk("bsearch", a[0], a[1]), mk("contains", a[0], a[1])
                if all((t, "Err") in c or (u, False) in c for c in r["cubes"]) and r["cubes"]:
                    del self.raw[(n, a)]
                    self.raw.pop(("order", (a[0], "sorted")), None)
                    o = self.raw.setdefault(("sadd", (a[0], a[1])), {"cubes": set(), "sites": set()})
                    o["cubes"] |= {c - {(t, "Err"), (u, False)} for c in r["cubes"]}
                    o["sites"] |= r["sites"]
                continue
            if n != "mput" or a[2].op != "seq" or len(a[2].args) != 1:
                continue
            there = mk("contains", a[0], a[1])
            other = self.raw.get(("push", (mk("mslot", a[0], a[1]), a[2].args[0])))
            if other is None:
                continue
            for c in list(r["cubes"]):
                if (there, False) in c:
                    c2 = (c - {(there, False)}) | {(there, True)}
                    if c2 in other["cubes"]:
                        other["cubes"].discard(c2)
                        other["cubes"].add(c - {(there, False)})
                        r["cubes"].discard(c)
            if not r["cubes"]:
                del self.raw[(n, a)]

    def emptiness(self):
        """a list of all elements of something, only asked whether it is empty"""
        tests = {}
        cubes = [c for d in (self.raw, self.panics) for r in d.values() for c in r["cubes"]] + [c for v in self.outs.values() for c in v] + list(self.panic_cubes)
        for c in cubes:
            for k, _ in c:
                if k.op == "empty" and k.args[0].op == "loc":
                    tests[k.args[0]] = k
        for loc, t in tests.items():
            rs = [(n, a, r) for (n, a), r in self.raw.items() if a and a[0] is loc]
            ps = [x for x in rs if x[0] == "push"]
            ini = [x for x in rs if x[0] == "init"]
            if len(ps) != 1 or len(ini) != 1 or ini[0][1][1].op != "seq" or ini[0][1][1].args or any(x[0] not in ("push", "init", "order") for x in rs) or len(ps[0][2]["cubes"]) != 1:
                continue
            (c,) = ps[0][2]["cubes"]
            hs = [k for k, b in c if k.op == "has"]
            if len(hs) != 1 or (hs[0], "each") not in c or hs[0].args[1:] != (0,):
                continue
            rest = c - {(hs[0], "each")}
            it = hs[0].args[0]
            new = mk("empty", it.args[0] if it.op == "over" else it)
            using = lambda x: any(y is loc for y in subterms(x))
            if any(using(k) and k is not t for c2 in cubes for k, _ in c2) or any(shown(y, loc) for (n, a), r in self.raw.items() if a and a[0] is not loc for y in a if is_t(y)) or any(not rest <= c2 for c2 in cubes if any(k is t for k, _ in c2)):
                continue
            if self.outs and any(loc.id in self.seq_terms(seq, set()) for seq in self.outs):
                continue
            re = lambda c2: frozenset((new if k is t else k, b) for k, b in c2)
            for d in (self.raw, self.panics):
                for r in d.values():
                    r["cubes"] = {re(c2) for c2 in r["cubes"]}
            self.outs = {k: {re(c2) for c2 in v} for k, v in self.outs.items()}
            self.panic_cubes = [re(c2) for c2 in self.panic_cubes]
            for n, a, _ in rs:
                self.raw.pop((n, a), None)

    def members(self):
        """a loop left at the element equal to something asks for membership"""
        rows = [r["cubes"] for d in (self.raw, self.panics) for r in d.values()] + list(self.outs.values()) + [self.panic_cubes]
        hs = {}
        for cubes in rows:
            for c in cubes:
                for k, v in c:
                    if k.op == "has":
                        hs.setdefault(k, set()).add(v)
        for h, modes in hs.items():
            if not modes <= {"first", "none"} or h.args[0].op not in ("over", "chars") or h not in self.early or h not in self.leaves:
                continue
            e = mk("elem", *h.args)
            about = lambda c: [l for l in c if l[0] is not h and e in subterms(l[0])]
            ls = {frozenset(about(c)) for c in self.leaves[h]}
            if len(ls) != 1 or len(next(iter(ls))) != 1:
                continue
            ((t, b),) = next(iter(ls))
            if t.op != "eq" or b is not True or e not in t.args:
                continue
            y = t.args[1] if t.args[0] is e else t.args[0]
            if e in subterms(y) or any(about(c) != [(t, b)] for cubes in rows for c in cubes if (h, "first") in c) or any(about(c) for cubes in rows for c in cubes if (h, "first") not in c):
                continue
            if any(e in subterms(x) for d in (self.raw, self.panics) for n, a in d for x in a if is_t(x)):
                continue
            new = mk("contains", h.args[0].args[0], y)
            if h.args[0].op == "chars":
                if y.op == "char":
                    y = mk("str", chr(y.args[0]))
                if y.op != "str":
                    continue
                new = mk("scontains", h.args[0].args[0], y)

            def re(c):
                if (h, "first") in c:
                    return frozenset(c - {(h, "first"), (t, b)}) | {(new, True)}
                if (h, "none") in c:
                    return frozenset(c - {(h, "none")}) | {(new, False)}
                return c

            for d in (self.raw, self.panics):
                for r in d.values():
                    r["cubes"] = {re(c) for c in r["cubes"]}
            self.outs = {k: {re(c) for c in v} for k, v in self.outs.items()}
            self.panic_cubes = [re(c) for c in self.panic_cubes]
            for d in (self.leaves, self.exits):
                d.pop(h, None)
                for k in d:
                    d[k] = {re(c) for c in d[k]}

    def copies(self):
        """copying element by element, and appending at the end, are values"""
        rows = {}
        for (n, a), r in self.raw.items():
            if a and is_t(a[0]) and rooted_local(a[0]) and (n in ("init", "step", "order") or n in CONTAINER):
                rows.setdefault(a[0], []).append((n, a, r))
        for loc, rs in rows.items():
            ini = [x for x in rs if x[0] == "init"]
            ps = [x for x in rs if x[0] == "push"]
            if len(ini) != 1 or len(ini[0][2]["cubes"]) != 1 or len(ini) + len(ps) + sum(x[0] == "order" for x in rs) != len(rs):
                continue
            (c0,) = ini[0][2]["cubes"]
            before = {(x[1][1], x[1][2]) for x in rs if x[0] == "order"}
            at = lambda p: mk("at", "push", *p[1][1:])
            changed = True
            val = ini[0][1][1]
            if val.op == "seq" and not val.args:
                for p in ps:
                    x = p[1][1]
                    if x.op != "elem" or x.args[0].op != "over" or p[2]["cubes"] != {c0 | {(mk("has", *x.args), "each")}}:
                        continue
                    if (at(p), at(p)) in before or any((at(q), at(p)) in before or (at(p), at(q)) not in before for q in ps if q is not p):
                        continue
                    val = x.args[0].args[0]
                    self.drop_push(loc, p, ps)
                    del self.raw["init", ini[0][1]]
                    self.raw["init", (loc, val)] = ini[0][2]
                    if self.takeover(loc, val, ps):
                        return self.copies()
                    break
            # only appended to on the one way to the result
            if any(p[2]["cubes"] != {c0} for p in ps):
                continue
            if any((at(p), at(q)) in before and (at(q), at(p)) in before or ((at(p), at(q)) not in before and (at(q), at(p)) not in before) for p in ps for q in ps if p is not q) or any((at(p), at(p)) in before for p in ps):
                continue
            uses = [(n, a) for (n, a), r in self.raw.items() if not (a and a[0] is loc) and (any(x is loc for y in a if is_t(y) for x in subterms(y)))]
            if any(n != "ret" for n, _ in uses) or any(x is loc for r in self.raw.values() for c in r["cubes"] for k, _ in c for x in subterms(k)) or self.outs:
                continue
            for p in sorted(ps, key=lambda p: sum((at(q), at(p)) in before for q in ps)):
                val = mk("app", val, p[1][1])
            for n, a in uses:
                r = self.raw.pop((n, a))
                a = tuple(rewrite(x, lambda t: val if t is loc else None) for x in a)
                o = self.raw.setdefault((n, a), {"cubes": set(), "sites": set()})
                o["cubes"] |= r["cubes"]
                o["sites"] |= r["sites"]
            for k in [k for k in self.raw if k[1] and k[1][0] is loc]:
                del self.raw[k]

    def takeover(self, loc, src, ps):
        """a list whose elements all go to another list, and which is not looked at again, is that list"""
        if not rooted_local(src) or self.outs:
            return False
        own = [(n, a) for n, a in self.raw if a and a[0] is src]
        for (n, a), r in self.raw.items():
            if (n, a) not in own and (n, a) != ("init", (loc, src)) and any(x is src for y in a if is_t(y) for x in subterms(y)):
                return False
            if any(x is src for c in r["cubes"] for k, _ in c for x in subterms(k)):
                return False
        for n, a in own:
            if n not in ("init", "push", "order") or any(x is src for y in a[1:] if is_t(y) for x in subterms(y)):
                return False
        del self.raw["init", (loc, src)]
        at = lambda a: mk("at", "push", *a[1:])
        mine = [at(a) for n, a in own if n == "push"]
        for x in mine:
            for q in ps:
                self.raw["order", (loc, x, at(q[1]))] = {"cubes": {frozenset()}, "sites": set()}
        self.rewrite_all(lambda t: loc if t is src else None)
        return True

    def drop_push(self, loc, p, ps):
        ps.remove(p)
        x = mk("at", "push", *p[1][1:])
        del self.raw["push", p[1]]
        for k in [k for k in self.raw if k[0] == "order" and k[1][0] is loc and x in k[1][1:]]:
            del self.raw[k]

    def deforest(self):
        """what is first gathered in a list and then gone through may be done at once"""
        again = True
        while again:
            again = False
            for loc in [a[0] for n, a in self.raw if n == "init" and a[0].op == "loc"]:
                if self.deforest1(loc):
                    again = True
                    break

    def deforest1(self, loc):
        own = [(n, a) for n, a in self.raw if a and is_t(a[0]) and any(x is loc for x in chain(a[0])) and (n in ("init", "step", "order") or n in CONTAINER)]
        ini = [k for k in own if k[0] == "init"]
        ps = [k for k in own if k[0] == "push"]
        if len(ini) != 1 or not ps or len(own) != len(ps) + 1 + sum(n == "order" for n, _ in own) or any(a[0] is not loc for _, a in own):
            return False
        v0 = ini[0][1][1]
        if v0.op != "seq" or v0.args or self.outs:
            return False
        over = mk("over", loc)
        keys = {x for k, r in self.raw.items() for c in r["cubes"] for h, _ in c for x in subterms(h) if x.op == "has" and x.args[0] is over}
        if len(keys) != 1:
            return False
        (h,) = keys
        if h in self.early:
            return False
        el = mk("elem", *h.args)
        marker = mk("sym", "@elem")
        memo = {}
        strip = lambda t: rewrite(t, lambda x: marker if x is el else None, memo)
        free = lambda t: not any(x is loc for x in subterms(strip(t)))
        sequenced = {k[1][0] for k in self.raw if k[0] == "order" and k not in own}
        users = []
        for k, r in self.raw.items():
            if k in own:
                continue
            hit = any(x is loc for a in k[1] if is_t(a) for x in subterms(a))
            for c in r["cubes"]:
                for l, v in c:
                    if l is h:
                        if v != "each":
                            return False
                        hit = True
                    elif any(x is loc for x in subterms(l)):
                        hit = True
            if not hit:
                continue
            if not all(free(a) for a in k[1] if is_t(a)) or not all(l is h or free(l) for c in r["cubes"] for l, _ in c):
                return False
            inargs = any(x is loc for a in k[1] if is_t(a) for x in subterms(a))
            if any((h, "each") not in c and (inargs or any(x is loc for l, _ in c for x in subterms(l))) for c in r["cubes"]) or k[0] == "order" or k[1][0] in sequenced:
                return False
            users.append(k)
        for k, r in self.panics.items():
            if not all(free(a) for a in k[1] if is_t(a)):
                return False
        for c in [c for p in self.panics.values() for c in p["cubes"]] + list(self.panic_cubes):
            if not all(l is h or free(l) for l, _ in c) or ((h, "none") in c or all(l is not h for l, _ in c)) and any(x is el for l, _ in c for x in subterms(l)):
                return False
        if any(l is h or any(x is loc for x in subterms(l)) for d in (self.exits, self.leaves) for cs in d.values() for c in cs for l, _ in c):
            return False
        if not users:
            return False
        pushes = [(a[1], c) for n, a in ps for c in self.raw[n, a]["cubes"]]
        hk = lambda c: {l for l, v in c if l.op == "has"}
        for k in users:
            for c in self.raw[k]["cubes"]:
                for _, d in pushes:
                    if any(l in hk(c) and (l, dict(c)[l]) != (l, dict(d)[l]) for l in hk(d)):
                        return False
        new = {}
        for k, r in list(self.raw.items()):
            if k not in users:
                continue
            del self.raw[k]
            rest = {c for c in r["cubes"] if (h, "each") not in c}
            if rest:
                new.setdefault(k, {"cubes": set(), "sites": set(r["sites"])})["cubes"] |= rest
            for v, d in pushes:
                f = lambda x: v if x is el else None
                k2 = (k[0], tuple(rewrite(a, f) if is_t(a) else a for a in k[1]))
                o = new.setdefault(k2, {"cubes": set(), "sites": set()})
                o["sites"] |= r["sites"]
                for c in r["cubes"] - rest:
                    o["cubes"].add(frozenset((rewrite(l, f), b) for l, b in c if l is not h) | d)
        for k, o in new.items():
            r = self.raw.setdefault(k, {"cubes": set(), "sites": set()})
            r["cubes"] |= o["cubes"]
            r["sites"] |= o["sites"]
        for k in own:
            del self.raw[k]

        def spread(c, mine):
            if not mine and (h, "each") not in c and (h, "first") not in c:
                return {c - {(h, "none")}}
            return {frozenset((rewrite(l, lambda x: v if x is el else None), b) for l, b in c if l is not h) | d for v, d in pushes}

        self.panic_cubes = [x for c in self.panic_cubes for x in spread(c, False)]
        pan = {}
        for (n, a), r in self.panics.items():
            mine = any(x is el for t in a if is_t(t) for x in subterms(t))
            for v, d in pushes if mine else [(None, None)]:
                a2 = tuple(rewrite(t, lambda x: v if x is el else None) if is_t(t) and mine else t for t in a)
                o = pan.setdefault((n, a2), {"cubes": set(), "sites": set()})
                o["sites"] |= r["sites"]
                o["cubes"] |= {x for c in r["cubes"] for x in spread(c, mine)}
        self.panics = pan
        return True

    def membership_only(self):
        """a list that is only asked what it contains has no order, and adding what it has already changes nothing"""
        pls = {k[1][0] for k in self.raw if k[0] in ("order", "push")}
        for pl in pls:
            if not rooted_local(pl):
                continue
            memo = {}

            def f(t):
                if t.op in ("contains", "empty") and t.args[0] is pl:
                    return mk(t.op, ZERO, *t.args[1:])
                return None

            def ordered(t):
                return any(x is pl for x in subterms(rewrite(t, f, memo)))

            def reads():
                for (n, a), r in self.raw.items():
                    yield from (x for x in (a[1:] if a and a[0] is pl else a) if is_t(x))
                    for c in r["cubes"]:
                        yield from (k for k, _ in c)
                if self.outs:
                    yield pl

            if not any(ordered(t) for t in reads()):
                for k in [k for k in self.raw if k[0] == "order" and k[1][0] is pl]:
                    del self.raw[k]
                for (n, a), r in self.raw.items():
                    if n == "push" and a[0] is pl:
                        has = (mk("contains", pl, a[1]), False)
                        r["cubes"] = {c - {has} for c in r["cubes"]}

    def coalesce(self):
        """a container built in a callee and moved into a variable is that variable"""
        up = {k: ck[0] for ck, k in self.E.fkeys.items()}

        def below(y, x):
            while y in up:
                y = up[y]
                if y == x:
                    return True
            return False

        src, dst = {}, {}
        for n, a in self.raw:
            if n == "init" and a[0].op == "loc":
                src.setdefault(a[0], set()).add(a[1])
                if a[1].op == "loc":
                    dst.setdefault(a[1], set()).add(a[0])
        sub = {}
        for y, xs in dst.items():
            x = next(iter(xs))
            if len(xs) == 1 and len(src[x]) == 1 and y in src and x.args[0] == y.args[0] == "L" and below(y.args[1], x.args[1]):
                sub[y] = x
        if not sub:
            return

        def f(t):
            r = sub.get(t)
            while r in sub:
                r = sub[r]
            return r

        self.rewrite_all(f)

    def rewrite_all(self, f):
        memo = {}

        def re(x):
            if is_t(x):
                if x not in memo:
                    memo[x] = rewrite(x, f)
                return memo[x]
            if isinstance(x, (tuple, list, set, frozenset)):
                return type(x)(re(y) for y in x)
            return x

        raw = {}
        for (n, a), r in self.raw.items():
            k = (n, re(a))
            if n == "init" and k[1][0] is k[1][1]:
                continue
            o = raw.setdefault(k, {"cubes": set(), "sites": set()})
            o["cubes"] |= re(r["cubes"])
            o["sites"] |= r["sites"]
        self.raw = raw
        for p in self.panics.values():
            p["cubes"] = re(p["cubes"])
        self.panic_cubes = re(self.panic_cubes)
        self.early = re(self.early)
        self.exits = {re(k): re(v) for k, v in self.exits.items()}
        self.leaves = {re(k): re(v) for k, v in self.leaves.items()}
        self.exit_any = {re(k): v for k, v in self.exit_any.items()}
        self.outs = {re(k): re(v) for k, v in self.outs.items()}

    def ambient(self):
        """randomness of the environment is one thing, however it is obtained"""
        src = re.compile(r"^rand::rngs::(thread|std|small)?:*:?rng$|from_os_rng|from_entropy|thread_rng|^rand::(rng|random)$|OsRng|try_from_os_rng")
        use = re.compile(r"\brand(_core|_chacha)?::|SeedableRng|Rng")

        def path(t):
            return t.args[0] if t.op == "call" and isinstance(t.args[0], str) else ""

        def f(t):
            u = t.args[0] if t.op == "out" and is_t(t.args[0]) else t
            if use.search(path(u)) and any(src.search(path(x)) for x in subterms(u)):
                return mk("ambient")
            return None

        keys = [k for k in self.raw if k[0] == "call" and isinstance(k[1][0], str) and use.search(k[1][0])]
        for k in keys:
            if src.search(k[1][0]) or any(is_t(x) and any(src.search(path(y)) for y in subterms(x)) for x in k[1][1:]):
                del self.raw[k]
        if keys:
            self.rewrite_all(f)

    def ascii_bytes(self):
        """bytes compared with ASCII constants only: the same as characters"""
        def ts():
            for (n, a), r in self.raw.items():
                yield from (x for x in a if is_t(x))
                for c in r["cubes"]:
                    yield from (k for k, _ in c)

        seen = set()
        for t in ts():
            seen |= {x for x in subterms(t) if x.op == "bytesof"}
        for b in seen:
            def f(t):
                if t.op == "eq":
                    for e, i in (t.args, t.args[::-1]):
                        if e.op == "elem" and e.args[0] is b and i.op == "int" and 0 <= i.args[0] < 128:
                            return mk("eq", *sorted((mk("elem", mk("chars", *b.args), *e.args[1:]), mk("char", i.args[0])), key=lambda x: x is not t.args[0] and x.op == "char"))
                if t.op == "has" and t.args[0] is b:
                    return mk("has", mk("chars", *b.args), *t.args[1:])
                return None
            if all(b not in subterms(rewrite(t, f)) for t in ts()):
                self.rewrite_all(f)

    # -- minimisation ----------------------------------------------------
    def domain(self, key, vals):
        v = next(iter(vals))
        if isinstance(v, bool):
            return {True, False}
        if key.op == "has":
            return None
        for adt in self.E.crate.adts + (self.E.models.adts if self.E.models else []):
            names = {x["n"] for x in adt["v"]}
            if adt["kind"] == "enum" and vals <= names and v in names:
                return names
        if v in ("Some", "None"):
            return {"Some", "None"}
        if v in ("Ok", "Err"):
            return {"Ok", "Err"}
        return None

    def minimise(self, cubes, panics=True):
        if panics:
            if not self._pmin:
                self._pmin = True
                self.panic_cubes = list(self.minimise(set(self.panic_cubes), False))
            cubes = {self.drop_panic(c) for c in cubes}
        cubes = {tidy(c) for c in (drop_contra(c) for c in cubes) if c is not None}
        changed = True
        memo = {}

        def okey(c):
            r = memo.get(c)
            if r is None:
                r = memo[c] = (len(c), sorted(str(x) for x in c))
            return r

        def order(cs):
            return sorted(cs, key=okey)

        while changed:
            changed = False
            bykey = {}
            for c in order(cubes):
                for k, v in sorted(c, key=str):
                    bykey.setdefault((k, c - {(k, v)}), set()).add(v)
            for (k, rest), vals in bykey.items():
                if len(vals) < 2:
                    continue
                dom = self.domain(k, vals)
                if dom is not None and dom <= vals:
                    cubes = {c for c in cubes if not any((k, v) in c and c - {(k, v)} == rest for v in vals)}
                    cubes.add(rest)
                    changed = True
                    break
            if changed:
                continue
            # left early or exhausted: always
            for c in order(cubes):
                for k, v in sorted(c, key=str):
                    if v != "none" or k.op != "has":
                        continue
                    rest = c - {(k, v)}
                    xs = self.exits.get(k, ())
                    if xs and all(any(d <= (rest | x | {(k, "first")}) for d in cubes) for x in xs):
                        cubes.discard(c)
                        cubes.add(rest)
                        changed = True
                        break
                if changed:
                    break
            if changed:
                continue
            oc = order(cubes)
            for c in oc:
                for d in oc:
                    if c is d or c == d:
                        continue
                    if c < d:
                        cubes.discard(d)
                        changed = True
                        break
                    for k, v in sorted(c, key=str):
                        for k2, v2 in d:
                            if k2 is k and v2 != v and (c - {(k, v)}) <= (d - {(k2, v2)}):
                                if v == "each" and v2 == "first":
                                    cubes.discard(d)
                                    changed = True
                                    break
                                dom = self.domain(k, {v, v2})
                                if dom is not None and len(dom) == 2:
                                    cubes.discard(d)
                                    cubes.add(d - {(k2, v2)})
                                    changed = True
                                    break
                        if changed:
                            break
                    if changed:
                        break
                if changed:
                    break
        return insets(cubes) if panics else frozenset(cubes)

    def asserted(self, cubes, args):
        self.minimise(set())
        return {self.drop_asserted(c, args) for c in cubes}

    def drop_asserted(self, c, args):
        """`assert!(any(..))`: which element it was found at matters to nobody"""
        for k, v in list(c):
            if v != "first" or k.op != "has" or (k, v) not in c:
                continue
            el = mk("elem", *k.args)
            for p in self.panic_cubes:
                if (k, "none") not in p or not (p - {(k, "none")}) <= c:
                    continue
                xs = [x for x in self.exits.get(k, ()) if x <= c]
                if not xs:
                    continue
                rest = c - {(k, v)} - xs[0]
                if any(t is el for a in args for t in subterms(a)) or any(t is el for k2, _ in rest for t in subterms(k2)):
                    continue
                c = rest
                break
        return c

    def drop_panic(self, c):
        changed = True
        while changed:
            changed = False
            for k, v in c:
                for p in self.panic_cubes:
                    for k2, v2 in p:
                        if k2 is k and v2 != v and (p - {(k2, v2)}) <= c:
                            dom = self.domain(k, {v, v2})
                            if dom is not None and len(dom) == 2:
                                c = c - {(k, v)}
                                changed = True
                                break
                    if changed:
                        break
                if changed:
                    break
        return c

    def rows(self):
        """[(name, args, dnf, sites)]"""
        if self._rows is None:
            self._rows = [(n, a, self.minimise(moot(n, a, self.asserted(r["cubes"], a))), r["sites"]) for (n, a), r in self.raw.items()]
            self.extremes()
            self.zero_iterations()
            self._rows = [r for r in self._rows if r[2]]
            self.dont_care()
            # loops that do something for each element and can be left early
            each = {k for _, _, d, _ in self._rows for c in d for k, v in c if v == "each" and k.op == "has"}
            # and loops that are only tested for running to their end
            modes = {}
            for n, a, d, _ in self._rows:
                for c in d:
                    for k, v in c:
                        if k.op == "has":
                            modes.setdefault(k, set()).add(v)
            each |= {k for k, v in modes.items() if v == {"none"}}
            for k in each & self.early:
                cubes = self.leaves.get(k)
                if cubes:
                    self._rows.append(("leave", (k,), self.minimise(cubes), set()))
        return self._rows

    def zero_iterations(self):
        """the path around a loop over nothing is the loop, taken no times"""
        inits = {}
        for n, a, d, _ in self._rows:
            if n == "init":
                inits.setdefault(a[0], set()).add(a[1])
        inits = {k: next(iter(v)) for k, v in inits.items() if len(v) == 1}
        rets = [i for i, r in enumerate(self._rows) if r[0] == "ret"]
        if len(rets) < 2 or not inits:
            return
        zero = {}

        def without(i, k, b):
            """the value of row i when what runs over k (being b) does not run"""
            if (i, k, b) not in zero:
                v = self._rows[i][1][0]
                ls = {t for t in subterms(v) if t in inits and self.loops_need((t,), k, b)}
                zero[i, k, b] = rewrite(v, lambda t: inits[t] if t in ls else None) if ls else None
            return zero[i, k, b]

        for j in rets:
            for c in list(self._rows[j][2]):
                hit = None
                for k, b in c:
                    rest = c - {(k, b)}
                    for i in rets:
                        if i == j or without(i, k, b) is not self._rows[j][1][0]:
                            continue
                        o = [x for x in self._rows[i][2] if x == rest or (x - {y for y in x if y[0] is k}) == rest]
                        if o:
                            hit = i, rest, o
                            break
                    if hit:
                        break
                if hit:
                    i, rest, o = hit
                    r = self._rows[i]
                    self._rows[i] = (r[0], r[1], self.minimise((set(r[2]) - set(o)) | {rest}), r[3])
                    r = self._rows[j]
                    self._rows[j] = (r[0], r[1], r[2] - {c}, r[3])
        self._rows = [r for r in self._rows if r[2]]

    def extremes(self):
        """the lesser (greater) of two, chosen by comparing them"""
        lts = {k for r in self._rows for c in r[2] for k, v in c if k.op == "lt" and isinstance(v, bool)}
        for k in lts:
            yes = [r for r in self._rows if r[2] and all((k, True) in c for c in r[2])]
            no = {}
            for r in self._rows:
                if r[2] and all((k, False) in c for c in r[2]):
                    no.setdefault(r[0], []).append(r)
            for r in yes:
                rest = {c - {(k, True)} for c in r[2]}
                for s in no.get(r[0], ()):
                    if {c - {(k, False)} for c in s[2]} != rest or len(r[1]) != len(s[1]):
                        continue
                    m = tuple(merged(a, b, k) for a, b in zip(r[1], s[1]))
                    if None in m:
                        continue
                    self._rows = [z for z in self._rows if z is not r and z is not s]
                    self._rows.append((r[0], m, self.minimise(rest), r[3] | s[3]))
                    no[r[0]].remove(s)
                    break

    def dont_care(self):
        """work whose result is only used under a condition may be done without it"""
        if self.outs:
            return
        owner = lambda r: r[1][0] if r[1] and is_t(r[1][0]) and rooted_local(r[1][0]) and (r[0] in ("init", "step", "order") or r[0] in CONTAINER) else None
        varying = {r[1][0] for r in self._rows if r[0] == "step"}
        roots = {}
        for r in self._rows:
            o = owner(r)
            if o is not None:
                while o.op != "loc":
                    o = o.args[0]
                roots[o] = None
        top = lambda o: o if o is None or o.op == "loc" else top(o.args[0])
        for r in self._rows:
            ms = {x for t in r[1] if is_t(t) for x in subterms(t) if x in roots} | {x for c in r[2] for k, _ in c for x in subterms(k) if x in roots}
            for m in ms - {top(owner(r))}:
                for c in r[2]:
                    ls = {l for l in c if l[0].op != "has" and not any(x.op == "elem" or x in varying or x is m for x in subterms(l[0]))}
                    roots[m] = ls if roots[m] is None else roots[m] & ls
        new = []
        for r in self._rows:
            d = roots.get(top(owner(r)))
            if d and any(c & d for c in r[2]):
                r = (r[0], r[1], self.minimise({c - d for c in r[2]}), r[3])
            new.append(r)
        self._rows = new

    def loops_need(self, locs, k, b):
        """does every loop that fills these places run over nothing when k is b"""
        some = False
        for n, a, d, _ in self._rows:
            if n in ("init", "order") or not a or not any(t is l for t in chain(a[0]) for l in locs):
                continue
            some = True
            for c in d:
                if not any(h.op == "has" and m in ("each", "first") and voids(h.args[0], k, b) for h, m in c):
                    return False
        return some

    def effects(self, *names):
        return [r for r in self.rows() if r[0] in names] if names else [r for r in self.rows() if r[0] != "ret"]

    def returns(self):
        return {a[0]: d for n, a, d, _ in self.rows() if n == "ret"}


def sink_invariants(outs):
    """a condition tested before a loop that only chooses between two bodies of
    the loop is the same as testing it in the loop"""
    outs = {tuple(k): set(map(frozenset, v)) for k, v in outs.items()}

    def find():
        for sa, ca in outs.items():
            for sb, cb in outs.items():
                if sa is sb or len(sa) != len(sb):
                    continue
                if not all(x == y or x[0] == y[0] == "loop" for x, y in zip(sa, sb)):
                    continue
                for c in ca:
                    for k, b in c:
                        if b is not True or k.op == "has":
                            continue
                        d = (c - {(k, b)}) | {(k, False)}
                        if d in cb:
                            return sa, sb, c, d, k
        return None

    while True:
        f = find()
        if f is None:
            return outs
        sa, sb, c, d, k = f
        new = []
        for x, y in zip(sa, sb):
            if x == y:
                new.append(x)
                continue
            body = {}
            for z, b in ((x, True), (y, False)):
                other = dict((y if b else x)[1])
                for sq, cubes in z[1]:
                    if other.get(sq) == cubes:
                        body.setdefault(sq, set()).update(cubes)
                    else:
                        body.setdefault(sq, set()).update(cu | {(k, b)} for cu in cubes)
            new.append(("loop", frozenset((sq, frozenset(v)) for sq, v in body.items())))
        for s, q in ((sa, c), (sb, d)):
            outs[s].discard(q)
            if not outs[s]:
                del outs[s]
        outs.setdefault(tuple(new), set()).add(c - {(k, True)})


def merged(a, b, k):
    """a where k, b otherwise: one term, if they differ only in which of two compared by k they take"""
    if a is b or a == b:
        return a
    if is_t(a) and is_t(b) and a.op in NUMERIC and b.op in NUMERIC:
        if lt(a, b) is k:
            return mk("min", *sorted((a, b), key=str))
        if lt(b, a) is k:
            return mk("max", *sorted((a, b), key=str))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = tuple(merged(p, q, k) for p, q in zip(a, b))
        return None if None in r else r
    if is_t(a) and is_t(b) and a.op == b.op and len(a.args) == len(b.args):
        r = tuple(merged(p, q, k) for p, q in zip(a.args, b.args))
        return None if None in r else mk(a.op, *r)
    return None


def all_loops(items, out):
    for it in items:
        if it[0] == "l":
            if it[1] not in out:
                out.append(it[1])
            for pi, _ in it[1].paths:
                all_loops(pi, out)
    return out


def item_terms(items, skip):
    for it in items:
        if it[0] == "c":
            yield it[1]
        elif it[0] == "e":
            yield from (x for x in it[2] if is_t(x))
        elif it[0] == "l" and it[1] is not skip:
            lp = it[1]
            yield from (v for v in lp.init.values() if v is not None)
            for pi, u in lp.paths:
                yield from item_terms(pi, skip)
                yield from (v for k, v in u.items() if v is not None)


def first_flags(paths):
    """a variable that differs in the first iteration only is the question which iteration it is"""
    loops = []
    for p in paths:
        all_loops(p.items, loops)
    for lp in loops:
        if len(lp.chains) != 1 or base_of(lp.chains[0]).op != "over":
            continue
        over = base_of(lp.chains[0])
        for k, c0 in list(lp.init.items()):
            if c0 is None or c0.op not in ("bool", "str", "char", "int"):
                continue
            lv = k if k.op == "lv" else mk("lv", lp.id, k)
            c1 = None
            ok = bool(lp.paths)
            for pi, u in lp.paths:
                v = u.get(k, lv)
                if v is lv:
                    bs = [x[2] for x in pi if x[0] == "c" and x[1] is lv]
                    v = boolean(bs[0]) if bs else None
                if v is None or v.op != c0.op or v is c0 or (c1 is not None and v is not c1):
                    ok = False
                    break
                c1 = v
            has = {x[1] for pi, _ in lp.paths for x in pi if x[0] == "c" and x[1].op == "has" and x[2] and x[1].args[0] is over}
            if not ok or len(has) != 1:
                continue
            outside = False
            for p in paths:
                ts = list(item_terms(p.items, lp)) + ([p.val] if p.val is not None else [])
                ts += [v for r, v in p.st.store.items() if r[0] == "O" and is_t(v)]
                if any(x is lv for t in ts for x in subterms(t)):
                    outside = True
                    break
            if outside:
                continue
            (h,) = has
            at0 = eq(mk("elem", mk("range", ZERO, length(over.args[0])), *h.args[1:]), ZERO)
            new = []
            for pi, u in lp.paths:
                i = max(j for j, x in enumerate(pi) if x[0] == "c" and x[1] is h) + 1 if any(x[0] == "c" and x[1] is h for x in pi) else 0
                for b, c in ((True, c0), (False, c1)):
                    q = subst_items(pi[:i] + [("c", at0, b)] + pi[i:] if i else pi, lv, c)
                    if q is not None:
                        new.append((q, {y: (rewrite(v, lambda t: c if t is lv else None) if v is not None else None) for y, v in u.items() if y is not k}))
            lp.paths = new
            del lp.init[k]


def subst_items(items, old, new):
    f = lambda t: new if t is old else None
    out = []
    for it in items:
        if it[0] == "c":
            t = rewrite(it[1], f)
            if t.op == "bool":
                if t.args[0] != it[2]:
                    return None
                continue
            out.append((it[0], t) + tuple(it[2:]))
        elif it[0] == "e":
            out.append((it[0], it[1], tuple(rewrite(x, f) if is_t(x) else x for x in it[2])) + tuple(it[3:]))
        elif it[0] == "l":
            lp = copy.copy(it[1])
            lp.init = {k: (rewrite(v, f) if v is not None else None) for k, v in lp.init.items()}
            lp.paths = [(q, {k: (rewrite(v, f) if v is not None else None) for k, v in u.items()}) for pi, u in lp.paths for q in [subst_items(pi, old, new)] if q is not None]
            lp.exits = [(kd, q) for kd, ei in lp.exits for q in [subst_items(ei, old, new)] if q is not None]
            out.append((it[0], lp) + tuple(it[2:]))
        else:
            out.append(it)
    return out


def moot(n, a, cubes):
    """adding what is already a member, removing what is not, changes nothing"""
    if n in ("sadd", "srem"):
        x = (mk("contains", a[0], a[1]), n == "srem")
        return {c - {x} for c in cubes}
    return cubes


CONST = {"char", "int", "str"}
NUMERIC = {"int", "sum", "field", "len", "sym", "loc", "cast", "min", "max", "vf", "elem", "satsub", "mul", "index"}


def const_eq(k):
    """(X, c) of X == c, else None"""
    if k.op == "eq":
        a, b = k.args
        if a.op in CONST and b.op not in CONST:
            return b, a
        if b.op in CONST and a.op not in CONST:
            return a, b
    return None


def mkset(x, cs):
    return mk("inset", x, tuple(sorted(cs, key=lambda c: repr(c.args))))


def known_consts(c):
    """what is one constant is not another"""
    pos = {}
    for k, v in c:
        e = const_eq(k) if v is True else None
        if e:
            pos[e[0]] = {e[1]}
        elif k.op == "inset" and v is True:
            pos[k.args[0]] = set(k.args[1])
    if not pos:
        return c
    out = set()
    for k, v in c:
        if v is False:
            e = const_eq(k)
            if e and e[0] in pos and e[1] not in pos[e[0]]:
                continue
            if k.op == "inset" and k.args[0] in pos and not set(k.args[1]) & pos[k.args[0]]:
                continue
        out.add((k, v))
    return frozenset(out)


def insets(cubes):
    """membership in a set of constants, however it is spelled"""
    cubes = {known_consts(c) for c in cubes}
    out = set()
    for c in cubes:
        neg = {}
        new = set()
        for k, v in c:
            if k.op == "contains" and k.args[0].op == "seq" and len(k.args[0].args) > 1 and all(x.op in CONST for x in k.args[0].args):
                new.add((mkset(k.args[1], set(k.args[0].args)), v))
                continue
            e = const_eq(k) if v is False else None
            if e:
                neg.setdefault(e[0], set()).add((e[1], k))
            else:
                new.add((k, v))
        for x, cs in neg.items():
            if len(cs) > 1:
                new.add((mkset(x, {a for a, _ in cs}), False))
            else:
                new |= {(k, False) for _, k in cs}
        out.add(frozenset(new))
    grp = {}
    for c in out:
        for k, v in c:
            e = const_eq(k) if v is True else None
            if e:
                grp.setdefault((e[0], c - {(k, v)}), set()).add((e[1], k))
    for (x, rest), cs in grp.items():
        if len(cs) > 1:
            for _, k in cs:
                out.discard(rest | {(k, True)})
            out.add(rest | {(mkset(x, {a for a, _ in cs}), True)})
    return frozenset(known_consts(c) for c in out)


def mentions(x, pl):
    if x == pl:
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(mentions(y, pl) for y in x)
    return False


def merge_str(xs):
    out = []
    for x in xs:
        if out and x[0] == "str" and out[-1][0] == "str":
            out[-1] = ("str", out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def split_chars(seq):
    out = []
    for x in seq:
        if x[0] == "str":
            out += [("str", ch) for ch in x[1]]
        else:
            out.append(x)
    return out


def put(x, a, b):
    """x with b for a"""
    if x == a:
        return b
    if isinstance(x, tuple):
        return tuple(put(y, a, b) for y in x)
    if isinstance(x, frozenset):
        return frozenset(put(y, a, b) for y in x)
    return x


def only_each(loop):
    """(body, what is looped over) of a loop that does one thing for each element"""
    if loop[0] != "loop" or len(loop[1]) != 1:
        return None
    ((body, d),) = loop[1]
    if len(d) != 1:
        return None
    (c,) = d
    if len(c) != 1:
        return None
    (l,) = c
    if l[0] != "has" or l[1] != "each" or l[3] != 0:
        return None
    return body, l[2]


def sep_loop(x, body, sep):
    """body for each element of x, with sep between"""
    each = ("has", "each", x, 0)
    first = ("eq",) + tuple(sorted((("[#]", x, "*"), ("int", 0)), key=repr))
    body, both = tuple(merge_str(body)), tuple(merge_str(list(sep) + list(body)))
    if not sep:
        return ("loop", frozenset({(body, frozenset({frozenset({each})}))}))
    return ("loop", frozenset({
        (body, frozenset({frozenset({each, ("t", first)})})),
        (both, frozenset({frozenset({each, ("f", first)})})),
    }))


def separated(seq):
    """the ways of writing the elements of x with a separator between, as one"""
    out = []
    for x in seq:
        if x[0] != "loop":
            out.append(x)
            continue
        # the separator after all but the last
        if len(x[1]) == 2:
            (k1, d1), (k2, d2) = sorted(x[1], key=lambda kd: len(split_chars(kd[0])))
            b, e = split_chars(k1), split_chars(k2)
            if b and e[: len(b)] == b and all(y[0] == "str" for y in e[len(b):]) and len(d1) == len(d2) == 1:
                (c1,), (c2,) = d1, d2
                l1 = sorted(l for l in c1 if l[0] == "has")
                if len(c1) == len(c2) == 2 and len(l1) == 1 and l1[0] in c2 and l1[0][1] == "each" and l1[0][3] == 0:
                    o = l1[0][2]
                    last = ("eq",) + tuple(sorted((("call", "len", o), ("sum", 1, (1, ("[#]", o, "*")))), key=repr))
                    if ("t", last) in c1 and ("f", last) in c2:
                        x = sep_loop(o, b, e[len(b):])
        # the first, then the separator and an element for the others
        be = only_each(x)
        if be and be[1][:2] == ("call", "slice") and be[1][3:] == (("int", 1), ("raw", "None")):
            o = be[1][2]
            body = split_chars(be[0])
            prev = split_chars(out)
            for n in range(len(body), -1, -1):
                b = body[n:]
                if not any(y[0] != "str" for y in b):
                    continue
                h = [put(y, ("[*]", be[1], "*"), ("call", "index", o, ("int", 0))) for y in b]
                if h != b and prev[-len(h):] == h:
                    out = merge_str(prev[: -len(h)])
                    x = sep_loop(o, [put(y, ("[*]", be[1], "*"), ("[*]", o, "*")) for y in b], body[:n])
                    break
        out.append(x)
    # an element and the separator for all but the last, then the last
    i = 0
    while i < len(out):
        be = only_each(out[i])
        if be and be[1][:2] == ("call", "slice") and be[1][3:] == (("int", 0), ("sum", -1, (1, ("call", "len", be[1][2])))):
            o = be[1][2]
            body = split_chars(be[0])
            post = split_chars(out[i + 1:])
            for n in range(len(body), 0, -1):
                b = body[:n]
                if not any(y[0] != "str" for y in b):
                    break
                h = [put(y, ("[*]", be[1], "*"), ("call", "index", o, be[1][4])) for y in b]
                if h != b and post[: len(h)] == h:
                    out[i:] = [sep_loop(o, [put(y, ("[*]", be[1], "*"), ("[*]", o, "*")) for y in b], body[n:])] + merge_str(post[len(h):])
                    break
        i += 1
    return out


def shifted(seq, over):
    """with at least one element, what is written before the first may belong to it or not"""
    out = []
    for i, x in enumerate(seq):
        if x[0] != "loop" or not loop_over(x, over) or len(x[1]) != 2:
            continue
        first = ("t", ("eq",) + tuple(sorted((("[#]", over, "*"), ("int", 0)), key=repr)))
        fs = [(k, d) for k, d in x[1] if all(first in c for c in d)]
        if len(fs) != 1:
            continue
        ((f, d),) = fs
        rest = x[1] - {(f, d)}
        p, f = split_chars(seq[:i]), split_chars(f)
        for n in range(1, len(p) + 1):
            if p[-n][0] != "str":
                break
            out.append((p[:-n], p[-n:] + f))
        for n in range(1, len(f) + 1):
            if f[n - 1][0] != "str":
                break
            out.append((p + f[:n], f[n:]))
        out = [tuple(merge_str(a + [("loop", rest | {(tuple(merge_str(b)), d)})] + list(seq[i + 1:]))) for a, b in out]
        break
    return out


def terminated(seq, over):
    """an element and a terminator for each of x, which is not empty: separators between, and one more"""
    out = []
    hit = False
    for x in seq:
        be = only_each(x)
        if not hit and be and be[1] == over and be[0][-1][0] == "str" and len(be[0]) > 1:
            hit = True
            out += [sep_loop(over, list(be[0][:-1]), [be[0][-1]]), be[0][-1]]
        else:
            out.append(x)
    return tuple(merge_str(out)) if hit else None


def loop_over(loop, over):
    return all(any(l[0] == "has" and l[1] == "each" and l[2] == over for l in c) for _, d in loop[1] for c in d)


def chain(t):
    """a place and the places it is part of"""
    while is_t(t):
        yield t
        if t.op not in ("field", "vf", "index", "mslot"):
            return
        t = t.args[0]


def voids(it, k, b):
    if it.op != "over":
        return False
    x = it.args[0]
    if k.op == "empty":
        return b is True and k.args[0] is x
    for y in subterms(x):
        if y.op == "vf" and y.args[0] is k and y.args[1] != b:
            return True
        if y.op == "mslot" and k.op == "contains" and k.args == y.args and b is False:
            return True
    return False


def tidy(c):
    """an element was met: the container is there and not empty"""
    drop = set()
    for k, v in c:
        if k.op == "has" and v in ("each", "first") and k.args[0].op == "over":
            x = k.args[0].args[0]
            drop.add((mk("empty", x), False))
            for y in subterms(x):
                if y.op == "vf":
                    drop.add((y.args[0], y.args[1]))
                elif y.op == "mslot":
                    drop.add((mk("contains", y.args[0], y.args[1]), True))
    return c - drop if drop else c


def drop_contra(c):
    seen = {}
    for k, v in c:
        if k in seen and seen[k] != v:
            return None
        seen[k] = v
    return c


# ---- text form ----------------------------------------------------------
def row_ast(n, a):
    if n == "leave":
        return ("row", n, lit_ast(a[0], "leave")[2])
    return ("row", n) + tuple(ast(x) for x in a)


def row_txt(r, names=None):
    return r[1] + "(" + ", ".join(txt(x, names) for x in r[2:]) + ")"


def ast(t):
    """plain-tuple form of a term: ('op', ...) with the common shapes folded"""
    if isinstance(t, tuple):
        return ("tuple",) + tuple(ast(x) for x in t)
    if not is_t(t):
        return ("raw", str(t))
    r = _ast.get(t)
    if r is None:
        r = _ast[t] = _mkast(t)
    return r


_ast = {}


def _mkast(t):
    o, a = t.op, t.args
    if o == "sym":
        return ("id", a[0])
    if o == "int":
        return ("int", a[0])
    if o == "bool":
        return ("id", "true" if a[0] else "false")
    if o == "char":
        return ("str", chr(a[0]))
    if o == "str":
        return ("str", a[0])
    if o == "field":
        return (".", ast(a[0]), a[1])
    if o == "vf":
        return (".", (".", ast(a[0]), a[1]), a[2])
    if o == "agg":
        nm = a[0].split("::")[-1]
        if a[1] != nm:
            nm = a[1] if a[0] in (OPT, RES) else nm + "::" + a[1]
        if a[0] == "crate::error::Error":
            # the wording of a message is not part of any contract
            return ("agg", nm)
        return ("agg", nm) + tuple((n, ast(x)) for n, x in a[2])
    if o == "tup":
        return ("tuple",) + tuple(ast(x) for x in a)
    if o == "seq":
        return ("seq",) + tuple(ast(x) for x in a)
    if o == "elem":
        k = a[1] if len(a) > 1 else 0
        n = a[2] if len(a) > 2 else 0
        tag = "*" + ("" if not k else str(k)) + ("" if not n else "+%d" % n)
        if a[0].op == "over":
            return ("[*]", ast(a[0].args[0]), tag)
        if a[0].op == "range" and a[0].args[0] is ZERO and a[0].args[1].op == "len":
            return ("[#]", ast(a[0].args[1].args[0]), tag)
        return ("[*]", ast(a[0]), tag)
    if o == "loc":
        return ("loc", ".".join(str(x) for x in a))
    if o == "fn":
        return ("id", a[0].split("::")[-1] + (gargs(a[1]) if a[0].startswith("crate::parsers::") else ""))
    if o == "clo":
        return ("id", "closure")
    if o == "bound":
        return ("id", "p%d" % a[0])
    if o == "when":
        return lit_ast(a[0], a[1])
    if o == "lam":
        return ("call", "fn%d" % a[0]) + tuple(ast(x) for x in a[1:])
    if o == "disp":
        return ("call", "disp", ast(a[1]))
    if o == "call":
        return ("call", short(a[0]) + (gargs(a[2]) if len(a) > 2 else "")) + tuple(ast(x) for x in a[1])
    if o == "sum":
        xs = []
        for c, x in a[0]:
            xs.append((c, ast(x)))
        return ("sum", a[1]) + tuple(sorted(xs, key=repr))
    if o in ("eq", "and", "or", "ptreq"):
        return (o,) + tuple(sorted((ast(x) for x in a), key=repr))
    if o in ("min", "max"):
        return ("call", o) + tuple(sorted((ast(x) for x in a), key=repr))
    out = [o]
    for x in a:
        out.append(ast(x) if not isinstance(x, (str, int)) or is_t(x) else ("raw", str(x)))
    return ("call",) + tuple(out)


def gargs(ts):
    """type arguments that say which notation is meant"""
    ts = [t[1].split("::")[-1] for t in ts if isinstance(t, tuple) and t and t[0] in ("adt", "param")]
    return "<" + ",".join(ts) + ">" if ts else ""


def txt(x, names=None):
    o = x[0]
    if o == "id" or o == "raw":
        return x[1]
    if o == "int":
        return str(x[1])
    if o == "?":
        return "?" + x[1]
    if o == "str":
        return '"' + x[1].replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\0", "\\0") + '"'
    if o == ".":
        return txt(x[1], names) + "." + x[2]
    if o == "agg":
        return x[1] + "{" + ",".join(f"{n}:{txt(y, names)}" for n, y in x[2:]) + "}"
    if o == "tuple":
        return "(" + ",".join(txt(y, names) for y in x[1:]) + ")"
    if o == "seq":
        return "[" + ",".join(txt(y, names) for y in x[1:]) + "]"
    if o == "[*]":
        return txt(x[1], names) + "[" + x[2] + "]"
    if o == "[#]":
        return "#(" + txt(x[1], names) + ")" + ("" if x[2] == "*" else x[2])
    if o == "loop":
        alts = sorted("[" + ", ".join(txt(y, names) for y in sq) + "] if " + " | ".join(sorted(cube_txt(c, names) for c in d)) for sq, d in x[1])
        return "loop{" + " ; ".join(alts) + "}"
    if o == "loc":
        return names.get(x[1], "$" + x[1]) if names else "$" + x[1]
    if o == "call":
        return x[1] + "(" + ",".join(txt(y, names) for y in x[2:]) + ")"
    if o == "sum":
        s = ""
        for c, y in x[2:]:
            s += ("+" if c > 0 else "-") + ("" if abs(c) == 1 else "%d*" % abs(c)) + txt(y, names)
        if x[1]:
            s += "%+d" % x[1]
        return "(" + s.lstrip("+") + ")"
    return o + "(" + ",".join(txt(y, names) for y in x[1:]) + ")"


def lit_ast(k, v):
    if k.op == "has":
        it = k.args[0]
        x = ast(it.args[0]) if it.op == "over" else ast(it)
        kk = k.args[1] if len(k.args) > 1 else 0
        return ("has", v, x, kk)
    if isinstance(v, bool):
        return ("t" if v else "f", ast(k))
    return ("is", v, ast(k))


def lit_txt(l, names=None):
    if l[0] == "has":
        return f"{l[1]} {txt(l[2], names)}" + (f"*{l[3]}" if l[3] else "")
    if l[0] == "is":
        return f"{txt(l[2], names)}~{l[1]}"
    return ("" if l[0] == "t" else "!") + txt(l[1], names)


def cube_txt(c, names=None):
    return " & ".join(sorted(lit_txt(l, names) for l in c)) or "always"


def show_dnf(d):
    return " | ".join(sorted(cube_txt([lit_ast(k, v) for k, v in c]) for c in d)) if d else "never"


def dump(fl, W=400, names=()):
    for n, a, d, sites in sorted(fl.rows(), key=lambda r: (r[0] == "ret", r[0])):
        print(row_txt(row_ast(n, a))[:W], "@%s" % (sorted(sites)[0][1] if sites else ""))
        for c in sorted(cube_txt([lit_ast(k, v) for k, v in c]) for c in d):
            print("     if", c[: 2 * W])
    for r, d in fl.out_rows():
        print(row_txt(r)[:W])
        for c in sorted(cube_txt(c) for c in d):
            print("     if", c[: 2 * W])
    for (n, a), r in fl.panics.items():
        print("PANIC", n, ", ".join(txt(ast(x))[:W] if is_t(x) else str(x) for x in a), sorted(r["sites"])[0][:2])
