"""The notation a set of nom parser functions accepts, as a parsing expression.

Each parser function is summarised by the engine with every other parser
function left as a call.  A path that returns Ok((rest, value)) is a sequence
of parsing steps threading the input; combinators, helper functions and
closures are flattened, so that the result is one expression per recursive
rule, independent of how the code is cut into functions.

  expression = ("lit", s) | ("till", class) | ("until", s) | ("satisfy", class)
             | ("eof",) | ("ws",) | ("alt", e..) | ("many1", e) | ("many0", e)
             | ("not", e) | ("peek", e) | ("opt", e) | ("list", e, sep)
             | ("all", e) | ("recognize", e) | ("rule", n)
             | ("seq", (e..), value)      value refers to step i as ("$", i)
             | ("choice", {(guards, e)})  guarded alternatives
"""
from .terms import *
from . import facts as F
from .engine import Engine, tystr
from .flat import Flat, ast, txt, lit, erase, lit_ast, cube_txt, rooted_local, insets
from . import flat as FL


# leave some of the text at its end unread
CUTS = {"str::trim_end", "str::trim", "str::trim_end_matches", "str::trim_matches"}


class PegFail(Exception):
    pass


def is_parser_fn(fn):
    """fn(&str) -> Result<(&str, O), nom::Err<..>>"""
    r = fn.facts.ty(fn.locals[0])
    return r[0] == "adt" and r[1] == RES and len(r[2]) == 2 and F.head(r[2][1]) == "nom::internal::Err" and r[2][0][0] == "tuple"


class Peg:
    LEAVES = {"crate::parsers::whitespace_plus_comments": "ws"}
    LIST = "crate::parsers::nom_xt::xt_list_with_separator"
    PURE = ("crate::parsers::grammar_has_extended_syntax", "crate::parsers::normalize_parsed_grammar")

    def __init__(self, crate, models, fmt=None):
        self.crate = crate
        self.models = models
        self.env = {"F": ("adt", fmt, ())} if fmt else {}
        self.parsers = {p for p, f in crate.fns.items() if is_parser_fn(f) and "{closure" not in p and f.argc == 1}
        self.rules = {}  # key -> expr or None while open
        self.refs = {}  # key -> number
        self.used = set()  # rule keys referenced while open (recursive)
        self.sites = {}

    # -- one function -------------------------------------------------------
    def engine(self):
        E = Engine(self.crate, self.models, barriers=(self.parsers | {self.LIST} | set(self.PURE)))
        E.keep_targs = True
        return E

    def rule(self, path, targs=()):
        if path in self.LEAVES:
            return (self.LEAVES[path],)
        if path == "nom::combinator::eof" or path.endswith("::eof"):
            return ("eof",)
        if path.startswith("nom::"):
            return ("nomfn", path)
        key = (path, tuple(tystr(t) for t in targs))
        if key in self.rules:
            e = self.rules[key]
            if e is None:
                if key not in self.refs:
                    self.refs[key] = len(self.refs)
                return ("rule", self.refs[key])
            return ("rule", self.refs[key]) if key in self.refs else e
        fn = self.crate.fns.get(path)
        if fn is None:
            return ("ext", path)
        self.rules[key] = None
        env = {}
        for n, t in zip(fn.g, targs):
            env[n] = t
        if not env:
            env = dict(self.env)
        E = self.engine()
        E.barriers.discard(path)
        summ = E.summarize(path, env=env)
        e = self.of_summary(summ)
        self.rules[key] = e
        return ("rule", self.refs[key]) if key in self.refs else e

    def of_summary(self, summ):
        fl = Flat(summ)
        self.fl = fl
        alts = {}
        fails = {}
        ents = []
        for p in summ.paths:
            if p.kind == "panic" or Flat.wf(p.items):
                continue
            r = self.path(p, fl)
            if r is None:
                continue
            if r[1] is None:
                fails.setdefault(r[2], set()).add(r[0])
            else:
                ents.append(r)
        for conds, elems, val in self.ordered(ents):
            alts.setdefault(self.seq(elems, val), set()).add(conds)
        out = []
        for e, cubes in list(alts.items()) + list(fails.items()):
            d = self.dnf(cubes)
            out.append((d, e))
        if len(out) == 1 and out[0][0] == frozenset({frozenset()}):
            return out[0][1]
        return ("choice", frozenset(out))

    def ordered(self, ents):
        """y where x failed at the same place: the ordered alternative x / y"""
        ents = [(frozenset(c), tuple(es), v) for c, es, v in ents]
        ents = list(dict.fromkeys(ents))
        again = True
        while again:
            again = False
            for b in ents:
                for l in b[0]:
                    if not (l[0] == "t" and isinstance(l[1], tuple) and l[1][0] == "fails"):
                        continue
                    _, x, k = l[1]
                    for a in ents:
                        if a is b or a[0] != b[0] - {l} or len(a[1]) != len(b[1]) or k >= len(a[1]):
                            continue
                        xa = a[1][k]
                        if xa != x and xa != ("peek", x) or a[1][:k] != b[1][:k] or a[1][k + 1 :] != b[1][k + 1 :]:
                            continue
                        y = b[1][k]
                        if a[2] == b[2]:
                            new = (a[0], a[1][:k] + (self.either(xa, y),) + a[1][k + 1 :], a[2])
                        elif len(a[1]) == 1:
                            new = (a[0], (self.either(self.seq([xa], a[2]), self.seq([y], b[2])),), ("$", 0))
                        else:
                            continue
                        ents = [e for e in ents if e is not a and e is not b]
                        if new not in ents:
                            ents.append(new)
                        again = True
                        break
                    if again:
                        break
                if again:
                    break
        return ents

    def either(self, x, y):
        return ("alt",) + (x[1:] if x[0] == "alt" else (x,)) + (y[1:] if y[0] == "alt" else (y,))

    def dnf(self, cubes):
        """absorb and merge complementary guards"""
        cubes = set(cubes)
        changed = True
        while changed:
            changed = False
            for c in list(cubes):
                for d in list(cubes):
                    if c < d:
                        cubes.discard(d)
                        changed = True
                        continue
                    for l in c:
                        if l[0] in ("t", "f"):
                            n = ("f" if l[0] == "t" else "t",) + l[1:]
                            if n in d and (c - {l}) <= (d - {n}):
                                cubes.discard(d)
                                cubes.add(d - {n})
                                changed = True
                                break
                    if changed:
                        break
                if changed:
                    break
        return frozenset(cubes)

    def step_of(self, t):
        """(P, I) of a parse result term"""
        if t.op == "parse":
            return t.args[0], t.args[1]
        if t.op in ("strip", "starts") and self.on_input(t.args[0]):
            return mk("strip", t.args[1]), t.args[0]
        if t.op == "call" and t.args[0] == "str::strip_suffix" and self.on_input(t.args[1][0]):
            return mk("cut", t.args[0], *t.args[1][1:]), t.args[1][0]
        if t.op == "call" and t.args[0] in self.parsers and len(t.args[1]) == 1:
            targs = t.args[2] if len(t.args) > 2 else ()
            return mk("fn", t.args[0], tuple(targs), t.args[0], tuple(targs)), t.args[1][0]
        if t.op == "call" and t.args[0] == "rec:" :
            return None
        return None

    def rest_of(self, t):
        """the step whose remaining input t is"""
        if t.op == "rest":
            return t.args[0], t.args[1]
        if t.op == "after" and self.on_input(t.args[0]):
            return mk("strip", t.args[1]), t.args[0]
        if t.op == "vf" and t.args[1] == "Some" and t.args[0].op == "call" and t.args[0].args[0] == "str::strip_suffix":
            return self.step_of(t.args[0])
        if t.op == "field" and t.args[1] == "0":
            b = t.args[0]
            if b.op == "vf" and b.args[1] == "Ok" and b.args[2] == "0":
                return self.step_of(b.args[0])
        return None

    def is_err(self, t):
        return t.op == "perr" or (t.op == "vf" and t.args[1] == "Err" and self.step_of(t.args[0]) is not None)

    def on_input(self, t):
        return self.rest_of(t) is not None or (t.op == "sym" and t.args[0] == "a1")

    def skipping(self, t):
        """text left by dropping a class of characters from the front: the rest of a step that cannot fail"""

        def f(x):
            if x.op == "trimstart":
                i = rewrite(x.args[0], f)
                if self.on_input(i):
                    return mk("rest", mk("skip", x.args[1]), i)
            if x.op == "call" and x.args[0] in CUTS and len(x.args[1]) >= 1:
                i = rewrite(x.args[1][0], f)
                if self.on_input(i):
                    # blanks at the very end are skipped anyway; anything else that goes unread is not
                    j = i if x.args[0] in ("str::trim_end", "str::trim") else mk("rest", mk("cut", x.args[0], *x.args[1][1:]), i)
                    return mk("rest", mk("skip", mk("cls", "whitespace")), j) if x.args[0] == "str::trim" else j
            return None

        return rewrite(t, f) if isinstance(t, T) else t

    def path(self, p, fl):
        p = Skipped(p, self.skipping)
        steps = []  # (P, I, ok)

        def skips(i):
            """the skipping steps a text has behind it"""
            r = self.rest_of(i)
            if r is not None:
                skips(r[1])
                if r[0].op in ("skip", "cut") and all(s[:2] != r for s in steps):
                    steps.append((r[0], r[1], True))

        conds = set()
        tests = []  # variant tests on what a step has read
        for it in p.items:
            if it[0] != "c":
                continue
            t, b = it[1], it[2]
            if t.op == "starts" and self.step_of(t) is not None:
                s = self.step_of(t)
                skips(s[1])
                steps.append((s[0], s[1], b))
                continue
            if t.op == "empty" and self.on_input(t.args[0]):
                skips(t.args[0])
                steps.append((mk("nom", "eof"), t.args[0], b))
                continue
            if t.op == "is" and self.is_err(t.args[0]) and t.args[1] in ("Error", "Failure", "Incomplete"):
                # no step asks for more input or rules out the alternatives
                if (t.args[1] == "Error") != b:
                    return None
                continue
            if t.op == "is":
                s = self.step_of(t.args[0])
                if s is not None:
                    skips(s[1])
                    steps.append((s[0], s[1], (t.args[1] in ("Ok", "Some")) == b))
                    continue
                tests.append((t, b))
                continue
            l = fl.lits(t, b, None)
            if l:
                conds.add(l)
        v = p.val
        tail = self.step_of(v)
        if tail is not None:
            skips(tail[1])
            i = next((i for i, x in enumerate(steps) if x[:2] == tail), None)
            if i is None:
                i = len(steps)
                steps.append((tail[0], tail[1], True))
            elif not steps[i][2]:
                return None
            ret_rest = ("after", tail)
            val = mk("stepval", i)
        elif v.op == "agg" and v.args[1] == "Ok":
            tup = v.args[2][0][1]
            if tup.op != "tup":
                raise PegFail("result is not a pair: " + show(tup)[:200])
            skips(tup.args[0])
            r = self.rest_of(tup.args[0])
            ret_rest = ("after", r) if r is not None else ("at", tup.args[0])
            val = tup.args[1]
        elif v.op == "agg" and v.args[1] == "Err":
            e = v.args[2][0][1]
            if steps and not steps[-1][2]:
                P, I, _ = steps[-1]
                if P.op == "strip":
                    raise PegFail("an error made up after " + show(P)[:100])
                if e.op == "perr" and e.args == (P, I):
                    return None
                if e.op == "vf" and e.args[1] == "Err" and self.step_of(e.args[0]) == (P, I):
                    return None
            ret_rest = None
            val = None
            errv = e
        else:
            raise PegFail("result " + show(v)[:200])
        # chain of consuming steps from the end back to the start
        idx = {(P, I): i for i, (P, I, _) in enumerate(steps)}
        chain = []
        if ret_rest is not None:
            if ret_rest[0] == "at":
                cur = ret_rest[1]
            else:
                k = ret_rest[1]
                if k not in idx:
                    raise PegFail("rest of an unknown step")
                chain.append(idx[k])
                cur = k[1]
            while True:
                r = self.rest_of(cur)
                if r is None:
                    break
                if r not in idx:
                    raise PegFail("rest of an unknown step")
                chain.append(idx[r])
                cur = r[1]
            if not (cur.op == "sym" and cur.args[0] == "a1"):
                raise PegFail("input is " + show(cur)[:200])
        chain.reverse()
        elems = []
        where = {}
        pos_after = {}
        for i, (P, I, okk) in enumerate(steps):
            e = self.expr(P)
            if okk and i in chain:
                where[i] = len(elems)
                elems.append(e)
            elif okk:
                where[i] = len(elems)
                elems.append(("peek", e))
            else:
                conds.add((("fails", e, self.at(I, idx, where)), True))
        for t, b in tests:
            a = self.value(t.args[0], idx, where, steps, fl)
            if a[0] == "$" and elems[a[1]][0] == "seq" and elems[a[1]][2][0] == "agg":
                # the step builds one variant only
                if (elems[a[1]][2][1].split("::")[-1] == t.args[1]) != b:
                    return None
                continue
            l = fl.lits(t, b, None)
            if l:
                conds.add(l)
        guards = frozenset(self.guard(c) for c in conds)
        if val is None:
            return guards, None, ("fail", ast(erase(errv)), tuple(elems))
        val = self.value(val, idx, where, steps, fl)
        return guards, elems, val

    def at(self, I, idx, where):
        """how many elements are read before I"""
        r = self.rest_of(I)
        return 0 if r is None else 1 + where.get(idx.get(r), 98)

    def guard(self, c):
        k, v = c
        if isinstance(k, tuple):
            return ("t" if v else "f", k)
        return lit_ast(k, v)

    def value(self, t, idx, where, steps, fl):
        def f(x):
            if x.op == "stepval":
                return mk("sym", "$%d" % where[x.args[0]])
            if x.op == "got" and (x.args[0], x.args[1]) in idx:
                return mk("sym", "$%d" % where[idx[(x.args[0], x.args[1])]])
            if x.op == "field" and x.args[1] == "1":
                b = x.args[0]
                if b.op == "vf" and b.args[1] == "Ok" and b.args[2] == "0":
                    s = self.step_of(b.args[0])
                    if s in idx:
                        return mk("sym", "$%d" % where[idx[s]])
            return None

        def storage(x):
            """a vector filled by copying another one: concatenation"""
            if x.op == "lv" and x.args[1].op == "loc":
                loc = x.args[1]
                ini = [a[1] for (n, a), r in fl.raw.items() if n == "init" and a[0] is loc]
                push = [(a[1], r["cubes"]) for (n, a), r in fl.raw.items() if n == "push" and a[0] is loc]
                if len(ini) == 1 and ini[0].op == "seq" and len(push) == 1 and push[0][0].op == "elem" and push[0][0].args[0].op == "over":
                    src = push[0][0].args[0].args[0]
                    want = mk("has", push[0][0].args[0], *push[0][0].args[1:])
                    own = {push[0][0], loc}  # what is copied, and what was so far
                    if all([c for c in cube if c[0].op == "has"] == [(want, "each")] for cube in push[0][1]) and not any(
                        s in own for cube in push[0][1] for c in cube if c[0] is not want for s in subterms(c[0])
                    ):
                        return mk("concat", rewrite(ini[0], f), rewrite(src, f))
            return None

        def changed(x):
            """what was read and then changed is not what was read"""
            if x.op not in FL.VERSIONED:
                return None
            b = x
            while b.op in FL.VERSIONED:
                b = b.args[0]
            if b.op == "lv" or rooted_local(erase(b)):
                return None
            old = rewrite(x.args[0], g)
            new = [rewrite(y, g) for y in x.args[1:]]
            if x.op == "push":
                return mk("concat", old, mk("seq", new[0]))
            if x.op == "vinsert" and new[0] is ZERO:
                return mk("concat", mk("seq", new[1]), old)
            return mk("changed", x.op, old, *new)

        def g(x):
            return f(x) or storage(x) or changed(x)

        t = rewrite(t, g)
        return dollar(ast(erase(t)))

    # -- combinators ----------------------------------------------------------
    def expr(self, P):
        if P.op == "strip":
            return ("lit", P.args[0].args[0]) if P.args[0].op == "str" else ("satisfy", txt(ast(erase(P.args[0]))))
        if P.op == "cut":
            return ("skip", "the end: " + txt(ast(erase(mk("call", P.args[0], tuple(P.args[1:]))))))
        if P.op == "skip":
            return ("skip", txt(ast(erase(P.args[0]))))
        if P.op == "fn":
            return self.rule(P.args[0], P.args[1])
        if P.op == "call" and P.args[0] == self.LIST:
            return ("list", self.expr(P.args[1][0]), novalue(self.expr(P.args[1][1])))
        if P.op == "tup":
            es = [self.expr(x) for x in P.args]
            return self.seq(es, ("tuple",) + tuple(("$", i) for i in range(len(es))))
        if P.op != "nom":
            if P.op == "clo":
                return self.closure(P)
            return ("?", txt(ast(erase(P))))
        n = P.args[0].split("::")[-1]
        a = P.args[1:]
        if n in ("tag", "char"):
            x = a[0]
            if x.op == "str":
                return ("lit", x.args[0])
            if x.op == "char":
                return ("lit", chr(x.args[0]))
            return ("lit", txt(ast(erase(x))))
        if n == "alt":
            es = a[0].args if a[0].op in ("tup", "seq") else a
            out = []
            for x in es:
                e = self.expr(x)
                out += list(e[1:]) if e[0] == "alt" else [e]
            return ("alt",) + tuple(out)
        if n == "delimited":
            return self.seq([self.expr(x) for x in a], ("$", 1))
        if n == "preceded":
            return self.seq([self.expr(x) for x in a], ("$", 1))
        if n == "terminated":
            return self.seq([self.expr(x) for x in a], ("$", 0))
        if n in ("pair",):
            return self.seq([self.expr(x) for x in a], ("tuple", ("$", 0), ("$", 1)))
        if n == "separated_pair":
            return self.seq([self.expr(x) for x in a], ("tuple", ("$", 0), ("$", 2)))
        if n in ("many1", "many0", "peek"):
            return (n, self.expr(a[0]))
        if n in ("opt",):
            return (n, self.expr(a[0]))
        if n in ("not", "recognize"):
            return (n, novalue(self.expr(a[0])))
        if n == "map" and len(a) == 2 and a[1].op in ("clo", "fn"):
            return self.mapped(self.expr(a[0]), a[1])
        if n == "value" and len(a) == 2:
            return self.seq([self.expr(a[1])], ast(erase(a[0])))
        if n == "all_consuming":
            return ("all", self.expr(a[0]))
        if n == "take_till":
            return ("till", predtxt(a[0]))
        if n == "take_while":
            return ("while", predtxt(a[0]))
        if n == "satisfy":
            return ("satisfy", predtxt(a[0]))
        if n == "take_until":
            return ("until", txt(ast(a[0])))
        if n == "eof":
            return ("eof",)
        return ("nom", n) + tuple(self.expr(x) if x.op in ("nom", "fn", "clo") else ("val", txt(ast(erase(x)))) for x in a)

    def apply(self, f, arg):
        from .engine import St, Ctx, Summary

        E = self.engine()
        st = St()
        c = Ctx()
        c.E = E
        c.fr = None
        c.site = ("?", 0, "")
        c.at = [("prim", "str")]
        c.dt = ("prim", "?")
        return E, E.call_value(st, f, [arg], c)

    def closure(self, P):
        """a closure used as a parser"""
        E, outs = self.apply(P, sym("a1"))
        from .engine import Summary

        return self.of_summary(Summary(E, E.closure_fn(P), outs, {}))

    def mapped(self, e, f):
        E, outs = self.apply(f, sym("$0"))
        rets = [(st, v) for k, st, v in outs if k == "ret"]
        if len(rets) != 1 or len(outs) != 1:
            return ("nom", "map", e, ("val", txt(ast(erase(f)))))
        st, v = rets[0]
        return self.seq([e], dollar(ast(erase(E.deep(st, v)))))

    def seq(self, elems, val):
        """flatten nested sequences, drop values nobody uses"""
        out = []
        m = {}
        used = dollars(val, set())
        for i, e in enumerate(elems):
            if i not in used:
                e = novalue(e)
                while e[0] == "peek" and reads_nothing(e[1]):
                    e = e[1]
            if e[0] == "seq":
                base = len(out)
                out += list(e[1])
                m[i] = shift(e[2], base)
            else:
                out.append(e)
                m[i] = ("$", len(out) - 1)
        val = project(subst_dollar(val, m))
        if len(out) == 1 and val == ("$", 0):
            return out[0]
        return ("seq", tuple(out), val)


UNITV = ("tuple",)


def reads_nothing(e):
    if e[0] in ("peek", "not", "eof"):
        return True
    if e[0] == "alt":
        return all(reads_nothing(x) for x in e[1:])
    if e[0] == "seq":
        return all(reads_nothing(x) for x in e[1])
    if e[0] == "choice":
        return all(reads_nothing(x) for _, x in e[1])
    return e[0] == "fail"


def project(a):
    """what was just put into a variant and taken out again"""
    if not isinstance(a, tuple):
        return a
    a = tuple(project(x) for x in a)
    if len(a) == 3 and a[0] == "." and isinstance(a[1], tuple):
        b = a[1]
        if b[0] == "." and len(b) == 3 and isinstance(b[1], tuple) and b[1][0] == "agg" and b[1][1].split("::")[-1] == b[2]:
            b = b[1]
        if b[0] == "agg":
            for x in b[2:]:
                if x[0] == a[2]:
                    return x[1]
        if b[0] == "tuple" and str(a[2]).isdigit() and int(a[2]) + 1 < len(b):
            return b[int(a[2]) + 1]
    return a


def bisimilar(e1, r1, e2, r2):
    """do two notations read the same, wherever their recursion is cut"""
    seen = set()

    def go(a, b):
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            if isinstance(a, frozenset) and isinstance(b, frozenset):
                return match(a, b)
            return a == b
        ra, rb = len(a) == 2 and a[0] == "rule", len(b) == 2 and b[0] == "rule"
        if ra or rb:
            if (a, b) in seen:
                return True
            seen.add((a, b))
            return go(r1[a[1]] if ra else a, r2[b[1]] if rb else b)
        return len(a) == len(b) and all(go(x, y) for x, y in zip(a, b))

    def match(a, b):
        a, b = sorted(a, key=repr), sorted(b, key=repr)
        if len(a) != len(b):
            return False
        for x in a:
            hit = None
            for y in b:
                keep = set(seen)
                if go(x, y):
                    hit = y
                    break
                seen.clear()
                seen.update(keep)
            if hit is None:
                return False
            b.remove(hit)
        return True

    return go(e1, e2)


def novalue(e):
    """e where only acceptance matters"""
    if e[0] == "recognize":
        return novalue(e[1])
    if e[0] == "seq":
        es = tuple(novalue(x) for x in e[1])
        flat = []
        for x in es:
            flat += list(x[1]) if x[0] == "seq" else [x]
        return flat[0] if len(flat) == 1 else ("seq", tuple(flat), UNITV)
    if e[0] in ("alt", "many1", "many0", "opt", "not", "peek", "all"):
        return (e[0],) + tuple(novalue(x) for x in e[1:])
    if e[0] == "list":
        return (e[0], novalue(e[1]), novalue(e[2]))
    return e


def dollar(a):
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == "id" and isinstance(a[1], str) and a[1].startswith("$"):
            return ("$", int(a[1][1:]))
        return tuple(dollar(x) for x in a)
    return a


def dollars(a, out):
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == "$":
            out.add(a[1])
        else:
            for x in a:
                dollars(x, out)
    return out


def shift(a, n):
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == "$":
            return ("$", a[1] + n)
        return tuple(shift(x, n) for x in a)
    return a


def subst_dollar(a, m):
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == "$":
            return m[a[1]]
        return tuple(subst_dollar(x, m) for x in a)
    return a


def predtxt(t):
    if t.op == "cls":
        return "{cls:" + t.args[0] + "}"
    if t.op == "clspred":
        return "{" + "|".join("&".join(x) for x in t.args[0]) + "}"
    return txt(ast(erase(t)))


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def vtxt(a):
    def f(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "$":
                return ("id", "$%d" % x[1])
            return tuple(f(y) for y in x)
        return x

    return txt(f(a))


def show_peg(e, ind=0):
    o = e[0]
    if o == "lit":
        return q(e[1])
    if o in ("eof", "ws"):
        return o
    if o == "rule":
        return "R%d" % e[1]
    if o in ("till", "while", "satisfy", "until"):
        return f"{o}({e[1]})"
    if o == "seq":
        s = " ".join(show_peg(x) for x in e[1])
        return "(" + s + (")" if e[2] == UNITV else " -> " + vtxt(e[2]) + ")")
    if o == "alt":
        return "(" + " / ".join(show_peg(x) for x in e[1:]) + ")"
    if o == "choice":
        alts = []
        for d, x in e[1]:
            g = " | ".join(sorted(" & ".join(sorted(guard_txt(l) for l in c)) or "always" for c in d))
            alts.append(f"[{g}] {show_peg(x)}")
        return "{" + " || ".join(sorted(alts)) + "}"
    if o == "fail":
        return "fail(" + vtxt(e[1]) + ")"
    if o in ("ext", "?", "nomfn", "val"):
        return f"{o}:{e[1]}"
    return o + "(" + ", ".join(show_peg(x) if isinstance(x, tuple) else str(x) for x in e[1:]) + ")"


def guard_txt(l):
    if isinstance(l[1], tuple) and l[1] and l[1][0] == "fails":
        return ("" if l[0] == "t" else "!") + f"fails({show_peg(l[1][1])}@{l[1][2]})"
    return FL.lit_txt(l)


def norm(e, rules):
    """one form for the same notation"""

    def first(e, open=()):
        """the ways a text read by e can begin, None when not known"""
        o = e[0]
        if o == "lit":
            return {e[1][:1]} if e[1] else None
        if o == "satisfy":
            return {e[1]}
        if o in ("peek", "many1", "list", "recognize"):
            return first(e[1], open)
        if o == "seq":
            return first(e[1][0], open) if e[1] else None
        if o == "alt":
            r = set()
            for x in e[1:]:
                f = first(x, open)
                if f is None:
                    return None
                r |= f
            return r
        if o == "rule" and e[1] not in open:
            return first(rules[e[1]], open + (e[1],))
        return None

    def apart(a, b):
        fa, fb = first(a), first(b)
        if fa is None or fb is None:
            return False
        for x in fa:
            for y in fb:
                if len(x) == 1 and len(y) == 1:
                    if x == y:
                        return False
                elif len(x) == 1 or len(y) == 1:
                    c, k = (x, y) if len(x) == 1 else (y, x)
                    if k != "{cls:alphabetic}" or c.isalpha():
                        return False
                else:
                    return False
        return True

    def begins_ws(e):
        if e[0] == "ws":
            return True
        if e[0] in ("many1", "list"):
            return begins_ws(e[1])
        if e[0] == "seq":
            return bool(e[1]) and begins_ws(e[1][0])
        if e[0] == "alt":
            return all(begins_ws(x) for x in e[1:])
        return False

    def ends_ws(e, open=()):
        """after e there is never a blank or comment left to skip"""
        o = e[0]
        if o == "ws":
            return True
        if o in ("many1", "list"):
            return ends_ws(e[1], open)
        if o == "seq":
            for x in reversed(e[1]):
                if x[0] == "eof":
                    return True
                if not reads_nothing(x):
                    return ends_ws(x, open)
            return False
        if o == "alt":
            return all(ends_ws(x, open) for x in e[1:])
        if o == "rule":
            return e[1] in open or ends_ws(rules[e[1]], open + (e[1],))
        return False

    def go(e):
        if not isinstance(e, tuple) or not e:
            return e
        o = e[0]
        if o == "many1":
            x = go(e[1])
            if x[0] == "seq" and len(x[1]) > 1 and x[1][0] == ("ws",) and 0 not in dollars(x[2], set()):
                rest = seqn(list(x[1][1:]), subst_dollar(x[2], {i: ("$", i - 1) for i in range(1, len(x[1]))}))
                if ends_ws(rest):
                    return ("seq", (("ws",), ("many1", rest)), ("$", 1))
            return ("many1", x)
        if o == "choice":
            ch = frozenset((frozenset(frozenset(guard(l) for l in c) for c in d), go(x)) for d, x in e[1])
            # a reading tried first or not at all, before the one that is always tried: with it first the text
            # means the same (specs/notation.peg holds both readings, so a change in either still shows)
            forms = sorted({x for _, x in ch}, key=lambda x: x[0] == "alt")
            if len(forms) == 2 and forms[1][0] == "alt" and len(forms[1]) == 3 and forms[1][2] == forms[0]:
                return forms[1]
            return ("choice", ch)
        if o == "all":
            return seqn([go(e[1]), ("eof",)], ("$", 0))
        if o == "peek":
            x = go(e[1])
            if x[0] == "alt":
                return go(("alt",) + tuple(("peek", novalue(y)) for y in x[1:]))
            return x if reads_nothing(x) else ("peek", x)
        if o == "seq":
            return seqn([go(x) for x in e[1]], e[2])
        if o == "alt":
            xs = []
            for x in e[1:]:
                x = go(x)
                xs += x[1:] if x[0] == "alt" else (x,)
            out = []
            while xs:
                free = [i for i in range(len(xs)) if all(apart(xs[i], y) for y in xs[:i])]
                i = min(free, key=lambda i: (sorted(first(xs[i])) if first(xs[i]) is not None else [], i)) if len(free) > 1 else 0
                out.append(xs.pop(i))
            return ("alt",) + tuple(out)
        if o in ("many1", "many0", "opt", "not", "list", "recognize"):
            return (o,) + tuple(go(x) for x in e[1:])
        return e

    def guard(l):
        if isinstance(l[1], tuple) and l[1] and l[1][0] == "fails":
            return (l[0], ("fails", go(l[1][1]), l[1][2]))
        return l

    def seqn(es, val):
        flat, m = [], {}
        for i, x in enumerate(es):
            if x[0] == "seq":
                m[i] = shift(x[2], len(flat))
                flat += x[1]
            else:
                m[i] = ("$", len(flat))
                flat.append(x)
        val = project(subst_dollar(val, m))
        used = dollars(val, set())
        out, m = [], {}
        for i, x in enumerate(flat):
            if x[0] == "ws" and i not in used:
                before = next((y for y in reversed(out) if not reads_nothing(y)), None)
                if before is not None and ends_ws(before):
                    continue
            if i + 1 < len(flat):
                nx = flat[i + 1]
                if x[0] == "until" and nx[0] == "lit" and len(nx[1]) == 1 and x[1] == q(nx[1]):
                    x = ("till", "{=%s}" % nx[1])
                if x[0] == "ws" and i not in used and begins_ws(nx):
                    continue
            m[i] = ("$", len(out))
            out.append(x)
        val = subst_dollar(val, m)
        if len(out) == 1 and val == ("$", 0):
            return out[0]
        return ("seq", tuple(out), val)

    return go(e)


def grammar_of(crate, models, path, fmt):
    """text of the notation: {rule: expression}"""
    P = Peg(crate, models, fmt)
    fn = crate.fns[path]
    targs = (("adt", fmt, ()),) if fmt and fn.g else ()
    top = P.rule(path, targs)
    raw = {n: P.rules[key] for key, n in P.refs.items()}
    out = Notation()
    out.top = norm(top, raw)
    out.rules = {n: norm(e, raw) for n, e in raw.items()}
    out["start"] = show_peg(out.top)
    for n in sorted(out.rules):
        out["R%d" % n] = show_peg(out.rules[n])
    return out


class Skipped:
    """a path with the terms it mentions rewritten"""

    def __init__(self, p, f):
        self.kind = p.kind
        self.val = f(p.val)
        self.items = [(it[0], f(it[1])) + tuple(it[2:]) if it[0] == "c" else it for it in p.items]


class Notation(dict):
    """{rule: text}, and the expressions themselves"""
