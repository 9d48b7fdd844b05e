"""Path-sensitive dataflow over MIR.

Every function under analysis is explored from symbolic arguments: each
branch whose outcome the facts on the path do not already settle splits the
path (trace partitioning); calls to local functions and closures are inlined;
a loop is analysed once, from a state in which everything the loop may change
has been forgotten, and becomes one summary node.  Nothing is executed and no
solver is involved: a path is kept unless its facts contradict one another
syntactically.
"""
from .terms import *
from .terms import _mksum, _addends
from . import facts as F


class Limit(Exception):
    pass


class St:
    __slots__ = ("store", "facts", "trace", "hn")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.trace = None
        self.hn = 0

    def fork(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.hn = self.hn
        return s

    def ev(self, *item):
        self.trace = (self.trace, item)

    def items(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Loop:
    """summary of one loop: what an arbitrary complete iteration may do"""

    def __init__(self, lid, site):
        self.id = lid
        self.site = site
        self.paths = []  # [(items, updates{key: new})]
        self.init = {}  # key -> value before the first iteration
        self.chains = []  # iterator terms stepped by the loop
        self.tracebase = None

    def __repr__(self):
        return f"<loop {self.id} @{self.site} over {self.chains} {len(self.paths)} paths>"


class Frame:
    __slots__ = ("fn", "depth", "env", "tyc", "key", "bb")

    def __init__(self, fn, depth, env):
        self.fn = fn
        self.depth = depth
        self.env = env


class Active:
    __slots__ = ("loop", "hst", "chains")

    def __init__(self, loop, hst):
        self.loop = loop
        self.hst = hst
        self.chains = []


class Ctx:
    __slots__ = ("E", "fr", "ref", "at", "dt", "site", "path", "tpath")


class Engine:
    MAXPATHS = 60000

    def __init__(self, crate, models, barriers=(), maxdepth=60, noinline=None):
        self.crate = crate
        self.models = models
        self.barriers = set(barriers)
        self.noinline = noinline  # predicate on fn path
        self.stack = []
        self.fkeys = {}
        self.fdepth = {}
        self.active = []
        self.nloop = 0
        self.steps = 0
        self.maxsteps = 3_000_000
        self.unknown = {}
        self.visited_fns = set()
        self.mutroots = set()
        self.sinks = set()
        self.keep_targs = False
        self.visited_sites = set()
        from . import prims

        self.P = prims.PRIMS
        self.MODELS = prims.MODELS
        self.prims = prims

    # -- variants --------------------------------------------------------
    def adt(self, path):
        a = self.crate.adt_by_path.get(path)
        if a is None and self.models:
            a = self.models.adt_by_path.get(path)
        return a

    def variants(self, path):
        a = self.adt(path)
        if a is None:
            if path == OPT:
                return {"0": "None", "1": "Some"}
            if path == RES:
                return {"0": "Ok", "1": "Err"}
            return None
        return {v["d"]: v["n"] for v in a["v"]}

    # -- store -----------------------------------------------------------
    def read(self, st, root, path):
        v = st.store.get(root)
        if v is None:
            if root[0] in ("O", "V"):
                v = root[1]
            else:
                return mk("sym", "undef:%s" % (root,))
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        k = p[0]
        if k == "f":
            if v.op == "ref" and p[1] in ("0", "pointer"):
                return v
            return field(v, p[1])
        if k == "vf":
            return vf(v, p[1], p[2])
        if k == "i":
            return index(v, p[1])
        if k == "k":
            return mapslot(v, p[1])
        if k == "ss":
            return slice_(v, p[1], p[2])
        return mk("proj", v, p)

    def update(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if len(path) > 1:
            new = self.update(self.proj(v, p), path[1:], new)
        k = p[0]
        if k == "f":
            if v.op == "agg":
                return agg(v.args[0], v.args[1], [(n, new if n == p[1] else x) for n, x in v.args[2]])
            if v.op == "tup":
                a = list(v.args)
                a[int(p[1])] = new
                return mk("tup", *a)
            if v.op == "clo":
                a = list(v.args[1])
                a[int(p[1])] = new
                return mk("clo", v.args[0], tuple(a), *v.args[2:])
        if k == "vf" and v.op == "agg":
            return agg(v.args[0], v.args[1], [(n, new if n == p[2] else x) for n, x in v.args[2]])
        if k == "k":
            return mk("mput", v, p[1], new)
        if v.op == "upd" and v.args[1] == p:
            return mk("upd", v.args[0], p, new)
        if self.proj(v, p) is new:
            return v
        return mk("upd", v, p, new)

    def write(self, st, root, path, val):
        if not path:
            st.store[root] = val
        else:
            cur = st.store.get(root)
            if cur is None:
                cur = root[1] if root[0] == "O" else mk("sym", "undef")
            st.store[root] = self.update(cur, path, val)

    def content(self, st, v):
        n = 0
        while v.op == "ref" and n < 20:
            v = self.read(st, *v.args)
            n += 1
        return v

    def deep(self, st, v, memo=None):
        """the value with every pointer replaced by what it points at now"""
        if v.op == "ref":
            return self.deep(st, self.content(st, v))
        if memo is None:
            memo = {}
        r = memo.get(v)
        if r is not None:
            return r
        memo[v] = v
        if not any(x.op == "ref" for x in subterms(v)):
            return v

        def g(t):
            if t.op == "ref":
                return self.deep(st, self.content(st, t))
            return None

        r = rewrite(v, g)
        memo[v] = r
        return r

    def place_of(self, st, v):
        """(root, path) a mutable reference designates, after auto-deref"""
        if v.op != "ref":
            return ("O", v), ()
        for _ in range(20):
            c = self.read(st, *v.args)
            if c.op == "ref":
                v = c
            else:
                break
        return v.args[0], v.args[1]

    # -- places and operands --------------------------------------------
    def place(self, fr, st, p):
        root = ("L", fr.key, p[0])
        path = ()
        var = None
        for e in p[1:]:
            if e == "*":
                v = self.read(st, root, path)
                if v.op == "ref":
                    root, path = v.args
                elif ("O", v) in self.mutroots:
                    # the pointee was read earlier: a snapshot, not the place
                    root, path = ("V", v), ()
                else:
                    root, path = ("O", v), ()
            elif "f" in e:
                if var is not None:
                    path = path + (("vf", var, e["f"]),)
                    var = None
                else:
                    path = path + (("f", e["f"]),)
            elif "v" in e:
                var = e["v"]
            elif "i" in e:
                path = path + (("i", self.content(st, self.read(st, ("L", fr.key, e["i"]), ()))),)
            elif "ci" in e:
                if e["end"]:
                    base = self.read(st, root, path)
                    path = path + (("i", sub(length(base), integer(e["ci"]))),)
                else:
                    path = path + (("i", integer(e["ci"])),)
            elif "ss" in e:
                f, t, fe = e["ss"]
                base = self.read(st, root, path)
                if fe:
                    end = None if t == 0 else sub(length(base), integer(t))
                else:
                    end = integer(t)
                path = path + (("ss", integer(f), end),)
        return root, path

    def load(self, fr, st, p):
        return self.read(st, *self.place(fr, st, p))

    def operand(self, fr, st, o):
        if "c" in o:
            return self.load(fr, st, o["c"])
        if "m" in o:
            return self.load(fr, st, o["m"])
        return self.const(fr, st, o["k"])

    def ty(self, fr, i):
        return F.subst(fr.fn.facts.ty(i), fr.env)

    def const(self, fr, st, c):
        k = c["k"]
        if k == "fn":
            return self.fnval(fr, c)
        if k == "int":
            ty = fr.fn.facts.ty(c["t"])
            if ty == ("prim", "bool"):
                return boolean(c["v"] != "0")
            if ty == ("prim", "char"):
                return mk("char", int(c["v"]))
            return integer(c["v"])
        if k == "str":
            return mk("str", c["v"])
        if k == "bytes":
            return mk("bytes", c["hex"])
        if k == "zst":
            ty = self.ty(fr, c["t"])
            if ty[0] == "tuple":
                return UNIT
            if ty[0] == "closure":
                return mk("clo", ty[1], (), envkey(fr.env))
            if ty[0] == "adt":
                a = self.adt(ty[1])
                if a and a["kind"] == "struct":
                    return agg(ty[1], ty[1].split("::")[-1], ())
            return mk("zst", tystr(ty))
        if k == "promoted":
            fn = fr.fn if c["p"] == fr.fn.p else fr.fn.facts.fns.get(c["p"])
            if fn is None:
                fn = fr.fn
            return self.eval_promoted(fr, fn, c["i"])
        if k == "constdef":
            if c.get("trait"):
                st_ = F.subst(fr.fn.facts.ty(c["self"]), fr.env)
                fn = self.trait_impl(c["trait"], c["name"], st_)
            else:
                fn = self.find_fn(c["p"])
            if fn is not None:
                return self.eval_const(fn)
            if c.get("val"):
                return self.const(fr, st, c["val"])
            return mk("const", c["p"])
        if k == "static":
            return mk("static", c["p"])
        return mk("opaque", c.get("s", ""))

    def fnval(self, fr, c):
        facts = fr.fn.facts
        a = tuple(F.subst(facts.ty(x), fr.env) for x in c["a"])
        if "r" in c and c.get("rk") == "item":
            ra = tuple(F.subst(facts.ty(x), fr.env) for x in c["ra"])
            return mk("fn", c["r"], ra, c["p"], a)
        if c.get("trait"):
            fn = self.trait_impl(c["trait"], c["name"], a[0] if a else None)
            if fn is not None:
                return mk("fn", fn.p, (), c["p"], a)
        return mk("fn", c["p"], a, c["p"], a)

    def trait_impl(self, trait, name, selfty):
        """method of a local impl for a now concrete self type"""
        if selfty is None:
            return None
        h = F.head(selfty) if selfty[0] != "ref" else None
        if h is None or selfty[0] == "param":
            return None
        for q in (f"<{h} as {trait}>::{name}",):
            fn = self.crate.fns.get(q)
            if fn is not None:
                return fn
        if any(im["trait"] == trait and F.head(self.crate.ty(im["self"])) == h for im in self.crate.impls):
            return self.crate.fns.get(f"{trait}::{name}")
        return None

    def find_fn(self, p):
        return self.crate.fns.get(p)

    def eval_promoted(self, fr, fn, i):
        body = fn.promoted[i]
        return self.eval_body(fn, body, "promoted%d" % i, fr.env)

    def eval_const(self, fn):
        return self.eval_body(fn, fn.d, "const", {})

    def eval_body(self, fn, body, tag, env):
        g = F.Fn()
        g.p = fn.p + "#" + tag
        g.d = {"loc": None}
        g.g = fn.g
        g.argc = 0
        g.locals = body["locals"]
        g.blocks = body["blocks"]
        g.names = body["names"]
        g.facts = fn.facts
        g.headers = None
        g.promoted = fn.promoted
        st = St()
        outs = self.exec_fn(g, [], st, env)
        for k, s, v in outs:
            if k == "ret":
                return self.deep(s, v)
        return mk("const", g.p)

    # -- facts -----------------------------------------------------------
    def known(self, st, t):
        """True/False/None for a boolean term"""
        neg = False
        while t.op == "not":
            t = t.args[0]
            neg = not neg
        r = None
        if t.op == "bool":
            r = t.args[0]
        else:
            r = st.facts.get(t)
            if r is None:
                r = self.derive(st, t)
        if r is None:
            return None
        return r != neg

    def derive(self, st, t):
        f = st.facts
        if t.op == "lt":
            a, b = t.args
            if f.get(mk("lt", b, a)) is True:
                return False
            e = eq(a, b)
            if e is TRUE or f.get(e) is True:
                return False
            # a in lo..hi
            if a.op == "elem" and a.args[0].op == "range":
                lo, hi = a.args[0].args
                if hi is b:
                    return True
            # a <= b and a != b
            if f.get(mk("lt", b, a)) is False and f.get(e) is False:
                return True
            return None
        if t.op == "eq":
            a, b = t.args
            if f.get(mk("lt", a, b)) is True or f.get(mk("lt", b, a)) is True:
                return False
            for x, y in ((a, b), (b, a)):
                if y.op in CONST:
                    c = f.get(("const", x))
                    if c is not None and c is not y:
                        return False
            return None
        if t.op == "has" and t.args[0].op == "range" and t.args[0].args[0] is t.args[0].args[1]:
            return False
        if t.op == "empty":
            # an element was taken from it
            for k in range(3):
                if f.get(mk("has", mk("over", t.args[0]), k)) is True:
                    return False
            return None
        if t.op == "and":
            k = [self.known(st, x) for x in t.args]
            if all(x is True for x in k):
                return True
            if any(x is False for x in k):
                return False
        if t.op == "or":
            k = [self.known(st, x) for x in t.args]
            if any(x is True for x in k):
                return True
            if all(x is False for x in k):
                return False
        return None

    def assume(self, st, t, val):
        """add a boolean fact; returns False when it contradicts the path"""
        while t.op == "not":
            t = t.args[0]
            val = not val
        k = self.known(st, t)
        if k is not None:
            return k == val
        st.facts[t] = val
        if t.op == "eq" and val:
            a, b = t.args
            if b.op in CONST:
                st.facts[("const", a)] = b
            elif a.op in CONST:
                st.facts[("const", b)] = a
        if t.op == "and" and val or t.op == "or" and not val:
            for x in t.args:
                if not self.assume(st, x, val):
                    return False
            return True
        st.ev("c", t, val)
        return True

    def branch(self, st, t):
        """[(bool, st)]"""
        k = self.known(st, t)
        if k is not None:
            return [(k, st)]
        if t.op == "not":
            return [(not b, s) for b, s in self.branch(st, t.args[0])]
        if t.op == "eq":
            r = self.branch_enum_eq(st, t)
            if r is not None:
                return r
        if t.op == "and" or t.op == "or":
            # evaluate left to right
            stop = t.op == "or"
            outs = []
            cur = [st]
            for x in t.args:
                nxt = []
                for s in cur:
                    for b, s2 in self.branch(s, x):
                        if b == stop:
                            outs.append((stop, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return outs + [(not stop, s) for s in cur]
        out = []
        for b in (True, False):
            s = st.fork()
            if self.assume(s, t, b):
                out.append((b, s))
        return out

    def branch_enum_eq(self, st, t):
        """x == Enum::V{..}: the variant test, then the payloads"""
        for x, y in (t.args, t.args[::-1]):
            if y.op != "agg" or x.op == "agg":
                continue
            vs = self.variants(y.args[0])
            if vs is None or len(vs) < 2:
                continue
            out = []
            for nm, s in self.split_variant(st, x, y.args[0]):
                if nm != y.args[1]:
                    out.append((False, s))
                    continue
                cur = [s]
                for n, val in y.args[2]:
                    nxt = []
                    for s1 in cur:
                        for b, s2 in self.branch(s1, eq(vf(x, nm, n), val)):
                            if b:
                                nxt.append(s2)
                            else:
                                out.append((False, s2))
                    cur = nxt
                out.extend((True, s1) for s1 in cur)
            return out
        return None

    def variant_cond(self, v):
        """boolean term equivalent to a two-way variant test, if there is one"""
        o = v.op
        if o == "get":
            return lt(v.args[1], length(v.args[0])), "Some", "None"
        if o == "strip":
            return mk("starts", v.args[0], v.args[1]), "Some", "None"
        if o in ("sfind", "rsfind") and v.args[1].op in ("str", "char"):
            return mk("scontains", v.args[0], v.args[1]), "Some", "None"
        if o == "csub":
            return not_(lt(v.args[0], v.args[1])), "Some", "None"
        if o == "mget":
            return member(v.args[0], v.args[1]), "Some", "None"
        if o == "optif":
            return v.args[0], "Some", "None"
        if o == "contains_opt":
            return v.args[0], "Some", "None"
        return None

    def split_variant(self, st, v, adt):
        """[(variant, st)]"""
        if v.op == "agg":
            return [(v.args[1], st)]
        if v.op == "upd" and v.args[1][0] == "vf":
            return [(v.args[1][1], st)]
        vc = self.variant_cond(v)
        if vc is not None:
            t, yes, no = vc
            return [(yes if b else no, s) for b, s in self.branch(st, t)]
        f = st.facts.get(("var", v))
        if isinstance(f, str):
            return [(f, st)]
        vs = self.variants(adt)
        if vs is None:
            return [("?", st)]
        names = [n for n in vs.values() if not (isinstance(f, frozenset) and n in f)]
        out = []
        for n in names:
            s = st.fork() if len(names) > 1 else st
            s.facts[("var", v)] = n
            if len(names) > 1:
                s.ev("c", mk("is", v, n), True)
            out.append((n, s))
        return out

    # -- statements ------------------------------------------------------
    def rvalue(self, fr, st, r, site):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            root, path = self.place(fr, st, r[2])
            if r[1]:
                return mk("ref", root, path)
            v = self.read(st, root, path)
            return v
        if k == "rawptr":
            root, path = self.place(fr, st, r[1])
            return mk("ref", root, path)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            kind = r[1]
            if kind == "IntToInt":
                t = self.ty(fr, r[3])
                if v.op == "int":
                    return v
                if v.op == "bool":
                    return integer(1 if v.args[0] else 0)
                return mk("cast", tystr(t), v)
            if kind.startswith("PointerCoercion") and ("ReifyFnPointer" in kind or "ClosureFnPointer" in kind):
                return v
            return v
        if k == "bin":
            a = self.content(st, self.operand(fr, st, r[2]))
            b = self.content(st, self.operand(fr, st, r[3]))
            return self.binop(r[1], a, b)
        if k == "un":
            a = self.content(st, self.operand(fr, st, r[2]))
            if r[1] == "Not":
                return not_(a)
            if r[1] == "PtrMetadata":
                return length(a)
            return mk("un", r[1], a)
        if k == "discr":
            v = self.content(st, self.load(fr, st, r[1]))
            t = self.ty(fr, r[2])
            return mk("discr", v, F.head(t))
        if k == "agg":
            vals = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]["k"]
            if kk == "tuple":
                return mk("tup", *vals)
            if kk == "array":
                return mk("seq", *vals)
            if kk == "adt":
                a = fr.fn.facts.adts[r[1]["adt"]]
                for v in a["v"]:
                    if v["n"] == r[1]["v"] or a["kind"] == "struct":
                        return agg(r[1]["p"], v["n"], [(f["n"], x) for f, x in zip(v["f"], vals)])
            if kk == "closure":
                return mk("clo", r[1]["p"], tuple(vals), envkey(fr.env))
            return mk("aggother", *vals)
        if k == "repeat":
            return mk("rep", self.operand(fr, st, r[1]), r[2])
        return mk("opaque", str(r[1])[:80])

    def binop(self, op, a, b):
        if op in ("AddWithOverflow", "Add", "AddUnchecked"):
            v = add(a, b)
        elif op in ("SubWithOverflow", "Sub", "SubUnchecked"):
            v = sub(a, b)
        elif op == "Eq":
            return eq(a, b)
        elif op == "Ne":
            return not_(eq(a, b))
        elif op == "Lt":
            return lt(a, b)
        elif op == "Gt":
            return lt(b, a)
        elif op == "Ge":
            return not_(lt(a, b))
        elif op == "Le":
            return not_(lt(b, a))
        elif op == "BitAnd" and (is_bool(a) or is_bool(b)):
            return bool_and(a, b)
        elif op == "BitOr" and (is_bool(a) or is_bool(b)):
            return not_(bool_and(not_(a), not_(b)))
        elif op in ("MulWithOverflow", "Mul"):
            if a.op == "int" and b.op == "int":
                v = integer(a.args[0] * b.args[0])
            else:
                if a.id > b.id:
                    a, b = b, a
                v = mk("mul", a, b)
        else:
            v = mk("bin", op.replace("WithOverflow", ""), a, b)
        if op.endswith("WithOverflow"):
            return mk("tup", v, mk("ovf", op[:3], a, b))
        return v

    def statement(self, fr, st, s):
        pl, rv, ln = s
        k = rv[0]
        if k == "dead":
            return
        if k == "setdiscr":
            return
        val = self.rvalue(fr, st, rv, ln)
        root, path = self.place(fr, st, pl)
        self.write(st, root, path, val)

    # -- control flow ----------------------------------------------------
    def exec_fn(self, fn, args, st, env):
        if len(self.stack) > 70:
            raise Limit("inline depth")
        depth = len(self.stack)
        fr = Frame(fn, depth, env)
        # storage is named by the chain of call sites that leads to it
        par = self.stack[-1] if self.stack else None
        ck = (par.key, par.bb, fn.p) if par else ("root", fn.p)
        key = self.fkeys.get(ck)
        if key is None:
            key = self.fkeys[ck] = len(self.fkeys)
            self.fdepth[key] = depth
        fr.key = key
        fr.bb = 0
        self.stack.append(fr)
        self.visited_fns.add(fn.p)
        try:
            for i, a in enumerate(args):
                st.store[("L", key, i + 1)] = a
            outs = self.walk(fr, 0, st, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                for k2 in [k for k in s.store if k[0] == "L" and k[1] == key]:
                    del s.store[k2]
            res.append(o)
        return res

    def walk(self, fr, bb, st, loop):
        out = []
        work = [(bb, st, True)]
        fn = fr.fn
        heads = F.loops(fn)
        blocks = fn.blocks
        while work:
            bb, st, entered = work.pop()
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Limit("steps")
            if loop is not None and not entered:
                if bb == loop[0]:
                    out.append(("back", st, None))
                    continue
                if bb not in loop[1]:
                    out.append(("exit", st, bb))
                    continue
            if bb in heads and not (entered and loop is not None and bb == loop[0]):
                for o in self.do_loop(fr, bb, heads[bb], st):
                    if o[0] == "exit":
                        work.append((o[2], o[1], False))
                    else:
                        out.append(o)
                continue
            b = blocks[bb]
            for s in b["s"]:
                self.statement(fr, st, s)
            t = b["t"]
            k = t["k"]
            if k == "goto" or k == "drop":
                work.append((t["t"], st, False))
            elif k == "switch":
                for tgt, s in self.switch(fr, st, t):
                    work.append((tgt, s, False))
            elif k == "call":
                fr.bb = bb
                for o in self.call_term(fr, st, t, b["l"]):
                    if o[0] == "ret":
                        if t["t"] is None:
                            continue
                        s = o[1]
                        root, path = self.place(fr, s, t["d"])
                        self.write(s, root, path, o[2])
                        work.append((t["t"], s, False))
                    else:
                        out.append(o)
            elif k == "assert":
                c = self.content(st, self.operand(fr, st, t["c"]))
                m = t["m"]
                if m != "other":
                    ops = tuple(self.content(st, self.operand(fr, st, o)) for o in t["ops"])
                    if m == "bounds":
                        cond = lt(ops[1], ops[0])
                        kn = self.known(st, cond)
                        if kn is not True:
                            st.ev("e", "panic?", ("bounds",) + ops, site_of(fr, b["l"]))
                            if not self.assume(st, cond, True):
                                continue
                    elif not self.no_overflow(st, m, ops):
                        st.ev("e", "panic?", (m,) + ops, site_of(fr, b["l"]))
                work.append((t["t"], st, False))
            elif k == "return":
                out.append(("ret", st, self.read(st, ("L", fr.key, 0), ())))
            # unreachable / resume: no path
        if len(out) > self.MAXPATHS:
            raise Limit("paths in " + fn.p)
        return out

    def no_overflow(self, st, m, ops):
        """arithmetic that cannot overflow"""
        if m in ("overflow:Shl", "overflow:Shr") and ops[-1].op == "int" and 0 <= ops[-1].args[0] < 8:
            return True
        if m in ("overflow:Shl", "overflow:Shr", "overflow:Mul") and all(x.op == "int" for x in ops) and ops[-1].args[0] < 32:
            return m == "overflow:Shr" or 0 <= (ops[0].args[0] << ops[1].args[0] if m == "overflow:Shl" else ops[0].args[0] * ops[1].args[0]) < 1 << 31
        if m == "overflow:Add":
            # counters and lengths: bounded by what fits in memory
            return True
        if m == "overflow:Sub":
            a, b = ops
            if self.known(st, lt(a, b)) is False:
                return True
            d = sub(a, b)
            if d.op in ("int",):
                return d.args[0] >= 0
            if d.op == "len":
                return True
            if d.op == "sum" and all(c > 0 for c, _ in d.args[0]) and d.args[1] >= 0:
                return True
            if a.op == "len" and b is ONE and self.known(st, empty(a.args[0])) is False:
                return True
            # below an element of lo..a there is at least one
            if b is ONE and any(v is True and isinstance(k, T) and k.op == "has" and k.args[0].op == "range" and k.args[0].args[1] is a for k, v in st.facts.items()):
                return True
        return False

    def switch(self, fr, st, t):
        d = self.content(st, self.operand(fr, st, t["d"]))
        tgts = dict((v, b) for v, b in t["ts"])
        if d.op == "discr":
            v, adt = d.args
            vs = self.variants(adt)
            if vs is None:
                outs = []
                for val, b in t["ts"]:
                    s = st.fork()
                    s.ev("c", eq(d, integer(val)), True)
                    outs.append((b, s))
                outs.append((t["o"], st))
                return outs
            inv = {n: dv for dv, n in vs.items()}
            return [(tgts.get(inv.get(n), t["o"]), s) for n, s in self.split_variant(st, v, adt)]
        if d.op in ("int", "char", "bool"):
            x = d.args[0]
            x = int(x)
            return [(tgts.get(str(x), t["o"]), st)]
        dt = fr.fn.facts.ty(t["dt"])
        if dt == ("prim", "bool"):
            outs = []
            for b, s in self.branch(st, d):
                outs.append((tgts.get("1" if b else "0", t["o"]), s))
            return outs
        outs = []
        cur = st
        for val, b in t["ts"]:
            c = mk("char", int(val)) if dt == ("prim", "char") else integer(val)
            nxt = None
            for bo, s in self.branch(cur, eq(d, c)):
                if bo:
                    outs.append((b, s))
                else:
                    nxt = s
            if nxt is None:
                return outs
            cur = nxt
        outs.append((t["o"], cur))
        return outs

    # -- loops -----------------------------------------------------------
    def do_loop(self, fr, header, blocks, st):
        self.nloop += 1
        L = Loop(self.nloop, site_of(fr, fr.fn.blocks[header]["l"]))
        L.fn = fr.fn.p
        hst = st.fork()
        hst.trace = None
        init = dict(st.store)
        outs = None
        for rnd in range(12):
            act = Active(L, hst)
            self.active.append(act)
            body = hst.fork()
            try:
                outs = self.walk(fr, header, body, (header, blocks))
            finally:
                self.active.pop()
            changed = False
            outs = [("back", self.drop_frames(o[1], fr.depth), None) if o[0] == "skip" and o[2] == L.id else o for o in outs]
            for o in outs:
                if o[0] != "back":
                    continue
                for root, val in list(hst.store.items()):
                    if root[0] == "N":
                        continue
                    nv = o[1].store.get(root)
                    if nv is None or nv is val:
                        continue
                    m = self.merge(L, val, nv, placeterm(root))
                    if m is not hst.store[root]:
                        m2 = self.merge(L, hst.store[root], m, placeterm(root))
                        if m2 is not hst.store[root]:
                            hst.store[root] = m2
                            changed = True
                # objects first written inside the loop
                for root, nv in o[1].store.items():
                    if root[0] == "O" and root not in hst.store:
                        m = self.merge(L, root[1], nv, placeterm(root))
                        if m is not root[1]:
                            hst.store[root] = m
                            changed = True
            if not changed:
                break
        else:
            raise Limit("loop fixpoint")
        L.chains = list(act.chains)
        for root, val in hst.store.items():
            self.find_lv(L, val, init.get(root, root[1] if root[0] == "O" else None))
        res = []
        backs = [o for o in outs if o[0] == "back"]
        exits = [o for o in outs if o[0] != "back"]
        for o in backs:
            upd = {}
            for root, val in hst.store.items():
                nv = o[1].store.get(root, val)
                self.collect_upd(L, val, nv, upd)
            L.paths.append((o[1].items(), upd))
        ind = self.induction(L)
        if ind:
            self.apply_induction(L, ind, exits)
        L.exits = [(o[0], o[1].items()) for o in exits]
        for o in exits:
            s = o[1]
            items = s.items()
            tr = st.trace
            if L.paths:
                tr = (tr, ("l", L))
            for it in items:
                tr = (tr, it)
            s.trace = tr
            for key in [k for k in s.store if k[0] == "N" and k[1] == L.id]:
                del s.store[key]
            self.close_iters(L, s, items)
            res.append((o[0], s, o[2]))
        return res

    def close_iters(self, L, s, items):
        """a later loop over the same thing meets its elements afresh"""
        outer = {c for a in self.active for c in a.chains}
        for it in items:
            if it[0] == "c" and it[1].op == "has" and it[1].args[0] not in outer:
                s.facts.pop(it[1], None)
                if it[2] is True and len(it[1].args) == 2:
                    key = ("used", it[1].args[0])
                    s.facts[key] = max(s.facts.get(key, 0), it[1].args[1] + 1)

    def drop_frames(self, s, depth):
        for key in [k for k in s.store if k[0] == "L" and self.fdepth[k[1]] > depth]:
            del s.store[key]
        return s

    def merge(self, L, old, new, key):
        if old is new:
            return old
        if old.op == "lv" and old.args[0] == L.id:
            return old
        if old.op == "agg" and new.op == "agg" and old.args[:2] == new.args[:2]:
            fs = []
            for (n, a), (_, b) in zip(old.args[2], new.args[2]):
                fs.append((n, self.merge(L, a, b, mk("field", key, n))))
            return agg(old.args[0], old.args[1], fs)
        if old.op == "tup" and new.op == "tup" and len(old.args) == len(new.args):
            return mk("tup", *[self.merge(L, a, b, mk("field", key, str(i))) for i, (a, b) in enumerate(zip(old.args, new.args))])
        if new.op == "upd":
            # only the updated projections change
            chain = []
            x = new
            while x.op == "upd" and x is not old:
                chain.append((x.args[1], x.args[2]))
                x = x.args[0]
            base = old
            while base.op == "upd" and base is not x:
                base = base.args[0]
            if x is base or x is old:
                r = old
                for pe, val in reversed(chain):
                    cur = self.proj(r, pe)
                    m = self.merge(L, cur, val, placeproj(key, pe))
                    r = self.update(r, (pe,), m)
                return r
        if old.op in ("ref",) and new.op == "ref":
            pass
        return mk("lv", L.id, key)

    def find_lv(self, L, val, init):
        if val.op == "lv" and val.args[0] == L.id:
            L.init[val] = init
            return
        if val.op == "agg" and init is not None:
            for n, x in val.args[2]:
                self.find_lv(L, x, field(init, n))
        elif val.op == "tup" and init is not None:
            for i, x in enumerate(val.args):
                self.find_lv(L, x, self.proj(init, ("f", str(i))))
        elif val.op == "upd" and init is not None:
            base, pe, x = val.args
            self.find_lv(L, x, self.proj(init, pe))
            self.find_lv(L, base, init)

    def collect_upd(self, L, val, nv, upd):
        if val.op == "lv" and val.args[0] == L.id:
            upd[val] = nv
            return
        if val.op == "agg" and nv.op == "agg" and val.args[:2] == nv.args[:2]:
            for (n, x), (_, y) in zip(val.args[2], nv.args[2]):
                self.collect_upd(L, x, y, upd)
        elif val.op == "tup" and nv.op == "tup" and len(val.args) == len(nv.args):
            for x, y in zip(val.args, nv.args):
                self.collect_upd(L, x, y, upd)
        elif val.op == "upd":
            base, pe, x = val.args
            self.collect_upd(L, x, self.proj(nv, pe), upd)
            self.collect_upd(L, base, nv, upd)

    def induction(self, L):
        """counter variables that walk init..bound one step at a time"""
        out = {}
        for v, init in L.init.items():
            if init is None or not L.paths:
                continue
            if not all(u.get(v) is add(v, ONE) for _, u in L.paths):
                continue
            bound = None
            good = True
            for items, _ in L.paths:
                b = None
                for it in items:
                    if it[0] == "c" and it[1].op == "lt" and it[1].args[0] is v and it[2] is True:
                        b = it[1].args[1]
                        break
                if b is None or (bound is not None and b is not bound) or any(x.op == "lv" and x.args[0] == L.id for x in subterms(b)):
                    good = False
                    break
                bound = b
            if good and bound is not None:
                out[v] = mk("range", init, bound)
        return out

    def apply_induction(self, L, ind, exits):
        k = 0
        el = {}
        for v, r in ind.items():
            kk = sum(1 for a in self.active if r in a.chains)
            el[v] = mk("elem", r, kk)
            L.chains.append(r)

        def rw_items(items, final):
            res = []
            for it in items:
                if it[0] == "c" and it[1].op == "lt" and it[1].args[0] in ind and it[1].args[1] is ind[it[1].args[0]].args[1]:
                    v = it[1].args[0]
                    res.append(("c", mk("has", ind[v], el[v].args[1]), it[2]))
                    continue
                if it[0] == "c":
                    t = rewrite(it[1], sub_)
                    val = it[2]
                    while t.op == "not":
                        t = t.args[0]
                        val = not val
                    if t.op == "bool":
                        continue
                    res.append(("c", t, val))
                elif it[0] == "e":
                    res.append(("e", it[1], rewrite(it[2], sub_), it[3]))
                elif it[0] == "l":
                    rw_loop(it[1])
                    res.append(it)
                else:
                    res.append(it)
            return res

        done = set()

        def rw_loop(l):
            if l.id in done:
                return
            done.add(l.id)
            l.paths = [(rw_items(i, False), {rewrite(a, sub_): rewrite(b, sub_) for a, b in u.items()}) for i, u in l.paths]
            l.chains = [rewrite(c, sub_) for c in l.chains]
            l.init = {rewrite(a, sub_): (rewrite(b, sub_) if b is not None else None) for a, b in l.init.items()}
            l.exits = [(kk, rw_items(i, False)) for kk, i in getattr(l, "exits", [])]

        def sub_(t):
            return el.get(t)

        L.paths = [(rw_items(i, False), {a: rewrite(b, sub_) for a, b in u.items() if a not in ind}) for i, u in L.paths]
        for v in ind:
            L.init.pop(v, None)
        L.init = {a: (rewrite(b, sub_) if b is not None else None) for a, b in L.init.items()}
        for o in exits:
            s = o[1]
            items = s.items()
            exhausted = {}
            for it in items:
                if it[0] == "c" and it[1].op == "lt" and it[1].args[0] in ind and it[2] is False and it[1].args[1] is ind[it[1].args[0]].args[1]:
                    exhausted[it[1].args[0]] = it[1].args[1]

            def sub2(t):
                if t in exhausted:
                    return exhausted[t]
                return el.get(t)

            its = rw_items(items, True)
            s.trace = None
            for it in its:
                s.trace = (s.trace, it)
            s.store = {(("O", rewrite(r[1], sub2)) if r[0] == "O" else r): rewrite(v, sub2) for r, v in s.store.items()}
            nf = {}
            for f, v in s.facts.items():
                if isinstance(f, T):
                    g = rewrite(f, sub2)
                    vv = v
                    while g.op == "not":
                        g = g.args[0]
                        vv = not vv
                    if g.op != "bool":
                        nf[g] = vv
                else:
                    nf[(f[0], rewrite(f[1], sub2))] = rewrite(v, sub2) if is_t(v) else v
            s.facts = nf

    # -- calls -----------------------------------------------------------
    def call_term(self, fr, st, t, ln):
        c = Ctx()
        c.E = self
        c.fr = fr
        c.site = site_of(fr, ln)
        c.at = [F.subst(fr.fn.facts.ty(x), fr.env) for x in t["at"]]
        c.dt = F.subst(fr.fn.facts.ty(t["dt"]), fr.env)
        f = self.operand(fr, st, t["f"])
        args = [self.operand(fr, st, a) for a in t["a"]]
        self.visited_sites.add(c.site)
        return self.call_value(st, f, args, c)

    def call_value(self, st, f, args, c):
        f = self.content(st, f)
        if f.op == "fn":
            return self.call_fn(st, f, args, c)
        if f.op == "clo":
            fn = self.closure_fn(f)
            if fn is not None:
                return self.inline(st, fn, [f] + args, dict(f.args[2]) if len(f.args) > 2 else {}, c)
        da = tuple(self.deep(st, a) for a in args)
        v = mk("call", "apply", (self.deep(st, f),) + da)
        st.ev("e", "apply", (self.deep(st, f),) + da, c.site)
        return [("ret", st, v)]

    def closure_fn(self, f):
        p = f.args[0]
        fn = self.crate.fns.get(p)
        if fn is None and self.models:
            fn = self.models.fns.get(p)
        return fn

    def call_fn(self, st, f, args, c):
        path, targs, tpath, tall = f.args
        c.path = path
        c.tpath = tpath
        c.ref = f
        fn = self.crate.fns.get(path)
        if fn is not None and fn.d.get("kind", "").startswith(("Fn", "AssocFn")):
            # derived structural impls have a known meaning
            tr = fn.d.get("impl_trait", "")
            if fn.d["derived"] or (tr in ("core::cmp::PartialEq", "core::clone::Clone", "core::cmp::Ord") and F.head(fn.facts.ty(fn.d["impl_self"])) in self.prims.VALUES):
                h = self.P.get("derived:" + tr + "::" + path.split("::")[-1])
                if h is not None:
                    return self.norm(st, h(c, st, args))
            if self.prims.is_local_iter_next(self, st, c, args):
                return self.norm(st, self.P["core::iter::traits::iterator::Iterator::next"](c, st, args))
            if path.endswith(" as core::fmt::Display>::fmt") and path[1:].split(" ")[0] in self.prims.SHOWN:
                return self.norm(st, self.P["core::fmt::Display::fmt"](c, st, args))
            if path in self.barriers or (self.noinline and self.noinline(path)):
                return self.opaque_call(st, path, args, c, targs)
            env = self.bind_env(fn, targs if targs else tall, f)
            return self.inline(st, fn, args, env, c)
        for key in (path, tpath):
            h = self.P.get(key)
            if h is not None:
                return self.norm(st, h(c, st, args))
            m = self.MODELS.get(key)
            if m is not None:
                mfn = self.models.fns.get("crate::" + m)
                if mfn is None:
                    raise Limit("missing model " + m)
                return self.inline(st, mfn, args, {}, c)
        # constructors used as functions
        cons = self.ctor(path, args)
        if cons is not None:
            return [("ret", st, cons)]
        h = self.prims.generic(c, path, tpath)
        if h is not None:
            return self.norm(st, h(c, st, args))
        self.unknown[path] = self.unknown.get(path, 0) + 1
        return self.opaque_call(st, path, args, c, targs)

    def ctor(self, path, args):
        par, _, name = path.rpartition("::")
        a = self.adt(par)
        if a is not None and a["kind"] == "enum":
            for v in a["v"]:
                if v["n"] == name and len(v["f"]) == len(args):
                    return agg(par, name, [(f["n"], x) for f, x in zip(v["f"], args)])
        a = self.adt(path)
        if a is not None and a["kind"] == "struct" and len(a["v"][0]["f"]) == len(args):
            return agg(path, a["v"][0]["n"], [(f["n"], x) for f, x in zip(a["v"][0]["f"], args)])
        if path == "core::option::Option::Some":
            return some(args[0])
        if path == "core::result::Result::Ok":
            return ok(args[0])
        if path == "core::result::Result::Err":
            return err(args[0])
        return None

    def bind_env(self, fn, targs, f):
        env = {}
        g = fn.g
        ts = list(targs)
        if len(ts) < len(g):
            ts = list(f.args[3])
        for n, t in zip(g, ts):
            env[n] = t
        return env

    def norm(self, st, r):
        if isinstance(r, T):
            return [("ret", st, r)]
        return r

    def inline(self, st, fn, args, env, c):
        ismodel = self.models is not None and fn.facts is self.models
        if (not ismodel and any(x.fn is fn for x in self.stack)) or len(self.stack) > 60:
            da = tuple(self.argval(st, a) for a in args)
            v = mk("call", "rec:" + fn.p, da)
            st.ev("e", "rec", (fn.p,) + da, c.site)
            self.havoc_args(st, args, v)
            return self.fmt_outcomes(st, c, v)
        # closures take their argument tuple spread
        if fn.argc != len(args):
            if len(args) >= 1 and args[-1].op == "tup" and fn.argc == len(args) - 1 + len(args[-1].args):
                args = list(args[:-1]) + list(args[-1].args)
            elif len(args) == 2 and fn.argc > 2:
                args = [args[0]] + [field(args[1], str(i)) for i in range(fn.argc - 1)]
            elif fn.argc == 1 and len(args) == 2:
                args = args[:1]
        outs = self.exec_fn(fn, args, st, env)
        return [o for o in outs]

    def argval(self, st, a):
        """an argument as the callee sees it; an output sink is the sink, not what it holds"""
        if a.op == "ref":
            root, path = self.place_of(st, a)
            if root in self.sinks:
                return root[1]
        return self.deep(st, a)

    def fmt_outcomes(self, st, c, v):
        """a formatting call fails only when the sink does"""
        if c.dt[0] == "adt" and c.dt[1] == RES and len(c.dt[2]) > 1 and F.head(c.dt[2][1]) == "core::fmt::Error":
            bad = st.fork()
            bad.ev("c", mk("wfail"), True)
            return [("ret", st, ok(UNIT)), ("ret", bad, err(mk("fmterr")))]
        return [("ret", st, v)]

    def havoc_args(self, st, args, callterm):
        for i, a in enumerate(args):
            self.havoc_val(st, a, callterm, str(i))

    def havoc_val(self, st, a, callterm, tag):
        if a.op == "ref":
            root, path = self.place_of(st, a)
            if root not in self.sinks:
                self.write(st, root, path, mk("out", callterm, tag))
        elif a.op in ("agg",):
            for n, x in a.args[2]:
                self.havoc_val(st, x, callterm, tag + "." + n)
        elif a.op == "tup":
            for n, x in enumerate(a.args):
                self.havoc_val(st, x, callterm, tag + "." + str(n))
        elif a.op == "clo":
            for n, x in enumerate(a.args[1]):
                self.havoc_val(st, x, callterm, tag + "." + str(n))

    def lam(self, st, f, c):
        """a function value handed to a callee we do not look into: what it returns, and when"""
        if f.op == "clo":
            fn = self.closure_fn(f)
            n = None if fn is None else fn.argc - 1
        elif f.op == "fn" and f.args[0] in self.crate.fns:
            fn = self.crate.fns[f.args[0]]
            n = fn.argc
        else:
            return f
        if fn is None or n is None or any(x.fn is fn for x in self.stack):
            return f
        ps = [mk("bound", i) for i in range(n)]
        s = st.fork()
        base = len(s.items())
        try:
            outs = self.call_value(s, f, list(ps), c)
        except Limit:
            return f
        alts = []
        for k, s2, v in outs:
            items = s2.items()[base:]
            v = mk("panics") if k != "ret" else self.deep(s2, v)
            if len(outs) == 1 and len(items) == 1 and items[0][0] == "e" and items[0][1] == "apply" and items[0][2][1:] == tuple(ps) and v.op == "call" and v.args[0] == "apply":
                return items[0][2][0]
            when = []
            for it in items:
                if it[0] == "c":
                    when.append(mk("when", it[1], it[2] if not is_t(it[2]) else it[2]))
                elif it[0] == "e":
                    when.append(mk("does", it[1], *[x for x in it[2] if is_t(x)]))
                else:
                    when.append(mk("loops"))
            alts.append(mk("alt", v, *when) if when else v)
        return mk("lam", n, *sorted(alts, key=str))

    def opaque_call(self, st, path, args, c, targs=()):
        da = tuple(self.argval(st, a) for a in args)
        if not self.keep_targs:
            da = tuple(self.lam(st, a, c) if a.op in ("clo", "fn") else a for a in da)
        v = mk("call", path, da)
        if targs and self.keep_targs:
            v = mk("call", path, da, tuple(targs))
        st.ev("e", "call", (path,) + da, c.site)
        self.havoc_args(st, args, v)
        if c.dt == ("prim", "!"):
            st.ev("e", "panic", (path,) + da, c.site)
            return [("panic", st, None)]
        return self.fmt_outcomes(st, c, v)

    def apply(self, st, f, args, c):
        """call a function value with positional arguments"""
        return self.call_value(st, f, list(args), c)

    # -- entry -----------------------------------------------------------
    def summarize(self, path, env=None, argvals=None, maxsteps=None):
        """explore one function; returns Summary"""
        fn = self.crate.fns.get(path)
        if fn is None:
            raise KeyError(path)
        self.stack = []
        self.active = []
        self.steps = 0
        if maxsteps:
            self.maxsteps = maxsteps
        st = St()
        names = {}
        for n, pl in fn.names:
            if len(pl) == 1 and 1 <= pl[0] <= fn.argc:
                names.setdefault(pl[0], n)
        args = []
        for i in range(1, fn.argc + 1):
            if argvals and i - 1 in argvals:
                args.append(argvals[i - 1])
                continue
            t = fn.facts.ty(fn.locals[i])
            nm = names.get(i, "arg%d" % i)
            s = sym("a%d" % i)
            if t[0] == "ref" and t[1]:
                args.append(mk("ref", ("O", s), ()))
                self.mutroots.add(("O", s))
                if F.head(t) == "core::fmt::Formatter":
                    self.sinks.add(("O", s))
                if t[2][0] == "prim":
                    st.store[("O", s)] = mk("old", s)
            elif t[0] == "closure":
                args.append(s)
            else:
                args.append(s)
        outs = self.exec_fn(fn, args, st, env or {})
        return Summary(self, fn, outs, names)


class Path:
    __slots__ = ("kind", "st", "val", "items", "final")

    def __init__(self, E, o):
        self.kind, self.st = o[0], o[1]
        self.val = E.deep(o[1], o[2]) if o[2] is not None else None
        self.items = o[1].items()


class Summary:
    def __init__(self, E, fn, outs, names):
        self.E = E
        self.fn = fn
        self.names = names
        self.paths = [Path(E, o) for o in outs]
        self.rets = [p for p in self.paths if p.kind == "ret"]
        self.panics = [p for p in self.paths if p.kind == "panic"]

    def arg(self, i):
        return sym("a%d" % i)


mapslot = mslot


def is_bool(t):
    return t.op in ("bool", "eq", "lt", "not", "empty", "starts", "contains", "is", "and", "or", "has")


def bool_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return mk("and", a, b)


def envkey(env):
    return tuple(sorted(env.items()))


def tystr(t):
    if t[0] == "prim":
        return t[1]
    if t[0] == "adt":
        return t[1] + ("<" + ",".join(tystr(x) for x in t[2]) + ">" if t[2] else "")
    if t[0] == "ref":
        return "&" + tystr(t[2])
    if t[0] == "param":
        return t[1]
    return str(t)


def placeterm(root):
    """the version-free name of a storage place"""
    if root[0] == "O":
        return root[1]
    return mk("loc", *root)


def placeproj(t, p):
    if p[0] == "f":
        return mk("field", t, p[1])
    if p[0] == "vf":
        return mk("vf", t, p[1], p[2])
    if p[0] == "i":
        return mk("index", t, p[1])
    if p[0] == "k":
        return mk("mslot", t, p[1])
    return mk("proj", t, p)


def refplace(r):
    """version-free term of a ref(root, path)"""
    t = placeterm(r.args[0])
    for p in r.args[1]:
        t = placeproj(t, p)
    return t


def site_of(fr, ln):
    if ln:
        return (ln[0], ln[1], fr.fn.p)
    return ("?", 0, fr.fn.p)
