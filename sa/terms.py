"""Hash-consed terms and the normalising constructors.

A term names a value the program computes, by where it came from.  Two
syntactically different ways of computing the same thing should, as far as
possible, intern to the same object; every rule compares terms by identity.
"""


class T:
    __slots__ = ("op", "args", "id", "_s")

    def __repr__(self):
        return show(self)


_TAB = {}
_N = [0]


def mk(op, *args):
    k = (op,) + args
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._s = None
        _N[0] += 1
        t.id = _N[0]
        _TAB[k] = t
    return t


def is_t(x):
    return isinstance(x, T)


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth + 1) for x in t) + ")"
        return repr(t) if isinstance(t, str) and depth < 0 else str(t)
    if t._s is not None:
        return t._s
    o, a = t.op, t.args
    if o == "sym":
        s = a[0]
    elif o == "int":
        s = str(a[0])
    elif o == "bool":
        s = "true" if a[0] else "false"
    elif o == "char":
        s = repr(chr(a[0])) if isinstance(a[0], int) else repr(a[0])
    elif o == "str":
        s = '"' + a[0].replace("\n", "\\n") + '"'
    elif o == "field":
        s = f"{show(a[0])}.{a[1]}"
    elif o == "vf":
        s = f"{show(a[0])}.{a[1]}.{a[2]}"
    elif o == "agg":
        nm = a[0].split("::")[-1]
        v = "" if a[1] == nm else "::" + a[1]
        s = nm + v + "{" + ",".join(f"{n}:{show(x)}" for n, x in a[2]) + "}"
    elif o == "tup":
        s = "(" + ",".join(show(x) for x in a) + ")"
    elif o == "seq":
        s = "[" + ",".join(show(x) for x in a) + "]"
    elif o == "ref":
        s = "&" + root_show(a[0]) + "".join("." + show(p[1]) for p in a[1])
    elif o == "fn":
        s = a[0].split("::")[-1]
    elif o == "clo":
        s = "|" + "::".join(a[0].split("::")[-2:]) + "|"
    elif o == "call":
        s = short(a[0]) + "(" + ",".join(show(x) for x in a[1]) + ")"
    else:
        s = o + "(" + ",".join(show(x) for x in a) + ")"
    if len(s) > 4000:
        s = s[:4000] + "…"
    t._s = s
    return s


def short(p):
    return "::".join(p.split("::")[-2:])


def root_show(r):
    if r[0] == "O":
        return show(r[1])
    return "%" + ".".join(str(x) for x in r[1:])


# ---- constructors -------------------------------------------------------
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tup")
ZERO = mk("int", 0)
ONE = mk("int", 1)
EMPTY_STR = mk("str", "")
EMPTY_SEQ = mk("seq")
OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"


def sym(n):
    return mk("sym", n)


def integer(v):
    return mk("int", int(v))


def boolean(b):
    return TRUE if b else FALSE


def agg(adt, variant, fields):
    return mk("agg", adt, variant, tuple(fields))


def some(x):
    return agg(OPT, "Some", (("0", x),))


NONE = agg(OPT, "None", ())


def ok(x):
    return agg(RES, "Ok", (("0", x),))


def err(x):
    return agg(RES, "Err", (("0", x),))


def field(b, n):
    o = b.op
    if o == "agg":
        for k, v in b.args[2]:
            if k == n:
                return v
        return mk("field", b, n)
    if o == "tup" or o == "clo_env":
        return b.args[int(n)]
    if o == "clo":
        return b.args[1][int(n)]
    if o == "upd":
        base, pe, val = b.args
        if pe == ("f", n):
            return val
        if pe[0] == "f":
            return field(base, n)
    if n in ("pointer",) and o != "agg":
        return b
    return mk("field", b, n)


def vf(b, variant, n):
    """payload `n` of `b` seen as `variant`"""
    o = b.op
    if o == "agg":
        return field(b, n)
    if o == "upd":
        base, pe, val = b.args
        if pe == ("vf", variant, n):
            return val
        return vf(base, variant, n)
    if o == "get" and variant == "Some":
        return index(b.args[0], b.args[1])
    if o == "optif" and variant == "Some":
        return b.args[1]
    if o == "mget" and variant == "Some":
        return mslot(*b.args)
    if o == "getr" and variant == "Some":
        return slice_(b.args[0], b.args[1], b.args[2])
    if o == "strip" and variant == "Some":
        return mk("after", b.args[0], b.args[1])
    if o == "csub" and variant == "Some":
        return sub(b.args[0], b.args[1])
    return mk("vf", b, variant, n)


def member(s, k):
    x = s
    while x.op in ("sadd", "mput", "srem", "mrem"):
        if x.args[1] is k:
            return FALSE if x.op in ("srem", "mrem") else TRUE
        x = x.args[0]
    if s.op == "emptymap":
        return FALSE
    return mk("contains", s, k)


def mslot(m, k):
    while m.op == "mput":
        if m.args[1] is k:
            return m.args[2]
        m = m.args[0]
    return mk("mslot", m, k)


def index(x, i):
    if x.op in ("seq", "arr") and i.op == "int" and 0 <= i.args[0] < len(x.args):
        return x.args[i.args[0]]
    # v[i] with i ranging over 0..len(v) is the element the loop is at
    if i.op == "elem" and i.args[0].op == "range":
        r = i.args[0]
        if r.args[0] is ZERO and r.args[1] is length(x):
            return mk("elem", mk("over", x), *i.args[1:])
    # the element just appended
    if x.op == "push" and i is length(x.args[0]):
        return x.args[1]
    return mk("index", x, i)


def slice_(x, a, b):
    if a is ZERO and b is None:
        return x
    if x.op == "slice" and b is None and x.args[2] is None:
        return slice_(x.args[0], add(x.args[1], a), None)
    return mk("slice", x, a, b)


def length(x):
    o = x.op
    if o in ("seq", "arr"):
        return integer(len(x.args))
    if o == "str":
        return integer(len(x.args[0].encode()))
    if o == "push":
        return add(length(x.args[0]), ONE)
    if o == "sorted":
        return length(x.args[0])
    return mk("len", x)


def empty(x):
    o = x.op
    if o in ("seq", "arr"):
        return boolean(len(x.args) == 0)
    if o == "str":
        return boolean(x.args[0] == "")
    if o == "push":
        return FALSE
    if o == "sorted":
        return empty(x.args[0])
    return mk("empty", x)


def _addends(t, acc, sign=1):
    if t.op == "int":
        acc[None] = acc.get(None, 0) + sign * t.args[0]
    elif t.op == "sum":
        for c, x in t.args[0]:
            acc[x] = acc.get(x, 0) + sign * c
        acc[None] = acc.get(None, 0) + sign * t.args[1]
    else:
        acc[t] = acc.get(t, 0) + sign


def _mksum(acc):
    c = acc.pop(None, 0)
    items = sorted(((k, x) for x, k in acc.items() if k != 0), key=lambda p: p[1].id)
    if not items:
        return integer(c)
    if c == 0 and len(items) == 1 and items[0][0] == 1:
        return items[0][1]
    return mk("sum", tuple(items), c)


def add(a, b):
    acc = {}
    _addends(a, acc)
    _addends(b, acc)
    return _mksum(acc)


def sub(a, b):
    acc = {}
    _addends(a, acc)
    _addends(b, acc, -1)
    return _mksum(acc)


def not_(t):
    if t.op == "bool":
        return boolean(not t.args[0])
    if t.op == "not":
        return t.args[0]
    return mk("not", t)


CONST = ("int", "bool", "char", "str")


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in CONST and b.op in CONST:
        if a.op == b.op:
            return boolean(a.args == b.args)
    if a.op == "agg" and b.op == "agg" and a.args[1] != b.args[1]:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    # emptiness has one spelling
    for x, y in ((a, b), (b, a)):
        if y is ZERO and x.op == "len":
            return empty(x.args[0])
        if y is EMPTY_STR or y is EMPTY_SEQ:
            return empty(x)
    # move constants / cancel common addends
    if a.op in ("sum", "int") or b.op in ("sum", "int"):
        acc = {}
        _addends(a, acc)
        _addends(b, acc, -1)
        acc = {k: v for k, v in acc.items() if v != 0}
        if not acc:
            return TRUE
        if len(acc) == 1 and None in acc:
            return FALSE
        pos = {k: v for k, v in acc.items() if v > 0}
        neg = {k: -v for k, v in acc.items() if v < 0}
        a, b = _mksum(pos), _mksum(neg)
        for x, y in ((a, b), (b, a)):
            if y is ZERO and x.op == "len":
                return empty(x.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def drawn_below(a, b):
    """the documented contract of random_range(lo..hi): the value drawn is below hi"""
    a = [x for x in a if is_t(x)]
    if len(a) < 2 or a[-1].op != "agg":
        return False
    return field(a[-1], "end") is b and a[-1].args[0].endswith("Range")


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return boolean(a.args[0] < b.args[0])
    if b is ZERO:
        return FALSE  # unsigned everywhere in this crate
    if a.op == "call" and a.args[0] == "rand::rng::Rng::random_range" and drawn_below(a.args[1], b):
        return TRUE
    if b.op == "len":
        if a is ZERO:
            return not_(empty(b.args[0]))
    if a is ONE and b.op == "len":
        return mk("and", not_(empty(b.args[0])), not_(eq(b, ONE)))
    if a.op == "len" and b is ONE:
        return empty(a.args[0])
    if a is ZERO and b.op not in ("int",):
        return not_(eq(b, ZERO))
    if b is ONE:
        return eq(a, ZERO)
    if a.op in ("sum", "int") or b.op in ("sum", "int"):
        # cancel common addends; a+1 < b+1 is a < b, a < a+1 is true
        acc = {}
        _addends(a, acc)
        _addends(b, acc, -1)
        acc = {k: v for k, v in acc.items() if v != 0}
        if not acc or (len(acc) == 1 and None in acc):
            return boolean(acc.get(None, 0) < 0)
        a2 = _mksum({k: v for k, v in acc.items() if v > 0})
        b2 = _mksum({k: -v for k, v in acc.items() if v < 0})
        if a2 is not a or b2 is not b:
            return lt(a2, b2)
        # the place after a position in x: before the end unless it is the end
        if b.op == "len" and a.op == "sum" and a.args[1] == 1 and len(a.args[0]) == 1:
            (n, i), = a.args[0]
            if n == 1 and i.op == "elem" and i.args[0].op == "range" and i.args[0].args[0] is ZERO and i.args[0].args[1] is b:
                return not_(eq(a, b))
        # a < b+1  is  a <= b
        if b.op == "sum" and b.args[1] == 1:
            return not_(lt(sub(b, ONE), a))
    return mk("lt", a, b)


def cat(*parts):
    """string concatenation, flattened; adjacent literals merged"""
    out = []
    for p in parts:
        if p.op == "cat":
            sub_ = list(p.args)
        else:
            sub_ = [p]
        for s in sub_:
            if s is EMPTY_STR:
                continue
            if out and s.op == "str" and out[-1].op == "str":
                out[-1] = mk("str", out[-1].args[0] + s.args[0])
            else:
                out.append(s)
    if not out:
        return EMPTY_STR
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def char_str(c):
    if c.op == "char":
        return mk("str", chr(c.args[0]))
    return mk("chstr", c)


def subterms(t, seen=None):
    """all subterms, once each"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(term)->term or None"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(rewrite(x, f, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        na = tuple(rewrite(x, f, memo) for x in t.args)
        r = t if na == t.args else remk(t.op, na)
    memo[t] = r
    return r


def remk(op, a):
    if op == "field":
        return field(*a)
    if op == "vf":
        return vf(*a)
    if op == "index":
        return index(*a)
    if op == "len":
        return length(*a)
    if op == "empty":
        return empty(*a)
    if op == "eq":
        return eq(*a)
    if op == "lt":
        return lt(*a)
    if op == "not":
        return not_(*a)
    if op == "cat":
        return cat(*a)
    if op == "slice":
        return slice_(*a)
    if op == "sum":
        r = integer(a[1])
        for c, x in a[0]:
            for _ in range(abs(c)):
                r = add(r, x) if c > 0 else sub(r, x)
        return r
    return mk(op, *a)
