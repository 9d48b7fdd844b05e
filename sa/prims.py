"""Meaning of the library calls the crate makes."""
from .terms import *
from . import facts as F

PRIMS = {}
MODELS = {}


def prim(*names):
    def d(f):
        for n in names:
            PRIMS[n] = f
        return f

    return d


IT = "core::iter::traits::iterator::Iterator::"
O = "core::option::Option::"
R = "core::result::Result::"
for n in "map and_then unwrap_or unwrap_or_else map_or map_or_else ok_or ok_or_else filter is_some is_none is_some_and is_none_or or or_else flatten inspect zip take and xor insert get_or_insert replace transpose".split():
    MODELS[O + n] = "option_" + n
for n in "map map_err and_then or_else unwrap_or unwrap_or_else map_or map_or_else ok err is_ok is_err is_ok_and and or is_err_and inspect inspect_err flatten transpose".split():
    MODELS[R + n] = "result_" + n
for n in "any all find find_map for_each fold count reduce position".split():
    MODELS[IT + n] = "iter_" + n
MODELS["bool::then"] = "bool_then"
MODELS["bool::then_some"] = "bool_then_some"
MODELS["<core::option::Option as core::ops::try_trait::Try>::branch"] = "option_branch"
MODELS["<core::result::Result as core::ops::try_trait::Try>::branch"] = "result_branch"
MODELS["core::option::Option::get_or_insert_with"] = "entry_get_or_insert_with"

ITER_OPS = {"over", "uover", "chars", "bytesof", "charidx", "range", "map", "filter", "filter_map", "enumerate", "flatmap", "chain", "zip", "rev", "skip", "take", "opt", "diff", "custom", "after1", "take_while", "skip_while", "iterof", "peekable", "once", "step_by", "windows", "inspect"}


# ---- identities ---------------------------------------------------------
def ident(c, st, a):
    return c.E.content(st, a[0])


def ident_ref(c, st, a):
    return a[0]


for n in """core::clone::Clone::clone alloc::string::String::as_str alloc::string::String::as_bytes alloc::string::String::into_boxed_str
core::convert::AsRef::as_ref core::borrow::Borrow::borrow alloc::borrow::ToOwned::to_owned core::convert::Into::into core::convert::From::from
alloc::rcs::rc::Rc::new alloc::boxed::Box::new alloc::vec::Vec::as_slice alloc::vec::Vec::into_boxed_slice alloc::vec::Vec::shrink_to_fit
core::option::Option::as_ref core::option::Option::cloned core::option::Option::copied core::option::Option::as_deref core::result::Result::as_ref
core::iter::traits::iterator::Iterator::cloned core::iter::traits::iterator::Iterator::copied core::hint::must_use core::hint::black_box core::iter::traits::iterator::Iterator::by_ref
core::iter::traits::iterator::Iterator::fuse [T]::to_vec [T]::into_vec alloc::slice::to_vec str::to_owned str::to_string alloc::string::String::into_bytes str::as_bytes str::as_str alloc::borrow::Cow::into_owned
core::convert::identity core::ptr::from_ref core::array::as_slice [T]::as_slice alloc::rc::Rc::new alloc::rc::Rc::clone char::into core::ops::deref::Deref::deref alloc::string::String::clone""".split():
    PRIMS[n] = ident
for n in """core::ptr::from_mut core::ops::deref::DerefMut::deref_mut core::convert::AsMut::as_mut core::option::Option::as_mut core::borrow::BorrowMut::borrow_mut alloc::vec::Vec::as_mut_slice core::option::Option::as_deref_mut""".split():
    PRIMS[n] = ident_ref


@prim("<u64 as core::convert::From<u32>>::from", "<usize as core::convert::From<u32>>::from", "<u128 as core::convert::From<u32>>::from", "<u128 as core::convert::From<u64>>::from", "<u32 as core::convert::From<char>>::from", "<usize as core::convert::From<u16>>::from")
def num_from(c, st, a):
    v = c.E.content(st, a[0])
    if v.op == "int":
        return v
    return mk("cast", c.path.split(" ")[0][1:], v)


@prim("core::convert::From::from")
def from_(c, st, a):
    return conv(c, st, a, "from")


@prim("core::convert::Into::into")
def into_(c, st, a):
    return conv(c, st, a, "into")


def conv(c, st, a, how):
    E = c.E
    src, dst = c.at[0], c.dt
    v = a[0]
    if src == dst:
        return v
    hs, hd = F.head(src), F.head(dst)
    if dst[0] == "adt" and dst[1] == OPT and not (src[0] == "adt" and src[1] == OPT):
        return some(v)
    # a local From impl for these types
    fn = find_from(E, src, dst)
    if fn is not None:
        return E.inline(st, fn, [v], {}, c)
    if hd in ("u64", "usize", "u128", "u32", "i64") and hs in ("u32", "u16", "u8", "u64", "char", "bool"):
        return mk("cast", hd, E.content(st, v))
    if hd == "alloc::string::String" and hs == "char":
        return char_str(E.content(st, v))
    return E.content(st, v)


def find_from(E, src, dst):
    if dst[0] != "adt" and src[0] != "adt":
        return None
    from .engine import tystr

    for fn in E.crate.all:
        d = fn.d
        if d.get("impl_trait") == "core::convert::From" and fn.p.endswith("::from"):
            st = fn.facts.ty(d["impl_self"])
            ta = fn.facts.ty(d["impl_trait_args"][0])
            if unify(st, dst) and unify(ta, src):
                return fn
    return None


def unify(pat, t):
    if pat[0] == "param":
        return True
    if pat[0] == "ref" and t[0] == "ref":
        return unify(pat[2], t[2])
    if pat[0] != t[0]:
        return False
    if pat[0] == "adt":
        return pat[1] == t[1] and all(unify(a, b) for a, b in zip(pat[2], t[2]))
    return True


# the public value types: that their comparisons are the structural ones is an obligation of its own (rules.structural)
VALUES = ["crate::term::Term", "crate::expression::Expression", "crate::production::Production", "crate::grammar::Grammar", "crate::grammar::ParseTree", "crate::grammar::ParseTreeNode", "crate::error::Error"]


@prim("derived:core::clone::Clone::clone")
def d_clone(c, st, a):
    return c.E.content(st, a[0])


@prim("derived:core::cmp::PartialEq::eq", "core::cmp::PartialEq::eq")
def peq(c, st, a):
    E = c.E
    x, y = E.deep(st, a[0]), E.deep(st, a[1])
    # a hand-written local equality is inlined, not assumed structural
    if c.path == "core::cmp::PartialEq::eq" or not c.path.startswith("<crate"):
        t = F.peel(c.at[0])
        if t[0] == "adt":
            fn = E.crate.fns.get(f"<{t[1]} as core::cmp::PartialEq<{t[1]}>>::eq")
            if fn is not None and not fn.d["derived"] and t[1] not in VALUES:
                return E.inline(st, fn, [x, y], {}, c)
    # comparison with a payload-free variant is a variant test
    for p, q in ((x, y), (y, x)):
        if p.op == "agg" and not p.args[2] and q.op != "agg":
            a_ = E.adt(p.args[0])
            if a_ is not None and a_["kind"] == "enum":
                return [("ret", s, boolean(n == p.args[1])) for n, s in E.split_variant(st, q, p.args[0])]
        if p.op == "agg" and p.args[0] == OPT and p.args[1] == "Some" and q.op != "agg":
            out = []
            for n, s in E.split_variant(st, q, OPT):
                out.append(("ret", s, eq(field(p, "0"), vf(q, "Some", "0")) if n == "Some" else FALSE))
            return out
    if x.op == "agg" and y.op == "agg" and x.args[:2] == y.args[:2] and x.args[2]:
        r = TRUE
        for (_, p), (_, q) in zip(x.args[2], y.args[2]):
            r = bool_and_(r, eq(p, q))
        return r
    return eq(x, y)


def bool_and_(a, b):
    from .engine import bool_and

    return bool_and(a, b)


@prim("core::cmp::PartialEq::ne")
def pne(c, st, a):
    r = peq(c, st, a)
    if isinstance(r, T):
        return not_(r)
    return [(k, s, not_(v) if k == "ret" else v) for k, s, v in r]


@prim("core::cmp::PartialOrd::lt")
def plt(c, st, a):
    return lt(c.E.deep(st, a[0]), c.E.deep(st, a[1]))


@prim("core::cmp::PartialOrd::gt")
def pgt(c, st, a):
    return lt(c.E.deep(st, a[1]), c.E.deep(st, a[0]))


@prim("core::cmp::PartialOrd::le")
def ple(c, st, a):
    return not_(lt(c.E.deep(st, a[1]), c.E.deep(st, a[0])))


@prim("core::cmp::PartialOrd::ge")
def pge(c, st, a):
    return not_(lt(c.E.deep(st, a[0]), c.E.deep(st, a[1])))


@prim("core::cmp::min", "core::cmp::Ord::min", "usize::min")
def pmin(c, st, a):
    x, y = (c.E.deep(st, v) for v in a[:2])
    if x.id > y.id:
        x, y = y, x
    return mk("min", x, y)


@prim("core::cmp::max", "core::cmp::Ord::max", "usize::max")
def pmax(c, st, a):
    x, y = (c.E.deep(st, v) for v in a[:2])
    if x.id > y.id:
        x, y = y, x
    return mk("max", x, y)


@prim("core::ptr::eq", "core::ptr::addr_eq")
def ptr_eq(c, st, a):
    x, y = c.E.deep(st, a[0]), c.E.deep(st, a[1])
    if x is y:
        return TRUE
    if x.id > y.id:
        x, y = y, x
    return mk("ptreq", x, y)


# ---- panics ------------------------------------------------------------
@prim("core::panicking::panic_fmt", "core::panicking::panic", "core::panicking::panic_display", "core::panicking::panic_explicit", "std::rt::begin_panic", "core::panicking::unreachable_display", "core::option::expect_failed", "core::panicking::assert_failed", "core::panicking::panic_str_literal", "core::panicking::panic_nounwind")
def panic(c, st, a):
    st.ev("e", "panic", ("panic!",) + tuple(c.E.deep(st, x) for x in a), c.site)
    return [("panic", st, None)]


def unwrap_like(good, bad, adt):
    def h(c, st, a):
        E = c.E
        v = E.content(st, a[0])
        out = []
        for n, s in E.split_variant(st, v, adt):
            if n == good:
                out.append(("ret", s, vf(v, good, "0")))
            else:
                s.ev("e", "panic", (c.path.split("::")[-1], E.deep(s, v)), c.site)
                out.append(("panic", s, None))
        return out

    return h


for n in ("unwrap", "expect", "unwrap_unchecked"):
    PRIMS[O + n] = unwrap_like("Some", "None", OPT)
    PRIMS[R + n] = unwrap_like("Ok", "Err", RES)
PRIMS[R + "unwrap_err"] = PRIMS[R + "expect_err"] = unwrap_like("Err", "Ok", RES)


@prim("core::ops::try_trait::Try::branch")
def try_branch(c, st, a):
    return a[0]


@prim("core::ops::try_trait::FromResidual::from_residual")
def from_residual(c, st, a):
    E = c.E
    v = E.content(st, a[0])
    d = c.dt
    if d[0] == "adt" and d[1] == OPT:
        return NONE
    e = vf(v, "Err", "0")
    # ? converts the error with From
    src = c.at[0]
    se = src[2][1] if src[0] == "adt" and len(src[2]) > 1 else None
    de = d[2][1] if d[0] == "adt" and len(d[2]) > 1 else None
    if se is not None and de is not None and se != de:
        fn = find_from(E, se, de)
        if fn is not None:
            return [(k, s, err(x) if k == "ret" else x) for k, s, x in E.inline(st, fn, [e], {}, c)]
    return err(e)


@prim("core::ops::try_trait::Try::from_output")
def from_output(c, st, a):
    d = c.dt
    return some(a[0]) if d[1] == OPT else ok(a[0])


# ---- function traits ----------------------------------------------------
@prim("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def fn_call(c, st, a):
    E = c.E
    args = E.content(st, a[1])
    n = args.args if args.op == "tup" else None
    if n is None:
        n = [field(args, str(i)) for i in range(len(c.at[1][1]) if c.at[1][0] == "tuple" else 0)]
    return E.call_value(st, a[0], list(n), c)


# ---- strings and formatting ---------------------------------------------
STRLIKE = {"str", "alloc::string::String", "alloc::borrow::Cow"}


def display(c, t, v, how="d"):
    h = F.head(t)
    if how != "d":
        return mk("dbg", v)
    if h in STRLIKE or v.op in ("str", "cat"):
        return v
    if h == "char":
        return char_str(v)
    if h in ("usize", "u32", "u64", "i32", "u8", "i64", "u16", "u128"):
        if v.op == "int":
            return mk("str", str(v.args[0]))
        return mk("dec", v)
    if h == "core::fmt::Arguments":
        return v
    return mk("disp", h, v)


# types whose Display is itself specified; any other local type is written out
SHOWN = {"crate::term::Term", "crate::expression::Expression", "crate::production::Production", "crate::grammar::Grammar", "crate::grammar::ParseTree", "crate::grammar::MermaidParseTree", "crate::error::Error"}


def local_display(c, st, x):
    """[(state, text)] of a value whose Display is a helper of this crate"""
    E = c.E
    t = c.at[0]
    while t[0] == "ref":
        t = t[2]
        x = E.deep(st, x) if x.op != "ref" else x
    h = F.head(t)
    fn = E.crate.fns.get(f"<{h} as core::fmt::Display>::fmt")
    if h in SHOWN or fn is None or any(y.fn is fn for y in E.stack):
        return None
    n = st.facts.get("fmtbufs", 0)
    st.facts["fmtbufs"] = n + 1
    root = ("L", ("fmtbuf", c.site, n), 0)
    st.store[root] = EMPTY_STR
    out = []
    for o in E.inline(st, fn, [x, mk("ref", root, ())], {}, c):
        if o[0] != "ret":
            return None
        if o[2].op == "agg" and o[2].args[1] == "Ok":
            out.append((o[1], E.read(o[1], root, ())))
    return out


@prim("core::fmt::rt::Argument::new_display")
def arg_display(c, st, a):
    r = local_display(c, st.fork(), a[0])
    if r:
        return [("ret", s, mk("farg", t)) for s, t in r]
    return mk("farg", display(c, c.at[0], c.E.deep(st, a[0])))


@prim("core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex", "core::fmt::rt::Argument::new_octal", "core::fmt::rt::Argument::new_binary", "core::fmt::rt::Argument::new_pointer")
def arg_debug(c, st, a):
    return mk("farg", mk(c.path.split("new_")[-1], c.E.deep(st, a[0])))


@prim("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::from_str_nonconst")
def args_str(c, st, a):
    return c.E.deep(st, a[0])


@prim("core::fmt::Arguments::new")
def args_new(c, st, a):
    E = c.E
    tmpl = E.deep(st, a[0])
    args = E.deep(st, a[1])
    if tmpl.op != "bytes":
        return mk("fmtargs", tmpl, args)
    b = bytes.fromhex(tmpl.args[0])
    parts = []
    i = 0
    ai = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(mk("str", b[i : i + n].decode()))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            parts.append(mk("str", b[i : i + ln].decode()))
            i += ln
        else:
            spec = []
            if n & 1:
                spec.append(("flags", b[i : i + 4].hex()))
                i += 4
            if n & 2:
                spec.append(("width", b[i : i + 2].hex()))
                i += 2
            if n & 4:
                spec.append(("prec", b[i : i + 2].hex()))
                i += 2
            if n & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            x = index(args, integer(ai))
            ai += 1
            x = x.args[0] if x.op == "farg" else mk("fargof", x)
            if spec:
                x = mk("spec", x, tuple(spec))
            parts.append(x)
    return cat(*parts)


@prim("alloc::fmt::format")
def fmt_format(c, st, a):
    return c.E.deep(st, a[0])


@prim("alloc::string::ToString::to_string", "alloc::string::SpecToString::spec_to_string")
def to_string(c, st, a):
    r = local_display(c, st.fork(), a[0])
    if r:
        return [("ret", s, t) for s, t in r]
    return display(c, c.at[0], c.E.deep(st, a[0]))


def write_to(c, st, dest, text, infallible):
    """append text to a formatter or String place"""
    E = c.E
    root, path = E.place_of(st, dest)
    if root not in E.sinks:
        old = E.read(st, root, path)
        E.write(st, root, path, cat(old, text))
    st.ev("e", "write", (text, mk("ref", root, path)), c.site)
    if infallible:
        return [("ret", st, UNIT)]
    t = F.head(c.at[0])
    good = st
    res = [("ret", good, ok(UNIT))]
    if t != "alloc::string::String":
        bad = st.fork()
        bad.ev("c", mk("wfail"), True)
        res.append(("ret", bad, err(mk("fmterr"))))
    return res


@prim("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt", "core::fmt::Formatter::write_str", "core::fmt::Write::write_str")
def write_fmt(c, st, a):
    return write_to(c, st, a[0], c.E.deep(st, a[1]), False)


@prim("core::fmt::Write::write_char", "core::fmt::Formatter::write_char")
def write_char(c, st, a):
    return write_to(c, st, a[0], char_str(c.E.deep(st, a[1])), False)


@prim("core::fmt::Display::fmt")
def display_fmt(c, st, a):
    """`x.fmt(f)` / `fmt::Display::fmt(&x, f)`"""
    return write_to2(c, st, a[1], display(c, c.at[0], c.E.deep(st, a[0])))


def write_to2(c, st, dest, text):
    E = c.E
    root, path = E.place_of(st, dest)
    if root not in E.sinks:
        old = E.read(st, root, path)
        E.write(st, root, path, cat(old, text))
    st.ev("e", "write", (text, mk("ref", root, path)), c.site)
    bad = st.fork()
    bad.ev("c", mk("wfail"), True)
    return [("ret", st, ok(UNIT)), ("ret", bad, err(mk("fmterr")))]


@prim("alloc::string::String::new", "alloc::string::String::with_capacity")
def string_new(c, st, a):
    return EMPTY_STR


@prim("alloc::string::String::push_str")
def push_str(c, st, a):
    return write_to(c, st, a[0], c.E.deep(st, a[1]), True)


@prim("core::ops::arith::AddAssign::add_assign")
def add_assign(c, st, a):
    if F.head(c.at[0]) == "alloc::string::String":
        return write_to(c, st, a[0], c.E.deep(st, a[1]), True)
    return c.E.opaque_call(st, c.path, a, c)


@prim("core::ops::arith::Add::add")
def add_op(c, st, a):
    if F.head(c.at[0]) == "alloc::string::String":
        return cat(c.E.deep(st, a[0]), c.E.deep(st, a[1]))
    return c.E.opaque_call(st, c.path, a, c)


@prim("alloc::string::String::push")
def push_char(c, st, a):
    return write_to(c, st, a[0], char_str(c.E.deep(st, a[1])), True)


@prim("str::len", "alloc::string::String::len", "[T]::len", "alloc::vec::Vec::len", "alloc::collections::vec_deque::VecDeque::len", "core::iter::traits::exact_size::ExactSizeIterator::len")
def len_(c, st, a):
    v = c.E.deep(st, a[0])
    if v.op == "over":
        v = v.args[0]
    return length(v)


@prim("str::is_empty", "alloc::string::String::is_empty", "[T]::is_empty", "alloc::vec::Vec::is_empty", "alloc::collections::vec_deque::VecDeque::is_empty")
def is_empty(c, st, a):
    return empty(c.E.deep(st, a[0]))


@prim("str::starts_with")
def starts_with(c, st, a):
    s, p = c.E.deep(st, a[0]), c.E.deep(st, a[1])
    if p is EMPTY_STR:
        return TRUE
    return mk("starts", s, pat(c, st, p))


def pat(c, st, p):
    if p.op == "char":
        return char_str(p)
    if p.op in ("clo", "fn"):
        p = charclass(c.E, p)
        if p.op == "clspred" and p.args[0] and all(len(x) == 1 and len(x[0]) == 2 and x[0][0] == "=" for x in p.args[0]):
            p = mk("seq", *[mk("char", ord(x[0][1])) for x in p.args[0]])
    if p.op == "seq" and p.args and all(x.op == "char" for x in p.args):
        xs = sorted(set(p.args), key=lambda x: x.args[0])
        return char_str(xs[0]) if len(xs) == 1 else mk("seq", *xs)
    return p


@prim("str::strip_prefix")
def strip_prefix(c, st, a):
    return mk("strip", c.E.deep(st, a[0]), pat(c, st, c.E.deep(st, a[1])))


@prim("str::contains")
def str_contains(c, st, a):
    x, p = c.E.deep(st, a[0]), pat(c, st, c.E.deep(st, a[1]))
    if x.op == "str" and 0 < len(x.args[0]) <= 16 and c.E.deep(st, a[1]).op not in ("str", "char", "seq", "clo", "fn") and len(c.at) > 1 and F.head(c.at[1]) == "char":
        return mk("or", *[eq(c.E.deep(st, a[1]), mk("char", ord(y))) for y in sorted(set(x.args[0]))])
    if p.op == "seq" and p.args and all(y.op == "char" for y in p.args):
        return mk("or", *[mk("scontains", x, char_str(y)) for y in p.args])
    return mk("scontains", x, p)


@prim("str::find")
def str_find(c, st, a):
    return mk("sfind", c.E.deep(st, a[0]), pat(c, st, c.E.deep(st, a[1])))


@prim("str::trim_start_matches")
def trim_start_matches(c, st, a):
    return mk("trimstart", c.E.deep(st, a[0]), pat(c, st, c.E.deep(st, a[1])))


@prim("str::trim_start")
def trim_start(c, st, a):
    return mk("trimstart", c.E.deep(st, a[0]), mk("cls", "whitespace"))


@prim("str::bytes")
def str_bytes(c, st, a):
    return mk("bytesof", c.E.deep(st, a[0]))


@prim("str::split_at")
def str_split_at(c, st, a):
    x, i = c.E.deep(st, a[0]), c.E.deep(st, a[1])
    st.ev("e", "panic?", ("slice", x, i), c.site)
    return mk("tup", slice_(x, ZERO, i), slice_(x, i, None))


@prim("str::chars")
def chars(c, st, a):
    return mk("chars", c.E.deep(st, a[0]))


@prim("str::char_indices")
def char_indices(c, st, a):
    return mk("charidx", c.E.deep(st, a[0]))


@prim("char::is_whitespace")
def is_ws(c, st, a):
    return mk("ccls", "whitespace", c.E.deep(st, a[0]))


@prim("char::is_alphabetic")
def is_al(c, st, a):
    return mk("ccls", "alphabetic", c.E.deep(st, a[0]))


def rangeargs(r):
    if r.op == "agg":
        n = r.args[0].split("::")[-1]
        if n == "RangeFrom":
            return field(r, "start"), None
        if n == "Range":
            return field(r, "start"), field(r, "end")
        if n == "RangeTo":
            return ZERO, field(r, "end")
        if n == "RangeFull":
            return ZERO, None
    if r.op == "zst" and "RangeFull" in r.args[0]:
        return ZERO, None
    return None


@prim("[T]::get", "alloc::vec::Vec::get", "str::get", "alloc::collections::vec_deque::VecDeque::get")
def get(c, st, a):
    x, i = c.E.deep(st, a[0]), c.E.deep(st, a[1])
    r = rangeargs(i)
    if r is not None:
        if r == (ZERO, None):
            return some(x)
        if not c.path.startswith("str::") and r[1] is None:
            return mk("optif", not_(lt(length(x), r[0])), slice_(x, r[0], None))
        return mk("getr", x, r[0], r[1])
    if i.op == "int" and x.op == "seq":
        return some(x.args[i.args[0]]) if i.args[0] < len(x.args) else NONE
    return mk("get", x, i)


@prim("[T]::first", "alloc::collections::vec_deque::VecDeque::front")
def first(c, st, a):
    return get(c, st, [a[0], ZERO])


@prim("[T]::last", "alloc::collections::vec_deque::VecDeque::back")
def last(c, st, a):
    x = c.E.deep(st, a[0])
    return mk("get", x, sub(length(x), ONE))


def slot_mut(c, st, r, i):
    E = c.E
    root, path = E.place_of(st, r)
    x = E.deep(st, E.read(st, root, path))
    i = i(x)
    out = []
    for b, s in E.branch(st, lt(i, length(x)) if i is not None else not_(empty(x))):
        j = i if i is not None else sub(length(x), ONE)
        out.append(("ret", s, some(mk("ref", root, path + (("i", j),))) if b else NONE))
    return out


@prim("[T]::get_mut", "alloc::vec::Vec::get_mut", "alloc::collections::vec_deque::VecDeque::get_mut")
def slice_get_mut(c, st, a):
    i = c.E.deep(st, a[1])
    return slot_mut(c, st, a[0], lambda x: i)


@prim("[T]::first_mut", "alloc::collections::vec_deque::VecDeque::front_mut")
def first_mut(c, st, a):
    return slot_mut(c, st, a[0], lambda x: ZERO)


@prim("[T]::last_mut", "alloc::collections::vec_deque::VecDeque::back_mut")
def last_mut(c, st, a):
    return slot_mut(c, st, a[0], lambda x: None)


@prim("[T]::split_first")
def split_first(c, st, a):
    x = c.E.deep(st, a[0])
    return mk("optif", not_(empty(x)), mk("tup", index(x, ZERO), slice_(x, ONE, None)))


@prim("[T]::split_last")
def split_last(c, st, a):
    x = c.E.deep(st, a[0])
    n = sub(length(x), ONE)
    return mk("optif", not_(empty(x)), mk("tup", index(x, n), slice_(x, ZERO, n)))


@prim("core::ops::index::Index::index")
def index_(c, st, a):
    E = c.E
    x, i = E.deep(st, a[0]), E.deep(st, a[1])
    r = rangeargs(i)
    if r is not None:
        fits = r[1] is None and F.head(c.at[0]) not in ("str", "alloc::string::String") and (
            r[0] is ZERO or E.known(st, lt(length(x), r[0])) is False or (r[0] is ONE and E.known(st, empty(x)) is False)
        )
        if r != (ZERO, None) and not fits:
            st.ev("e", "panic?", ("slice", x, r[0]) + ((r[1],) if r[1] is not None else ()), c.site)
        return slice_(x, r[0], r[1])
    if F.head(c.at[0]).endswith(("HashMap", "BTreeMap")):
        if E.known(st, member(x, i)) is not True:
            st.ev("e", "panic?", ("mapindex", x, i), c.site)
            if not E.assume(st, member(x, i), True):
                return []
        return vf(mk("mget", x, i), "Some", "0")
    cond = lt(i, length(x))
    if E.known(st, cond) is not True:
        st.ev("e", "panic?", ("bounds", length(x), i), c.site)
        if not E.assume(st, cond, True):
            return []
    return index(x, i)


@prim("[T]::join", "[T]::concat", "alloc::slice::Join::join", "alloc::slice::join")
def join(c, st, a):
    return mk("join", c.E.deep(st, a[0]), c.E.deep(st, a[1]) if len(a) > 1 else EMPTY_STR)


@prim("derived:core::cmp::Ord::cmp")
def ord_cmp(c, st, a):
    return mk("cmp", c.E.deep(st, a[0]), c.E.deep(st, a[1]))


# ---- integers -----------------------------------------------------------
@prim("usize::checked_sub", "u32::checked_sub", "u64::checked_sub")
def checked_sub(c, st, a):
    x, y = c.E.deep(st, a[0]), c.E.deep(st, a[1])
    return mk("csub", x, y)


@prim("usize::saturating_sub", "u64::saturating_sub", "u32::saturating_sub")
def sat_sub(c, st, a):
    return mk("satsub", c.E.deep(st, a[0]), c.E.deep(st, a[1]))


@prim("usize::saturating_mul", "usize::wrapping_add", "usize::wrapping_sub", "u32::wrapping_add", "u64::saturating_add", "u32::saturating_add", "u32::checked_add", "u64::checked_add", "usize::saturating_add", "usize::checked_add", "usize::wrapping_mul", "usize::abs_diff", "usize::pow")
def int_op(c, st, a):
    return mk("iop", c.path, *[c.E.deep(st, x) for x in a])


# ---- Vec / VecDeque -----------------------------------------------------
@prim("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::collections::vec_deque::VecDeque::new", "alloc::collections::vec_deque::VecDeque::with_capacity", "<alloc::vec::Vec as core::default::Default>::default", "<alloc::collections::vec_deque::VecDeque as core::default::Default>::default")
def vec_new(c, st, a):
    return EMPTY_SEQ


@prim("<alloc::string::String as core::default::Default>::default")
def string_default(c, st, a):
    return EMPTY_STR


def default_of(t):
    h = F.head(t)
    if h in ("str", "alloc::string::String"):
        return EMPTY_STR
    if h in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "slice"):
        return EMPTY_SEQ
    if h in ("usize", "u8", "u16", "u32", "u64", "isize", "i32", "i64"):
        return ZERO
    if h == "bool":
        return FALSE
    if h == OPT:
        return NONE
    if h.endswith(("HashMap", "BTreeMap", "HashSet", "BTreeSet")):
        return mk("emptymap")
    return None


@prim("core::mem::replace")
def mem_replace(c, st, a):
    root, path = c.E.place_of(st, a[0])
    old = c.E.read(st, root, path)
    c.E.write(st, root, path, a[1])
    return old


@prim("[T]::sort", "[T]::sort_unstable")
def sort(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    x = E.read(st, root, path)
    st.ev("e", "order", (mk("ref", root, path), "sorted"), c.site)
    E.write(st, root, path, mk("sorted", x))
    return UNIT


@prim("core::mem::take")
def mem_take(c, st, a):
    d = default_of(c.dt)
    if d is None:
        c.E.unknown[c.path] = 1
        d = mk("default", F.head(c.dt))
    return mem_replace(c, st, [a[0], d])


@prim("core::mem::swap")
def mem_swap(c, st, a):
    E = c.E
    p, q = E.place_of(st, a[0]), E.place_of(st, a[1])
    x, y = E.read(st, *p), E.read(st, *q)
    E.write(st, *p, y)
    E.write(st, *q, x)
    return mk("tup")


@prim("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def unwrap_or_default(c, st, a):
    E = c.E
    d = default_of(c.dt)
    if d is None:
        return E.opaque_call(st, c.path, a, c)
    opt = "Option" in c.path
    v = E.content(st, a[0])
    out = []
    for n, s in E.split_variant(st, v, OPT if opt else RES):
        good = "Some" if opt else "Ok"
        out.append(("ret", s, vf(v, good, "0") if n == good else d))
    return out


@prim("alloc::boxed::Box::new_uninit", "alloc::boxed::Box::new_uninit_in")
def box_uninit(c, st, a):
    st.hn += 1
    return mk("ref", ("H", st.hn, len(c.E.stack)), ())


@prim("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::assume_init", "alloc::slice::into_vec")
def box_assume(c, st, a):
    v = c.E.content(st, a[0])
    for _ in range(3):
        if v.op == "upd":
            v = v.args[2]
    if v.op == "seq":
        return v
    return c.E.deep(st, v)


def container_event(name):
    pass


@prim("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back")
def vec_push(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    old = E.read(st, root, path)
    x = a[1]
    new = mk("seq", *(old.args + (x,))) if old.op == "seq" else mk("push", old, x)
    E.write(st, root, path, new)
    st.ev("e", "push", (mk("ref", root, path), E.deep(st, old), E.deep(st, x)), c.site)
    return UNIT


@prim("alloc::collections::vec_deque::VecDeque::push_front")
def vec_push_front(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    old = E.read(st, root, path)
    E.write(st, root, path, mk("pushf", old, a[1]))
    st.ev("e", "pushf", (mk("ref", root, path), E.deep(st, old), E.deep(st, a[1])), c.site)
    return UNIT


@prim("alloc::vec::Vec::insert", "alloc::collections::vec_deque::VecDeque::insert")
def vec_insert(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    old = E.read(st, root, path)
    i, x = E.deep(st, a[1]), E.deep(st, a[2])
    E.write(st, root, path, mk("vinsert", old, i, x))
    st.ev("e", "vinsert", (mk("ref", root, path), E.deep(st, old), i, x), c.site)
    return UNIT


@prim("alloc::vec::Vec::clear", "hashbrown::set::HashSet::clear", "hashbrown::map::HashMap::clear", "alloc::collections::vec_deque::VecDeque::clear", "alloc::string::String::clear")
def vec_clear(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    new = EMPTY_STR if "String" in c.path else (EMPTY_SEQ if "Vec" in c.path else mk("emptymap"))
    E.write(st, root, path, new)
    st.ev("e", "clear", (mk("ref", root, path),), c.site)
    return UNIT


def pop_at(which):
    def h(c, st, a):
        E = c.E
        root, path = E.place_of(st, a[0])
        old = E.read(st, root, path)
        out = []
        for b, s in E.branch(st, empty(E.deep(st, old))):
            if b:
                out.append(("ret", s, NONE))
            else:
                x = index(old, ZERO) if which == "front" else index(old, sub(length(old), ONE))
                x = mk("popped", which, E.deep(s, old))
                E.write(s, root, path, mk("pop" + which, old))
                s.ev("e", "pop" + which, (mk("ref", root, path), E.deep(s, old), x), c.site)
                out.append(("ret", s, some(x)))
        return out

    return h


PRIMS["alloc::collections::vec_deque::VecDeque::pop_front"] = pop_at("front")
PRIMS["alloc::collections::vec_deque::VecDeque::pop_back"] = pop_at("back")
PRIMS["alloc::vec::Vec::pop"] = pop_at("back")


@prim("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove", "alloc::collections::vec_deque::VecDeque::remove")
def vec_remove(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    old = E.read(st, root, path)
    i = E.deep(st, a[1])
    nm = c.path.split("::")[-1]
    if E.known(st, lt(i, length(old))) is not True:
        st.ev("e", "panic?", ("bounds", length(E.deep(st, old)), i), c.site)
    E.write(st, root, path, mk(nm, old, i))
    st.ev("e", nm, (mk("ref", root, path), E.deep(st, old), i), c.site)
    return index(old, i)


@prim("[T]::contains", "alloc::collections::vec_deque::VecDeque::contains")
def contains(c, st, a):
    xs = c.E.deep(st, a[0])
    if xs.op == "seq" and 0 < len(xs.args) <= 16 and all(x.op == "char" for x in xs.args):
        return mk("or", *[eq(c.E.deep(st, a[1]), x) for x in xs.args])
    return mk("contains", c.E.deep(st, a[0]), c.E.deep(st, a[1]))


@prim("[T]::binary_search")
def binary_search(c, st, a):
    return mk("bsearch", c.E.deep(st, a[0]), c.E.deep(st, a[1]))


@prim("[T]::partition_point")
def partition_point(c, st, a):
    """of a sorted list, by `x < k`: where k stands or belongs"""
    E = c.E
    v = E.deep(st, a[0])
    x = sym("pp")
    outs = E.call_value(st.fork(), a[1], [x], c)
    r = E.deep(outs[0][1], outs[0][2]) if len(outs) == 1 else None
    k = r.args[1] if r is not None and r.op == "lt" and not any(t is x for t in subterms(r.args[1])) else None
    y = r.args[0] if k is not None else None
    while k is not None and y is not x:
        if y.op == "field" and k.op == "field" and y.args[1] == k.args[1]:
            y, k = y.args[0], k.args[0]
        else:
            k = None
    if k is None:
        E.unknown[c.tpath] = 1
        return mk("call", c.tpath, (v, E.deep(st, a[1])))
    res = []
    for kind, s, p in E.inline(st, E.models.fns["crate::partition_position"], [v, k], {}, c):
        p = E.deep(s, p)
        if kind == "ret" and p.op == "vf":
            here = eq(index(v, p), k)
            if p.args[1] == "Ok":
                s.facts[lt(p, length(v))] = True
            s.facts[here] = p.args[1] == "Ok"
        res.append((kind, s, p))
    return res


@prim("alloc::vec::Vec::reserve", "alloc::string::String::reserve", "hashbrown::set::HashSet::reserve", "hashbrown::map::HashMap::reserve", "alloc::collections::vec_deque::VecDeque::reserve")
def reserve(c, st, a):
    return UNIT


@prim("alloc::vec::Vec::append")
def vec_append(c, st, a):
    E = c.E
    r2, p2 = E.place_of(st, a[1])
    src = E.read(st, r2, p2)
    E.write(st, r2, p2, EMPTY_SEQ)
    fn = E.models.fns["crate::vec_extend"]
    return E.inline(st, fn, [a[0], mk("over", src)], {}, c)


@prim("alloc::vec::Vec::extend_from_slice", "core::iter::traits::collect::Extend::extend")
def extend(c, st, a):
    E = c.E
    h = F.head(c.at[0])
    m = "vec_extend"
    if h.endswith("HashSet"):
        m = "set_extend"
    elif h == "alloc::string::String":
        m = "string_extend"
    return E.inline(st, E.models.fns["crate::" + m], [a[0], to_iter(c, st, a[1], c.at[1])], {}, c)


# ---- maps and sets ------------------------------------------------------
MAPS = ("hashbrown::map::HashMap", "std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap")
SETS = ("hashbrown::set::HashSet", "std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet")


def mprim(*names):
    return prim(*[m + "::" + n for m in MAPS for n in names])


def sprim(*names):
    return prim(*[m + "::" + n for m in SETS for n in names])


@mprim("new", "with_capacity", "default")
def map_new(c, st, a):
    return mk("emptymap")


@sprim("new", "with_capacity", "default")
def set_new(c, st, a):
    return mk("emptymap")


for m in MAPS + SETS:
    PRIMS[f"<{m} as core::default::Default>::default"] = map_new


@prim(*["%s::len" % m for m in MAPS + SETS])
def map_len(c, st, a):
    return length(c.E.deep(st, a[0]))


@prim(*["%s::is_empty" % m for m in MAPS + SETS])
def map_is_empty(c, st, a):
    m = c.E.deep(st, a[0])
    return TRUE if m.op == "emptymap" else FALSE if m.op in ("sadd", "mput") else empty(m)


@sprim("is_subset", "is_superset", "is_disjoint")
def set_relation(c, st, a):
    n = c.path.split("::")[-1]
    x, y = c.E.deep(st, a[0]), c.E.deep(st, a[1])
    if n == "is_superset":
        n, x, y = "is_subset", y, x
    if n == "is_subset":
        return empty(mk("diff", x, y))
    x, y = sorted((x, y), key=repr)
    return mk("disjoint", x, y)


@mprim("remove")
def map_remove(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    old = E.read(st, root, path)
    k = E.deep(st, a[1])
    E.write(st, root, path, mk("mrem", old, k))
    st.ev("e", "mrem", (mk("ref", root, path), E.deep(st, old), k), c.site)
    return mk("mget", E.deep(st, old), k)


@sprim("contains")
def set_contains(c, st, a):
    return member(c.E.deep(st, a[0]), c.E.deep(st, a[1]))


@mprim("contains_key")
def map_contains(c, st, a):
    return member(c.E.deep(st, a[0]), c.E.deep(st, a[1]))


@sprim("insert")
def set_insert(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    old = E.read(st, root, path)
    x = E.deep(st, a[1])
    m = member(E.deep(st, old), x)
    E.write(st, root, path, mk("sadd", old, x))
    st.ev("e", "sadd", (mk("ref", root, path), E.deep(st, old), x), c.site)
    return not_(m)


@sprim("remove")
def set_remove(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    old = E.read(st, root, path)
    x = E.deep(st, a[1])
    m = member(E.deep(st, old), x)
    E.write(st, root, path, mk("srem", old, x))
    st.ev("e", "srem", (mk("ref", root, path), E.deep(st, old), x), c.site)
    return m


@prim(*["<&%s as core::ops::arith::Sub<&%s>>::sub" % (m, m) for m in SETS])
@sprim("difference")
def set_difference(c, st, a):
    return mk("diff", c.E.deep(st, a[0]), c.E.deep(st, a[1]))


@mprim("get")
def map_get(c, st, a):
    m, k = c.E.deep(st, a[0]), c.E.deep(st, a[1])
    x = m
    while x.op == "mput":
        if x.args[1] is k:
            return some(x.args[2])
        x = x.args[0]
    if m.op == "emptymap":
        return NONE
    return mk("mget", m, k)


@mprim("insert")
def map_insert(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    old = E.read(st, root, path)
    k, v = E.deep(st, a[1]), E.deep(st, a[2])
    E.write(st, root, path, mk("mput", old, k, v))
    st.ev("e", "mput", (mk("ref", root, path), E.deep(st, old), k, v), c.site)
    return mk("mget", E.deep(st, old), k)


@mprim("entry")
def map_entry(c, st, a):
    root, path = c.E.place_of(st, a[0])
    return mk("entry", mk("ref", root, path), c.E.deep(st, a[1]))


@mprim("get_mut")
def map_get_mut(c, st, a):
    E = c.E
    root, path = E.place_of(st, a[0])
    k = E.deep(st, a[1])
    m = E.deep(st, E.read(st, root, path))
    out = []
    for b, s in E.branch(st, member(m, k)):
        out.append(("ret", s, some(mk("ref", root, path + (("k", k),))) if b else NONE))
    return out


EPATHS = ("hashbrown::map::Entry", "std::collections::hash::map::Entry", "alloc::collections::btree::map::entry::Entry")


def eprim(*names):
    return prim(*[m + "::" + n for m in EPATHS for n in names])


@eprim("or_default")
def or_default(c, st, a):
    # an absent slot reads as the default, so no split is needed
    e = a[0]
    root, path = e.args[0].args
    return mk("ref", root, path + (("k", e.args[1]),))


def entry_insert(c, st, e, thunk):
    E = c.E
    root, path = e.args[0].args
    k = e.args[1]
    m = E.deep(st, E.read(st, root, path))
    slot = mk("ref", root, path + (("k", k),))
    out = []
    for b, s in E.branch(st, member(m, k)):
        if b:
            out.append(("ret", s, slot))
            continue
        for kind, s2, v in thunk(s):
            if kind != "ret":
                out.append((kind, s2, v))
                continue
            if v.op == "emptymap" or (v.op == "seq" and not v.args):
                # an absent slot reads as empty (see or_default)
                out.append(("ret", s2, slot))
                continue
            old = E.read(s2, root, path)
            v = E.deep(s2, v)
            E.write(s2, root, path, mk("mput", old, k, v))
            s2.ev("e", "mput", (mk("ref", root, path), E.deep(s2, old), k, v), c.site)
            out.append(("ret", s2, slot))
    return out


@eprim("or_insert_with")
def or_insert_with(c, st, a):
    return entry_insert(c, st, a[0], lambda s: c.E.apply(s, a[1], [], c))


@eprim("or_insert_with_key")
def or_insert_with_key(c, st, a):
    return entry_insert(c, st, a[0], lambda s: c.E.apply(s, a[1], [a[0].args[1]], c))


@eprim("or_insert")
def or_insert(c, st, a):
    return entry_insert(c, st, a[0], lambda s: [("ret", s, a[1])])


# ---- iterators ----------------------------------------------------------
def to_iter(c, st, v, ty=None):
    E = c.E
    raw = v
    v = E.content(st, v) if v.op == "ref" else v
    if v.op in ITER_OPS:
        return v
    if v.op == "agg":
        n = v.args[0]
        if n == "core::ops::range::Range":
            return mk("range", E.deep(st, field(v, "start")), E.deep(st, field(v, "end")))
        if n == OPT:
            return mk("opt", v)
        if E.crate.fns.get(f"<{n} as core::iter::traits::iterator::Iterator>::next"):
            return mk("custom", E.deep(st, v))
    if ty is not None:
        h = F.head(ty)
        if h == OPT:
            return mk("opt", v)
        if h in MAPS or h in SETS:
            return mk("uover", E.deep(st, v))
        if h.startswith("core::iter") or h.startswith("core::slice::iter") or h == "param" or ty[0] == "alias":
            return mk("iterof", E.deep(st, v)) if v.op not in ("sym", "field", "vf") else mk("iterof", v)
    return mk("over", E.deep(st, v))


@prim("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(c, st, a):
    v = a[0]
    # `for x in &mut it` iterates the iterator itself
    if v.op == "ref":
        inner = c.E.content(st, v)
        if inner.op in ITER_OPS:
            return v
        if inner.op == "agg" and c.E.crate.fns.get(f"<{inner.args[0]} as core::iter::traits::iterator::Iterator>::next"):
            return v
    if v.op == "agg" and c.E.crate.fns.get(f"<{v.args[0]} as core::iter::traits::iterator::Iterator>::next"):
        return v
    return to_iter(c, st, v, c.at[0])


@prim("[T]::iter", "[T]::iter_mut", "alloc::collections::vec_deque::VecDeque::iter", "alloc::vec::Vec::drain", "alloc::vec::Vec::iter", "alloc::collections::vec_deque::VecDeque::drain")
def slice_iter(c, st, a):
    E = c.E
    x = E.deep(st, a[0])
    if c.path.endswith("drain"):
        root, path = E.place_of(st, a[0])
        E.write(st, root, path, EMPTY_SEQ)
        st.ev("e", "clear", (mk("ref", root, path),), c.site)
    return mk("over", x)


@mprim("iter", "keys", "values", "into_iter", "iter_mut", "values_mut", "drain", "into_keys", "into_values")
def map_iter(c, st, a):
    n = c.path.split("::")[-1]
    st.ev("e", "uiter", (c.E.deep(st, a[0]), mk("str", n)), c.site)
    return mk("uover", mk("mview", n, c.E.deep(st, a[0])))


@sprim("iter", "into_iter", "drain", "intersection", "union", "symmetric_difference")
def set_iter(c, st, a):
    n = c.path.split("::")[-1]
    if n in ("iter", "into_iter"):
        return mk("uover", c.E.deep(st, a[0]))
    return mk("uover", mk("sview", n, *[c.E.deep(st, x) for x in a]))


@prim("core::option::Option::iter", "core::option::Option::into_iter")
def opt_iter(c, st, a):
    return mk("opt", c.E.content(st, a[0]))


@prim(IT + "map")
def it_map(c, st, a):
    return mk("map", to_iter(c, st, a[0], c.at[0]), a[1])


@prim(IT + "inspect")
def it_inspect(c, st, a):
    return mk("inspect", to_iter(c, st, a[0], c.at[0]), a[1])


@prim(IT + "filter")
def it_filter(c, st, a):
    it = to_iter(c, st, a[0], c.at[0])
    if it.op == "uover":
        # what is kept of a set is often the difference with another set
        s2, x = st.fork(), mk("probe", it)
        outs = c.E.apply(s2, a[1], [x], c)
        if len(outs) == 1 and outs[0][0] == "ret":
            b = outs[0][1] and c.E.content(outs[0][1], outs[0][2])
            if b.op == "not" and b.args[0].op == "contains" and b.args[0].args[1] is x and not any(t is x for t in subterms(b.args[0].args[0])):
                return mk("diff", it.args[0], b.args[0].args[0])
    return mk("filter", it, a[1])


@prim(IT + "filter_map")
def it_filter_map(c, st, a):
    return mk("filter_map", to_iter(c, st, a[0], c.at[0]), a[1])


@prim(IT + "take_while")
def it_take_while(c, st, a):
    return mk("take_while", to_iter(c, st, a[0], c.at[0]), a[1])


@prim(IT + "skip_while")
def it_skip_while(c, st, a):
    return mk("skip_while", to_iter(c, st, a[0], c.at[0]), a[1])


@prim(IT + "enumerate")
def it_enumerate(c, st, a):
    return mk("enumerate", to_iter(c, st, a[0], c.at[0]))


@prim(IT + "flat_map")
def it_flat_map(c, st, a):
    return mk("flatmap", to_iter(c, st, a[0], c.at[0]), a[1])


@prim(IT + "flatten")
def it_flatten(c, st, a):
    return mk("flatmap", to_iter(c, st, a[0], c.at[0]), mk("fn", "core::convert::identity", (), "core::convert::identity", ()))


@prim(IT + "chain")
def it_chain(c, st, a):
    return mk("chain", to_iter(c, st, a[0], c.at[0]), to_iter(c, st, a[1], c.at[1]))


@prim(IT + "zip")
def it_zip(c, st, a):
    return mk("zip", to_iter(c, st, a[0], c.at[0]), to_iter(c, st, a[1], c.at[1]))


@prim(IT + "rev")
def it_rev(c, st, a):
    x = to_iter(c, st, a[0], c.at[0])
    if x.op == "rev":
        return x.args[0]
    if x.op == "map":
        return mk("map", mk("rev", x.args[0]), x.args[1])
    return mk("rev", x)


@prim(IT + "skip", IT + "take", IT + "step_by")
def it_skip(c, st, a):
    n = c.tpath.split("::")[-1]
    it = to_iter(c, st, a[0], c.at[0])
    k = c.E.deep(st, a[1])
    if n == "skip" and it.op == "over" and it.args[0].op != "seq" and k.op == "int":
        return mk("over", slice_(it.args[0], k, None))
    return mk(n, it, k)


@prim(IT + "peekable")
def it_peek(c, st, a):
    return to_iter(c, st, a[0], c.at[0])


@prim("core::iter::adapters::peekable::Peekable::peek")
def peek(c, st, a):
    """the element after the one a loop is at"""
    E = c.E
    if a[0].op == "ref":
        root, path = E.place_of(st, a[0])
        it = E.read(st, root, path)
        b = it
        fs = []
        while b.op in ("map", "inspect"):
            if b.op == "map":
                fs.append(b.args[1])
            b = b.args[0]
        own = owner_loop(E, st, root, path, it)
        if own is not None and b.op == "over":
            act = E.active[own]
            n = st.store.get(("N", act.loop.id, it))
            if n is not None and n.args[0] == 1:
                k = sum(1 for x in E.active[:own] if base_of(it) in [base_of(y) for y in x.chains])
                k += act.hst.facts.get(("used", base_of(it)), 0)
                i = add(idx_of(it, k, 0), ONE)
                outs = []
                for more, s in E.branch(st, lt(i, length(b.args[0]))):
                    if not more:
                        outs.append(("ret", s, NONE))
                        continue
                    vs = [("ret", s, index(b.args[0], i))]
                    for fn in reversed(fs):
                        vs = [y for kd, s1, v in vs for y in (E.apply(s1, fn, [v], c) if kd == "ret" else [(kd, s1, v)])]
                    outs += [(kd, s1, some(v) if kd == "ret" else v) for kd, s1, v in vs]
                return outs
    E.unknown[c.path] = 1
    return E.opaque_call(st, c.path, a, c, ())


@prim("core::iter::sources::once::once")
def it_once(c, st, a):
    return mk("opt", some(a[0]))


@prim("core::iter::sources::empty::empty")
def it_empty(c, st, a):
    return mk("opt", NONE)


def base_of(it):
    """the iterator an adaptor stack draws from"""
    while it.op in ("map", "filter", "enumerate", "filter_map", "take_while", "skip_while", "inspect"):
        it = it.args[0]
    return it


def step(c, st, it, k, n):
    """[(st, 'none'|'some'|'skip', value)] — one pull on an iterator"""
    E = c.E
    o = it.op
    if o == "map":
        out = []
        for s, r, v in step(c, st, it.args[0], k, n):
            if r != "some":
                out.append((s, r, v))
                continue
            for kind, s2, v2 in E.apply(s, it.args[1], [v], c):
                out.append((s2, "some", v2) if kind == "ret" else (s2, kind, v2))
        return out
    if o == "inspect":
        out = []
        for s, r, v in step(c, st, it.args[0], k, n):
            if r != "some":
                out.append((s, r, v))
                continue
            for kind, s2, v2 in E.apply(s, it.args[1], [v], c):
                out.append((s2, "some", v) if kind == "ret" else (s2, kind, v2))
        return out
    if o in ("filter", "take_while", "skip_while"):
        out = []
        for s, r, v in step(c, st, it.args[0], k, n):
            if r != "some":
                out.append((s, r, v))
                continue
            for kind, s2, b in E.apply(s, it.args[1], [v], c):
                if kind != "ret":
                    out.append((s2, kind, b))
                    continue
                for t, s3 in E.branch(s2, E.content(s2, b)):
                    if o == "skip_while":
                        # some prefix is dropped; afterwards everything passes
                        s3.ev("c", mk("skipping", it), t)
                        out.append((s3, "skip" if t else "some", v))
                    else:
                        out.append((s3, "some" if t else ("skip" if o == "filter" else "none"), v))
        return out
    if o == "filter_map":
        out = []
        for s, r, v in step(c, st, it.args[0], k, n):
            if r != "some":
                out.append((s, r, v))
                continue
            for kind, s2, b in E.apply(s, it.args[1], [v], c):
                if kind != "ret":
                    out.append((s2, kind, b))
                    continue
                b = E.content(s2, b)
                for nm, s3 in E.split_variant(s2, b, OPT):
                    out.append((s3, "some", vf(b, "Some", "0")) if nm == "Some" else (s3, "skip", None))
        return out
    if o == "enumerate":
        out = []
        for s, r, v in step(c, st, it.args[0], k, n):
            if r == "some":
                out.append((s, r, mk("tup", idx_of(it.args[0], k, n), v)))
            else:
                out.append((s, r, v))
        return out
    if o == "flatmap":
        out = []
        inner = it.args[0]
        for s, r, v in step(c, st, inner, k, n):
            if r != "some":
                out.append((s, r, v))
                continue
            for kind, s2, sub_ in E.apply(s, it.args[1], [v], c):
                if kind != "ret":
                    out.append((s2, kind, sub_))
                    continue
                si = to_iter(c, s2, sub_, sub_ty(c, it))
                for s3, r3, v3 in step(c, s2, si, k, n):
                    if r3 == "none":
                        r3 = "none" if inner.op == "opt" else "skip"
                    out.append((s3, r3, v3))
        return out
    if o == "chain":
        out = []
        for s, r, v in step(c, st, it.args[0], k, n):
            if r == "none":
                out.extend(step(c, s, it.args[1], k, n))
            else:
                out.append((s, r, v))
        return out
    if o == "zip":
        out = []
        for s, r, v in step(c, st, it.args[0], k, n):
            if r != "some":
                out.append((s, r, v))
                continue
            for s2, r2, v2 in step(c, s, it.args[1], k, n):
                out.append((s2, r2, mk("tup", v, v2)) if r2 == "some" else (s2, r2, v2))
        return out
    if o == "opt":
        out = []
        ov = it.args[0]
        # at most one element, then none: a loop meets both
        t = mk("has", it, k) if n == 0 else mk("has", it, k, n)
        for b, s in E.branch(st, t):
            if not b:
                out.append((s, "none", None))
                continue
            for nm, s2 in E.split_variant(s, ov, OPT):
                if nm == "Some":
                    out.append((s2, "some", vf(ov, "Some", "0")))
        return out
    if o == "over" and it.args[0].op in ("seq",) and not it.args[0].args:
        return [(st, "none", None)]
    t = mk("has", it, k) if n == 0 else mk("has", it, k, n)
    out = []
    for b, s in E.branch(st, t):
        out.append((s, "some", elem(it, k, n)) if b else (s, "none", None))
    return out


def elem(it, k, n=0):
    return mk("elem", it, k) if n == 0 else mk("elem", it, k, n)


def idx_of(it, k, n):
    it = base_of(it) if it.op in ("map", "inspect") else it
    if it.op == "over":
        return elem(mk("range", ZERO, length(it.args[0])), k, n)
    if it.op == "range" and it.args[0] is ZERO:
        return elem(it, k, n)
    return mk("idx", it, k, n)


def sub_ty(c, it):
    return None


def owner_loop(E, st, root, path, it):
    """innermost active loop that was already holding this iterator"""
    for i in range(len(E.active) - 1, -1, -1):
        a = E.active[i]
        h = a.hst.store.get(root)
        if h is None and root[0] == "O":
            h = root[1] if root[1].op in ITER_OPS else None
        if h is None:
            continue
        v = E.read(a.hst, root, path)
        if v is it:
            return i
        break
    return None


def is_local_iter_next(E, st, c, args):
    if not (c.tpath == IT + "next" and args):
        return False
    if args[0].op != "ref":
        return False
    root, path = E.place_of(st, args[0])
    v = E.read(st, root, path)
    return v.op == "agg" and owner_loop(E, st, root, path, v) is not None


@prim(IT + "next")
def it_next(c, st, a):
    E = c.E
    if a[0].op != "ref":
        v = a[0]
        return mk("firstof", v)
    root, path = E.place_of(st, a[0])
    it = E.read(st, root, path)
    if it.op == "agg" and it.args[0] == "core::ops::range::Range":
        it2 = mk("range", E.deep(st, field(it, "start")), E.deep(st, field(it, "end")))
    elif it.op == "agg":
        it2 = mk("custom", E.deep(st, it))
    else:
        it2 = it
    own = owner_loop(E, st, root, path, it)
    if own is not None:
        act = E.active[own]
        k = sum(1 for x in E.active[:own] if base_of(it2) in [base_of(y) for y in x.chains])
        k += act.hst.facts.get(("used", base_of(it2)), 0)
        nk = ("N", act.loop.id, it2)
        n = st.store.get(nk)
        n = 0 if n is None else n.args[0]
        st.store[nk] = integer(n + 1)
        if it2 not in act.chains:
            act.chains.append(it2)
        out = []
        for s, r, v in step(c, st, it2, k, n):
            if r == "none":
                out.append(("ret", s, NONE))
            elif r == "some":
                out.append(("ret", s, some(v)))
            elif r == "skip":
                # a filtered-out element just goes round the loop again
                out.append(("skip", s, act.loop.id))
            else:
                out.append((r, s, v))
        return out
    # not a loop: the first element
    return first_of(c, st, it2, (root, path))


def rest_of(it):
    """the iterator once its first element is taken"""
    if it.op == "over" and it.args[0].op != "seq":
        return mk("over", slice_(it.args[0], ONE, None))
    if it.op == "map":
        return mk("map", rest_of(it.args[0]), *it.args[1:])
    return mk("after1", it)


def first_of(c, st, it, place):
    E = c.E
    if place is not None:
        E.write(st, place[0], place[1], rest_of(it))
    if it.op == "over":
        x = it.args[0]
        if x.op == "seq":
            return some(x.args[0]) if x.args else NONE
        if x.op == "slice" and x.args[2] is None:
            return mk("get", x.args[0], x.args[1])
        return mk("get", x, ZERO)
    if it.op == "after1" and it.args[0].op == "over":
        return mk("get", it.args[0].args[0], ONE)
    if it.op == "opt":
        return it.args[0]
    if it.op in ("map", "filter", "filter_map", "flatmap", "enumerate", "chain", "zip", "take_while"):
        outs = step_first(c, st, it)
        return outs
    return mk("firstof", it)


def step_first(c, st, it):
    from .engine import Loop

    E = c.E
    if it.op == "map":
        r = first_of(c, st, it.args[0], None)
        outs = []
        for kind, s, v in E.norm(st, r):
            if kind != "ret":
                outs.append((kind, s, v))
                continue
            for nm, s2 in E.split_variant(s, v, OPT):
                if nm == "None":
                    outs.append(("ret", s2, NONE))
                else:
                    for k2, s3, v3 in E.apply(s2, it.args[1], [vf(v, "Some", "0")], c):
                        outs.append((k2, s3, some(v3) if k2 == "ret" else v3))
        return outs
    # general case: an implicit search loop
    E.nloop += 1
    L = Loop(E.nloop, c.site)
    L.fn = c.fr.fn.p
    L.chains = [it]
    L.exits = []
    base = st.trace
    s0 = st.fork()
    s0.trace = None
    outs = []
    pend = []
    for s, r, v in step(c, s0, it, 0, 0):
        if r == "skip":
            L.paths.append((s.items(), {}))
            if any(s.store.get(k) is not v0 for k, v0 in st.store.items()):
                E.unknown["core::iter search that changes what it looks at"] = 1
        else:
            pend.append((s, r, v))
    for s, r, v in pend:
        items = s.items()
        tr = base
        if L.paths:
            tr = (tr, ("l", L))
        for x in items:
            tr = (tr, x)
        s.trace = tr
        if r == "none":
            outs.append(("ret", s, NONE))
        elif r == "some":
            outs.append(("ret", s, some(v)))
        else:
            outs.append((r, s, v))
    return outs


def member_test(c, st, a):
    """`xs.iter().any(|x| *x == y)` is `xs.contains(&y)`"""
    E = c.E
    it = to_iter(c, st, E.content(st, a[0]), None)
    if it.op != "over" or it.args[0].op in ("seq", "chars", "bytes", "keys", "values"):
        return None
    probe = mk("probe", c.site)
    s = st.fork()
    n = len(s.items())
    try:
        outs = E.call_value(s, a[1], [probe], c)
    except Exception:
        return None
    if len(outs) != 1 or outs[0][0] != "ret" or len(outs[0][1].items()) != n:
        return None
    v = E.content(outs[0][1], outs[0][2])
    if v.op != "eq" or probe not in v.args:
        return None
    y = v.args[1] if v.args[0] is probe else v.args[0]
    if probe in subterms(y):
        return None
    return mk("contains", it.args[0], y)


@prim(IT + "any")
def it_any(c, st, a):
    v = member_test(c, st, a)
    if v is not None:
        return v
    return c.E.inline(st, c.E.models.fns["crate::iter_any"], a, {}, c)


@prim(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def collect(c, st, a):
    E = c.E
    t = c.dt
    h = F.head(t)
    m = "collect_vec"
    if h in SETS:
        m = "collect_set"
    elif h == "alloc::string::String":
        m = "collect_string"
    elif h in MAPS:
        return mk("collectmap", a[0])
    elif h == RES:
        m = "collect_result_vec" if F.head(t[2][0]) != "alloc::string::String" else "collect_result_string"
    elif h == OPT:
        m = "collect_option_vec"
    it = to_iter(c, st, a[0], c.at[0])
    if m == "collect_vec" and it.op in ("chain", "opt"):
        parts = chain_parts(it)
        lead = []
        while parts and parts[0].op == "opt" and parts[0].args[0].op == "agg" and parts[0].args[0].args[1] == "Some":
            lead.append(parts.pop(0).args[0].args[2][0][1])
        if lead:
            if not parts:
                return mk("seq", *lead)
            rest = parts.pop()
            while parts:
                rest = mk("chain", parts.pop(), rest)
            return E.inline(st, E.models.fns["crate::collect_vec_from"], [mk("seq", *lead), rest], {}, c)
    return E.inline(st, E.models.fns["crate::" + m], [it], {}, c)


def chain_parts(it):
    return chain_parts(it.args[0]) + chain_parts(it.args[1]) if it.op == "chain" else [it]


@prim(IT + "try_for_each", IT + "try_fold")
def try_for_each(c, st, a):
    m = "iter_try_for_each_result" if c.tpath.endswith("for_each") else "iter_try_fold_result"
    return c.E.inline(st, c.E.models.fns["crate::" + m], a, {}, c)


@prim(IT + "sum")
def it_sum(c, st, a):
    it = to_iter(c, st, a[0], c.at[0])
    return c.E.inline(st, c.E.models.fns["crate::iter_sum"], [it], {}, c)


@prim(IT + "nth")
def it_nth(c, st, a):
    it = to_iter(c, st, c.E.deep(st, a[0]), c.at[0])
    if a[0].op == "ref":
        root, path = c.E.place_of(st, a[0])
        c.E.write(st, root, path, mk("aftern", it, c.E.deep(st, a[1])))
    if it.op == "over" and it.args[0].op != "seq":
        return mk("get", it.args[0], c.E.deep(st, a[1]))
    return mk("itop", "nth", it, c.E.deep(st, a[1]))


@prim(IT + "last", IT + "max", IT + "min", IT + "product", IT + "size_hint", IT + "max_by_key", IT + "min_by_key", IT + "partition", IT + "unzip", IT + "eq", IT + "step_by", IT + "scan", IT + "max_by", IT + "min_by", IT + "rposition", "<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::rposition")
def it_opaque(c, st, a):
    return mk("itop", c.tpath.split("::")[-1], *[c.E.deep(st, x) for x in a])


# ---- char classes and nom ------------------------------------------------
def charclass(E, f):
    """canonical predicate term of a closure or fn over one char"""
    from .engine import St, Ctx, Frame

    if f.op == "fn" and f.args[0] == "char::is_whitespace":
        return mk("cls", "whitespace")
    if f.op == "fn" and f.args[0] == "char::is_alphabetic":
        return mk("cls", "alphabetic")
    ch = sym("ch")
    s = St()
    c = Ctx()
    c.E = E
    c.fr = E.stack[-1] if E.stack else None
    c.site = ("?", 0, "")
    c.at = [("prim", "char")]
    c.dt = ("prim", "bool")
    outs = E.call_value(s, f, [ch], c)
    # truth table over the atomic tests, as the set of satisfying partial assignments
    conds = set()
    sat = []
    for k, st, v in outs:
        if k != "ret":
            continue
        for b, s2 in E.branch(st, E.content(st, v)):
            if b:
                sat.append(frozenset((x[1], x[2]) for x in s2.items() if x[0] == "c"))
    lits = least_cubes(sat)
    names = sorted(tuple(sorted(show_pred(t) for t in p)) for p in lits)
    if names == [("cls:whitespace",)]:
        return mk("cls", "whitespace")
    return mk("clspred", tuple(names))


def least_cubes(cubes):
    """a disjunction without redundant tests: what earlier alternatives rule out is not named"""

    def plain(c):
        # being one character rules out being another
        if any(t.op == "eq" and b for t, b in c):
            c = frozenset((t, b) for t, b in c if b or t.op != "eq")
        return c

    cubes = {plain(c) for c in cubes}
    changed = True
    while changed:
        changed = False
        for c in sorted(cubes, key=repr):
            for d in sorted(cubes, key=repr):
                if c is d or c == d:
                    continue
                if c <= d:
                    cubes.discard(d)
                    changed = True
                    break
                for t, b in c:
                    if (t, not b) in d and c - {(t, b)} <= d:
                        cubes.discard(d)
                        cubes.add(d - {(t, not b)})
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    return cubes


def show_pred(t):
    if isinstance(t, tuple):
        return ("" if t[1] else "!") + show_pred(t[0])
    if t.op == "ccls":
        return "cls:" + t.args[0]
    if t.op == "eq":
        x, y = t.args
        if y.op == "char":
            return "=" + chr(y.args[0])
        if x.op == "char":
            return "=" + chr(x.args[0])
        o = y if x.op == "sym" and x.args[0] == "ch" else x
        return "=" + show(o)
    return show(t)


def generic(c, path, tpath):
    """fallback families"""
    if path.startswith("nom::") or tpath.startswith("nom::"):
        if tpath == "nom::internal::Parser::parse":
            return nom_parse
        return nom_comb
    if path.startswith(("core::num::", "core::mem::")):
        return None
    return None


def takes_char(E, f):
    fn = E.closure_fn(f)
    n = 1 if f.op == "fn" else 2
    return fn is not None and fn.argc == n and F.head(fn.facts.ty(fn.locals[n])) == "char"


def nom_comb(c, st, a):
    args = []
    for x in a:
        x = c.E.deep(st, x)
        if (x.op in ("clo", "fn") and takes_char(c.E, x)) or (x.op == "fn" and x.args[0].startswith("char::")):
            x = charclass(c.E, x)
        args.append(x)
    return mk("nom", c.path.split("nom::")[-1].split(" ")[0], *args)


def nom_parse(c, st, a):
    p = c.E.deep(st, a[0])
    inp = c.E.deep(st, a[1])
    if p.op in ("fn", "clo"):
        f = p
        return c.E.call_value(st, f, [inp], c)
    return parse_result(c, st, p, inp)


def parse_result(c, st, p, inp):
    E = c.E
    out = []
    r = mk("parse", p, inp)
    for nm, s in E.split_variant(st, r, RES):
        if nm == "Ok":
            s.ev("e", "parse", (p, inp), c.site)
            out.append(("ret", s, ok(mk("tup", mk("rest", p, inp), mk("got", p, inp)))))
        else:
            out.append(("ret", s, err(mk("perr", p, inp))))
    return out
