"""Witness crates compiled against /repo: macro uses and type bounds."""
import itertools
import os
import re
import shutil

from . import build, facts as F, spec as S
from .build import OUT, VERIF, REPO, run, sha, driver, sysroot
from .decide import Result, HELD, BROKEN, OPEN

TOML = """[package]
name = "%s"
version = "0.1.0"
edition = "2024"
[lib]
path = "lib.rs"
[dependencies]
bnf = { path = "%s" }
[workspace]
"""


def crate(name, source):
    d = os.path.join(OUT, "wit-" + name)
    os.makedirs(d, exist_ok=True)
    for f, t in (("Cargo.toml", TOML % (name, REPO)), ("lib.rs", source)):
        p = os.path.join(d, f)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return d


def compile_(name, source, facts):
    """-> (ok, output, facts file)"""
    d = crate(name, source)
    key = sha(build.repo_files() + [os.path.join(d, "lib.rs"), os.path.join(VERIF, "driver", "main.rs")])
    dst = os.path.join(OUT, "wit-%s-%s.json" % (name, key))
    if facts and os.path.exists(dst):
        return True, "", dst
    tgt = os.path.join(OUT, "target-wit")
    env = {"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": ""}
    if facts:
        env.update({"LD_LIBRARY_PATH": sysroot() + "/lib", "SA_CRATE": name, "SA_OUT": dst + ".tmp", "RUSTC_WORKSPACE_WRAPPER": driver()})
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith((name + "-", "bnf-")):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    rc, out = run(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(d, "Cargo.toml")], env=env, cwd=d)
    if facts and rc == 0:
        for f in os.listdir(OUT):
            if f.startswith("wit-%s-" % name) and f.endswith(".json"):
                os.remove(os.path.join(OUT, f))
        os.replace(dst + ".tmp", dst)
    return rc == 0, out, dst


def bounds(ctx):
    ctx.facts()  # /repo itself compiles
    src = open(os.path.join(VERIF, "witness", "bounds.rs")).read()
    ok, out, _ = compile_("wbounds", src, False)
    n = len(re.findall(r"^pub fn |::<", src, re.M))
    if ok:
        return Result("witness", "bounds and lifetimes of the public types", HELD, bounds=n)
    errs = re.findall(r"^error.*?(?=^error|\Z)", out, re.M | re.S)
    if not re.search(r"wbounds|lib\.rs", out) or not errs:
        return Result("witness", "bounds and lifetimes of the public types", OPEN, [out[-500:]])
    mine = [e for e in errs if "E0277" in e or "E05" in e or "E07" in e or "lifetime" in e]
    if not mine:
        return Result("witness", "bounds and lifetimes of the public types", OPEN, [errs[0][:600]])
    return Result("witness", "bounds and lifetimes of the public types", BROKEN, [e.strip()[:900] for e in mine], "witness/bounds.rs", bounds=n)


# -- macros -----------------------------------------------------------------------


def lit(s):
    return '"' + s + '"'


class Gen:
    """macro uses with the value each has to build"""

    def __init__(self):
        self.uses = []  # (fn name, return type, source, expected text)
        self.k = 0

    def name(self, p="n"):
        self.k += 1
        return "%s%d" % (p, self.k)

    def term(self, kind):
        n = self.name("t" if kind == "T" else "n")
        if kind == "T":
            return lit(n), 'Term::Terminal{0:"%s"}' % n
        return "<%s>" % n, 'Term::Nonterminal{0:"%s"}' % n

    def expr(self, kinds):
        ts = [self.term(k) for k in kinds]
        return " ".join(a for a, _ in ts), "Expression{terms:[%s]}" % ",".join(b for _, b in ts)

    def prod(self, alts):
        l = self.name("n")
        es = [self.expr(a) for a in alts]
        return "<%s> ::= %s" % (l, " | ".join(a for a, _ in es)), 'Production{lhs:Term::Nonterminal{0:"%s"},rhs:[%s]}' % (l, ",".join(b for _, b in es))

    def use(self, ty, mac, src, want):
        self.uses.append(("u%d" % len(self.uses), ty, "bnf::%s!(%s)" % (mac, src), want))


def shapes(maxlen):
    for n in range(1, maxlen + 1):
        yield from ("".join(x) for x in itertools.product("TN", repeat=n))


def uses(tier):
    g = Gen()
    for k in "TN":
        a, b = g.term(k)
        g.use("Term", "term", a, b)
    n = g.name("i")
    g.use("Term", "term", n, 'Term::Terminal{0:"%s"}' % n)
    deep = 5 if tier == "thorough" else 4
    for s in shapes(deep):
        g.use("Expression", "expression", *g.expr(s))
    sm = list(shapes(2))
    for s in shapes(3):
        g.use("Production", "production", *g.prod([s]))
    for a, b in itertools.product(sm, sm):
        g.use("Production", "production", *g.prod([a, b]))
    for n in (3, 4, 5):
        for s in itertools.product("TN", repeat=n):
            g.use("Production", "production", *g.prod(list(s)))
    # long ones, and ones that say the same thing again: nothing is dropped, merged or cut short
    g.use("Expression", "expression", *g.expr("TN" * 20))
    g.use("Production", "production", *g.prod(["TN", "N", "T"] * 8))
    t, n = g.term("T"), g.term("N")
    e = g.name("e")
    g.use("Expression", "expression", " ".join(x[0] for x in (t, t, n, n, t)), "Expression{terms:[%s]}" % ",".join(x[1] for x in (t, t, n, n, t)))
    one = "Expression{terms:[%s]}" % t[1]
    p = "<%s> ::= %s" % (e, " | ".join([t[0]] * 3)), 'Production{lhs:Term::Nonterminal{0:"%s"},rhs:[%s]}' % (e, ",".join([one] * 3))
    g.use("Production", "production", *p)
    g.use("Grammar", "grammar", " ; ".join([p[0]] * 3), "Grammar{productions:[%s]}" % ",".join([p[1]] * 3))
    g.use("Term", "term", '""', 'Term::Terminal{0:""}')
    ss = [g.prod([s]) for s in list(shapes(3))[:12]]
    g.use("Grammar", "grammar", " ; ".join(a for a, _ in ss), "Grammar{productions:[%s]}" % ",".join(b for _, b in ss))
    g.use("Grammar", "grammar", "", "Grammar{productions:[]}")
    base = [["T"], ["N"], ["TN"], ["T", "N"], ["NT", "T"], ["T", "T", "T"]]
    for k in (1, 2, 3) if tier != "thorough" else (1, 2, 3, 4):
        for ps in itertools.product(base, repeat=k):
            if k >= 3 and len({str(p) for p in ps}) < 2:
                continue
            ss = [g.prod(p) for p in ps]
            semi = ";" if g.k % 2 else ""
            g.use("Grammar", "grammar", " ; ".join(a for a, _ in ss) + semi, "Grammar{productions:[%s]}" % ",".join(b for _, b in ss))
    return g.uses


def macros(ctx):
    from . import contracts as C

    fc = ctx.facts()
    us = uses(ctx.tier)
    src = "#![allow(unused_imports, clippy::all)]\n#![recursion_limit = \"512\"]\nuse bnf::{Expression, Grammar, Production, Term};\n"
    src += "".join("pub fn %s() -> %s { %s }\n" % (n, t, s) for n, t, s, _ in us)
    ok, out, dst = compile_("wmacros", src, True)
    if not ok:
        errs = re.findall(r"^error.*?(?=^error|\Z)", out, re.M | re.S)
        if "wmacros" in out and errs and re.search(r"lib\.rs:\d+", out):
            return [Result("witness", "macro uses compile", BROKEN, [e.strip()[:600] for e in errs[:3]], "witness crate")]
        return [Result("witness", "macro uses compile", OPEN, [out[-500:]])]
    raw = open(dst).read()
    # one name space: the library as crate::, the witness as wit::
    raw = re.sub(r"(?<![\w:])crate::", "wit::", raw)
    raw = re.sub(r"(?<![\w:])bnf::", "crate::", raw)
    tmp = dst + ".merged"
    open(tmp, "w").write(raw)
    w = F.Facts(tmp)
    os.remove(tmp)
    both = F.Facts.__new__(F.Facts)
    both.__dict__.update(fc.__dict__)
    both.fns = dict(fc.fns)
    both.fns.update(w.fns)
    res = []
    for n, t, s, want in us:
        root = dict(fn="wit::" + n, area="macros", props=["C27"])
        try:
            ev = C.evaluate(both, ctx.models, root)
            got = sorted(S.texts(ev.rows, S.canonical(ev.rows, ev.n)))
        except Exception as e:
            res.append(Result("witness", s[:80], OPEN, [repr(e)[:200]]))
            continue
        if got == ["ret(%s)" % want]:
            res.append(Result("witness", s[:80], HELD, sites=ev.nsites))
        else:
            m = s.split("!")[0].split("::")[-1]
            res.append(Result("witness", s[:80], BROKEN, ["%s\n  required: %s\n  builds:   %s" % (s, want, "; ".join(got)[:700])], "macro %s!" % m))
    return res
