"""Obligations: what each property needs, and the verdict on the current tree."""
import os
import re

from .terms import is_t
import signal
import time

from . import facts as F, build, spec as S
from . import contracts as C
from .engine import Limit
from .roots import ROOTS

HELD, BROKEN, OPEN = "held", "violated", "undecided"


class Result:
    def __init__(self, kind, name, status, detail=(), where="", **stats):
        self.kind = kind  # contract | panic | notation | rule
        self.name = name
        self.status = status
        self.detail = list(detail)  # texts, one per violation
        self.where = where
        self.stats = stats

    def d(self):
        return dict(kind=self.kind, subject=self.name, status=self.status, where=self.where, detail=self.detail, **self.stats)


class Timeout(Exception):
    pass


def limited(sec, f):
    def h(*_):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(sec)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


# constructs of the standard library that reshape control or data plumbing:
# when one of them is not modelled, the difference it makes is not understood
PLUMBING = re.compile(
    r"^(<[^>]*)?(core::iter|core::option|core::result|core::slice|core::ops|core::mem|core::cell|core::array|core::convert|core::borrow|core::cmp|alloc::vec|alloc::collections|alloc::rc|alloc::boxed|alloc::borrow|hashbrown|std::collections|nom::|core::fmt|\[T\]::)"
)
RESHAPING = re.compile(r"::(rev|cycle|map_while|windows|chunks\w*|skip|skip_while|take|take_while|step_by|sort\w*|reverse|dedup\w*|truncate|retain\w*|swap|swap_remove|rotate_\w+|clear|drain|pop\w*|remove\w*|insert|split_off|last|nth|max\w*|min\w*)$")


class Context:
    def __init__(self, tier="quick"):
        self.tier = tier
        self._facts = {}
        self._ev = {}
        self._specs = {}
        self.models = F.Facts(build.models())

    def facts(self, features=None):
        if features not in self._facts:
            fc = F.Facts(build.repo_facts(features))
            self._facts[features] = fc
        return self._facts[features]

    def specs(self, area, variant=""):
        key = (area, variant)
        if key not in self._specs:
            p = os.path.join(build.VERIF, "specs", area + variant + ".spec")
            self._specs[key] = {s.fn: s for s in S.parse_specs(p)} if os.path.exists(p) else {}
        return self._specs[key]

    def alts(self, root):
        """other accepted tables of a function (see sa/alt.py)"""
        key = (root["area"], ".alt*")
        if key not in self._specs:
            p = os.path.join(build.VERIF, "specs", root["area"] + ".alt.spec")
            self._specs[key] = S.parse_specs(p) if os.path.exists(p) else []
        return [s for s in self._specs[key] if s.fn == root["fn"]]

    def best(self, sp, root, ev):
        """the deviations from the table the function comes closest to"""
        devs, _ = C.compare(sp, ev)
        if devs:
            for s2 in self.alts(root):
                d2, _ = C.compare(s2, ev)
                if len(d2) < len(devs):
                    sp, devs = s2, d2
        return sp, devs

    def ev(self, root, features=None):
        key = (root["fn"], features)
        if key not in self._ev:
            try:
                self._ev[key] = limited(120, lambda: C.evaluate(self.facts(features), self.models, root))
            except Timeout:
                self._ev[key] = "the analysis of this function did not finish in 120 s"
            except KeyError as e:
                self._ev[key] = "no such function: %s" % e
            except Limit as e:
                self._ev[key] = "analysis limit: %s" % e
            except RecursionError:
                self._ev[key] = "analysis limit: recursion"
            except Exception as e:  # noqa: an unexpected construct
                self._ev[key] = "analysis failed: %r" % e
        return self._ev[key]


ADD = ("push", "sadd", "mput", "append", "ins", "insert", "out")


def polarity(dev):
    """'+': more happens than the table allows, '-': less, '*': something else"""
    add = dev.text.split("(")[0] in ADD
    if dev.kind == "missing effect":
        return "-" if add else "*"
    if dev.kind == "unexpected effect":
        return "+" if add else "*"
    if not add:
        return "*"
    r = C.relate(dev.got, dev.want)
    return {"<": "-", ">": "+"}.get(r, "*")


def contract(ctx, root, features=None, signs="*", only=None):
    """the table of one function, against the current tree"""
    fn = root["fn"]
    name = fn + ("" if features is None else " [features: %s]" % (features or "none"))
    sp = None
    if features is not None:
        sp = ctx.specs(root["area"], "@" + (features.replace(",", "_") or "none")).get(fn)
    sp = sp or ctx.specs(root["area"]).get(fn)
    ev = ctx.ev(root, features)
    if isinstance(ev, str):
        return Result("contract", name, OPEN, [ev])
    if sp is None:
        return Result("contract", name, OPEN, ["no table"])
    sp, devs = ctx.best(sp, root, ev)
    where = "%s:%s" % (ev.file, ev.line)
    stats = dict(rows=len(sp.rows), paths=ev.paths, functions=ev.nfns, sites=ev.nsites)
    if only:
        devs = [d for d in devs if re.search(only, d.text)]
    if signs != "*":
        devs = [d for d in devs if polarity(d) in (signs, "*")]
    if not devs:
        return Result("contract", name, HELD, where=where, **stats)
    new = sorted(p for p in ev.E.unknown if PLUMBING.match(p) and not RESHAPING.search(p) and p not in KNOWN_OPAQUE)
    if new:
        return Result("contract", name, OPEN, ["constructs without a model: " + ", ".join(new)] + [d.show() for d in devs], where, **stats)
    return Result("contract", name, BROKEN, [d.show() for d in devs], where, **stats)


KNOWN_OPAQUE = set()


def same_in_build(ctx, root, feat):
    """the summary of one function is the same in a build with other features"""
    fn = root["fn"]
    name = "%s [features: %s]" % (fn, feat or "none")
    if fn not in ctx.facts(feat).fns:
        return Result("build", name, OPEN, ["not present in this build"])
    var = ctx.specs(root["area"], "@no_abnf").get(fn) if "ABNF" not in feat else None
    a, b = ctx.ev(root), ctx.ev(root, feat)
    for x in (a, b):
        if isinstance(x, str):
            return Result("build", name, OPEN, [x])
    if var is None:
        sp = S.Spec(fn)
        m = S.canonical(a.rows, a.n)
        sp.rows = {t: (tuple(sorted(g)), []) for t, (g, _) in S.texts(a.rows, m).items()}
        sp.vars = sorted(m.values())
    else:
        sp = var
    devs, _ = C.compare(sp, b)
    st = dict(rows=len(sp.rows), paths=b.paths, functions=b.nfns, sites=b.nsites)
    where = "%s:%s" % (b.file, b.line)
    if devs:
        new = sorted(p for p in b.E.unknown if PLUMBING.match(p) and p not in a.E.unknown)
        return Result("build", name, OPEN if new else BROKEN, [d.show() for d in devs], where, **st)
    return Result("build", name, HELD, (), where, **st)


def propagates(ctx, root):
    """a failing writer makes the formatting function fail"""
    fn = root["fn"]
    ev = ctx.ev(root)
    if isinstance(ev, str):
        return Result("writer", fn, OPEN, [ev])
    wf = ev.fl.wf
    bad = []

    def loops(items):
        for it in items:
            if it[0] == "l":
                for pi, u in it[1].paths:
                    if wf(pi):
                        if not any(is_t(v) and v.op == "agg" and v.args[1] == "Err" for v in u.values()):
                            bad.append(last(pi))
                    loops(pi)
                for _, ei in it[1].exits:
                    loops(ei)

    def last(items):
        out = None
        for it in items:
            if it[0] == "e" and it[1] in ("write", "rec", "call"):
                out = it[3]
            if it[0] == "c" and it[1].op == "wfail" and it[2]:
                return out
        return out

    for p in ev.fl.s.paths:
        loops(p.items)
        if p.kind == "ret" and wf(p.items) and is_t(p.val) and p.val.op == "agg" and p.val.args[1] == "Ok":
            bad.append(last(p.items))
    sites = sorted({"%s:%s" % (b[0], b[1]) if b else "%s:%s" % (ev.file, ev.line) for b in bad})
    return Result("writer", fn, BROKEN if sites else HELD, ["the failure of the writer at %s is dropped in %s" % (x, fn) for x in sites], "%s:%s" % (ev.file, ev.line), paths=ev.paths)


def panics(ctx, root, features=None):
    fn = root["fn"]
    ev = ctx.ev(root, features)
    if isinstance(ev, str):
        return Result("panic", fn, OPEN, [ev])
    bad = []
    ok = 0
    for t, sites in C.panic_rows(ev).items():
        if C.accepted_panic(root, t) is None:
            s = sorted(x for x in sites if x)
            at = "%s:%s" % (s[0][0], s[0][1]) if s else "%s:%s" % (ev.file, ev.line)
            bad.append("reachable panic in %s at %s\n  construct: %s" % (fn, at, t))
        else:
            ok += 1
    st = dict(paths=ev.paths, sites=ev.nsites, panics_discharged=ok)
    return Result("panic", fn, BROKEN if bad else HELD, bad, "%s:%s" % (ev.file, ev.line), **st)
