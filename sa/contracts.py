"""Evaluate contract tables against the facts of one build of /repo."""
import hashlib
import itertools
import os
import re

from . import facts as F
from . import spec as S
from .engine import Engine
from .flat import Flat, ast, txt
from .terms import is_t, mk
from .roots import ROOTS, BARRIERS, PANICS, DROP_CALLS


def lit_key(t):
    """(key, value) of a literal's text"""
    for m in ("each ", "first ", "none "):
        if t.startswith(m):
            return "has " + t[len(m):], m.strip()
    i = t.rfind("~")
    if i > 0 and re.fullmatch(r"[A-Za-z_]\w*", t[i + 1 :]):
        return t[:i], t[i + 1 :]
    if t.startswith("!"):
        return t[1:], False
    return t, True


def same_guards(g1, g2):
    """are two DNFs (tuples of cube texts) the same condition?"""
    return relate(g1, g2) == "="


def relate(g1, g2):
    """"=": same condition, "<": g1 is stronger, ">": g1 is weaker, "?": neither"""
    if tuple(g1) == tuple(g2):
        return "="
    d1 = [dict(lit_key(x) for x in c.split(" & ")) if c != "always" else {} for c in g1]
    d2 = [dict(lit_key(x) for x in c.split(" & ")) if c != "always" else {} for c in g2]
    dom = {}
    for c in d1 + d2:
        for k, v in c.items():
            dom.setdefault(k, set()).add(v)
    odd = any(k.startswith("has ") and not (any(k in c for c in d1) and any(k in c for c in d2)) for k in dom)
    keys = sorted(dom)
    vals = []
    for k in keys:
        vs = dom[k]
        if vs & {True, False}:
            vals.append([True, False])
        elif vs <= {"Ok", "Err"}:
            vals.append(["Ok", "Err"])
        elif vs <= {"Some", "None"}:
            vals.append(["Some", "None"])
        elif vs <= {"Terminal", "Nonterminal"}:
            vals.append(["Terminal", "Nonterminal"])
        else:
            vals.append(sorted(vs) + ["-other-"])
    n = 1
    for v in vals:
        n *= len(v)
    if n > 70000:
        return syntactic(d1, d2)
    only1 = only2 = False
    for asg in itertools.product(*vals):
        m = dict(zip(keys, asg))
        a = any(all(m[k] == v for k, v in c.items()) for c in d1)
        b = any(all(m[k] == v for k, v in c.items()) for c in d2)
        if a and not b:
            only1 = True
        if b and not a:
            only2 = True
    if not only1 and not only2:
        return "?" if odd else "="
    return "?" if only1 and only2 else ("<" if only2 else ">")


def syntactic(d1, d2):
    le = all(any(all(c.get(k) == v for k, v in e.items()) for e in d2) for c in d1)
    ge = all(any(all(c.get(k) == v for k, v in e.items()) for e in d1) for c in d2)
    return "=" if le and ge else "<" if le else ">" if ge else "?"


class Evaluated:
    def __init__(self, root, fl, rows, n, E):
        self.root = root
        self.fl = fl
        self.rows = rows
        self.n = n
        self.E = E
        self.paths = len(fl.s.paths)
        self.nfns = len(E.visited_fns)
        self.nsites = len(E.visited_sites)
        fn = fl.s.fn
        loc = fn.d.get("loc") or ["?", 0]
        self.file = loc[0]
        self.line = loc[1]


def evaluate(fc, fm, root):
    bar = set(BARRIERS) | set(root.get("barriers", ()))
    bar -= set(root.get("inline", ())) | {root["fn"]}
    E = Engine(fc, fm, barriers=bar)
    if root["area"] == "text":
        E.keep_targs = True
    env = {k: ("adt", v, ()) for k, v in root.get("env", {}).items()}
    summ = E.summarize(root["fn"], env=env)
    # the chart is a set: its entries may be found in any order
    fl = Flat(summ, ordered=root["area"] != "earley")
    rows, n = S.build(fl)
    rows = [r for r in rows if not dropped(r[0])]
    return Evaluated(root, fl, rows, n, E)


def dropped(r):
    """calls of pure functions: only their result matters"""
    if r[1] == "parse":
        return True
    if r[1] in ("call", "rec") and r[2][0] in ("raw", "id"):
        return any(re.match(p, r[2][1]) for p in DROP_CALLS)
    return False


def expected(t, v):
    """the `expect` that fails exactly when t is v"""
    if t.op == "lt" and v is False and t.args[1].op == "len":
        t = mk("get", t.args[1].args[0], t.args[0])
    elif v not in ("None", "Err"):
        return None
    return re.sub(r"\$[\w.]+", "?", "expect(%s)" % txt(ast(t)))


def panic_rows(ev):
    """{text: sites}"""
    out = {}
    for (k, a), r in ev.fl.panics.items():
        # skipping blanks never fails: its table only returns Ok
        if r["cubes"] and all(any(v == "Err" and k2.op == "call" and "whitespace_plus_comments" in str(k2.args[0]) for k2, v in c) for c in r["cubes"]):
            continue
        t = "%s(%s)" % (a[0], ", ".join(txt(ast(x)) if is_t(x) else str(x) for x in a[1:]))
        t = re.sub(r"\$[\w.]+", "?", t)
        if str(a[0]).startswith("panic") and r["cubes"]:
            # `match x { None => panic!() }` is `x.expect()`
            none = [next((e for e in (expected(k2, v) for k2, v in c if is_t(k2)) if e and accepted_panic(ev.root, e)), None) for c in r["cubes"]]
            if all(none):
                t = none[0]
        out.setdefault(t, set()).update(r["sites"])
    return out


def accepted_panic(root, t):
    for pat, why in list(root.get("panics", ())) + PANICS:
        if re.search(pat, t):
            return why
    return None


class Deviation:
    def __init__(self, kind, fn, text, want, got, sites):
        self.kind = kind
        self.fn = fn
        self.text = text
        self.want = want
        self.got = got
        self.sites = sorted(x for x in sites if x)

    def show(self):
        s = self.sites[0] if self.sites else None
        at = f"{s[0]}:{s[1]}" if s else "-"
        out = [f"{self.kind} in {self.fn} at {at}", "  effect: " + self.text]
        if self.want is not None:
            out += ["  required when: " + c for c in self.want]
        if self.got is not None:
            out += ["  happens when:  " + c for c in self.got]
        return "\n".join(out)


def compare(spec, ev):
    missing, extra, changed, got, score = S.compare(spec, ev.rows, ev.n, same_guards)
    dev = []
    want = spec.rows
    for t in missing:
        dev.append(Deviation("missing effect", ev.root["fn"], t, want[t][0], None, [(ev.file, ev.line)]))
    for t in extra:
        dev.append(Deviation("unexpected effect", ev.root["fn"], t, None, got[t][0], got[t][1] or [(ev.file, ev.line)]))
    for t in changed:
        dev.append(Deviation("wrong condition", ev.root["fn"], t, want[t][0], got[t][0], got[t][1] or [(ev.file, ev.line)]))
    return dev, score
