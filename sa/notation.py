"""The accepted notation (sa/peg.py), against specs/notation.peg."""
import json
import os
import re

from . import build, peg
from .decide import Result, HELD, BROKEN, OPEN, limited, Timeout
from .engine import Limit

BNF = "crate::parsers::bnf::BNF"
ABNF = "crate::parsers::augmented::ABNF"
P = "crate::parsers::"
ENTRIES = [(P + f, fmt) for f in ("term", "expression", "production", "grammar_complete") for fmt in (BNF, ABNF)]
SPEC = os.path.join(build.VERIF, "specs", "notation.peg")


def name(fn, fmt):
    return fn.split("::")[-1] + " " + fmt.split("::")[-1]


def extract(ctx, fn, fmt, features=None):
    return limited(120, lambda: peg.grammar_of(ctx.facts(features), ctx.models, fn, fmt))


def ser(x):
    if isinstance(x, frozenset):
        return {"set": sorted((ser(y) for y in x), key=lambda y: json.dumps(y, sort_keys=True))}
    if isinstance(x, tuple):
        return [ser(y) for y in x]
    return x


def deser(x):
    if isinstance(x, dict):
        return frozenset(deser(y) for y in x["set"])
    if isinstance(x, list):
        return tuple(deser(y) for y in x)
    return x


_ast = {}


def same(n, got):
    """the same notation, its recursion cut elsewhere"""
    if not _ast:
        with open(SPEC.replace(".peg", ".json"), encoding="utf-8") as fh:
            _ast.update(json.load(fh))
    if n not in _ast:
        return False
    top, rules = deser(_ast[n]["top"]), {int(k): deser(v) for k, v in _ast[n]["rules"].items()}
    # the quick reading of plain text in front of the full one may be left out
    tops = [top] + ([top[2]] if top[0] == "alt" and len(top) == 3 and n.startswith("grammar_complete") else [])
    return any(peg.bisimilar(t, rules, got.top, got.rules) for t in tops)


def load():
    out, cur = {}, None
    with open(SPEC, encoding="utf-8") as fh:
        for line in fh:
            line = line.rstrip("\n")
            if line.startswith("notation "):
                cur = out.setdefault(line[9:], {})
            elif line.startswith("  "):
                k, _, v = line.strip().partition(" = ")
                cur[k] = v
    return out


def write(ctx):
    js = {}
    with open(SPEC, "w", encoding="utf-8") as fh:
        for fn, fmt in ENTRIES:
            fh.write("notation %s\n" % name(fn, fmt))
            g = extract(ctx, fn, fmt)
            for k, v in g.items():
                fh.write("  %s = %s\n" % (k, v))
            js[name(fn, fmt)] = {"top": ser(g.top), "rules": {str(k): ser(v) for k, v in g.rules.items()}}
    with open(SPEC.replace(".peg", ".json"), "w", encoding="utf-8") as fh:
        json.dump(js, fh, indent=0, ensure_ascii=False)


def strip_ws(t):
    return re.sub(r"\s+", " ", re.sub(r"(?<![\w\"])ws(?![\w\"])", " ", t)).replace("( ", "(").replace(" )", ")")


def strip_values(t):
    """drop what is built, keep what is read"""
    out, i, depth = [], 0, 0
    while i < len(t):
        if t.startswith(" -> ", i):
            # the value runs to the parenthesis that closes this sequence
            d, j, instr = 0, i + 4, False
            while j < len(t):
                c = t[j]
                if instr:
                    if c == "\\":
                        j += 1
                    elif c == '"':
                        instr = False
                elif c == '"':
                    instr = True
                elif c in "([{":
                    d += 1
                elif c in ")]}":
                    if d == 0:
                        break
                    d -= 1
                j += 1
            i = j
            continue
        out.append(t[i])
        i += 1
    return "".join(out)


def indexless(t):
    return re.sub(r"\$\d+", "$", t)


GROUPS = re.compile(r'"\("|"\["|Group|Optional')


def classify(want, got):
    """which aspects of the notation differ"""
    if want == got:
        return set()
    kinds = {"any"}
    w, g = strip_values(want), strip_values(got)
    if w == g:
        kinds.add("value")
    else:
        kinds.add("syntax")
        if strip_ws(w) == strip_ws(g):
            kinds.add("blank")
        if w.count("all(") != g.count("all(") or w.count("eof") != g.count("eof"):
            kinds.add("whole")
        if w.count(" ws") != g.count(" ws"):
            kinds.add("blank")
    if GROUPS.search(want) or GROUPS.search(got):
        kinds.add("group")
    return kinds


def same_in_build(ctx, feat):
    out = []
    for fn, fmt in ENTRIES:
        n = "%s [features: %s]" % (name(fn, fmt), feat or "none")
        if fmt == ABNF and "ABNF" not in feat:
            continue
        try:
            a, b = extract(ctx, fn, fmt), extract(ctx, fn, fmt, feat)
        except Exception as e:
            out.append(Result("build", n, OPEN, ["%s: %s" % (type(e).__name__, e)]))
            continue
        bad = ["notation %s, rule %s differs from the default build\n  default: %s\n  here:    %s" % (n, k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        out.append(Result("build", n, BROKEN if bad else HELD, bad, rules=len(b)))
    return out


def check(ctx, aspect, only=None, features=None):
    want = load()
    out = []
    for fn, fmt in ENTRIES:
        n = name(fn, fmt)
        if only and not re.search(only, n):
            continue
        if fmt == ABNF and features is not None and "ABNF" not in features:
            continue
        try:
            got = extract(ctx, fn, fmt, features)
        except (Timeout, peg.PegFail, Limit, KeyError, RecursionError) as e:
            out.append(Result("notation", n, OPEN, ["%s: %s" % (type(e).__name__, e)]))
            continue
        except Exception as e:
            out.append(Result("notation", n, OPEN, ["%r" % e]))
            continue
        bad = []
        loc = ctx.facts(features).fns[fn].loc
        if dict(got) != want[n] and same(n, got):
            out.append(Result("notation", n, HELD, [], loc, rules=len(got), size=sum(len(v) for v in got.values())))
            continue
        for k in sorted(set(want[n]) | set(got)):
            a, b = want[n].get(k, "(nothing)"), got.get(k, "(nothing)")
            if a != b:
                kinds = classify(a, b)
                if aspect in kinds:
                    i = 0
                    while i < min(len(a), len(b)) and a[i] == b[i]:
                        i += 1
                    bad.append("notation %s, rule %s, read by %s at %s\n  required: ...%s\n  accepts:  ...%s" % (n, k, fn, loc, a[max(0, i - 60) : i + 160], b[max(0, i - 60) : i + 160]))
        out.append(Result("notation", n, BROKEN if bad else HELD, bad, loc, rules=len(got), size=sum(len(v) for v in got.values())))
    return out


def seams(top, rules):
    """Where two tokens of a notation meet with no room for blanks between them.

    Position automaton over the steps that consume text. Two consuming steps that can be neighbours are
    one token when the first is the opening and the second the body it delimits, when the second is the
    character the body stops at, or when they are the separator of a production and the incremental mark
    glued to it; otherwise blanks have to be skipped between them. A body with no closing delimiter has to
    stop at blanks and at the start of a comment."""
    memo = {n: (frozenset(), frozenset(), False) for n in rules}
    pairs = {}

    def meet(ls, fs):
        for a in ls:
            for b in fs:
                pairs[(a, b)] = True

    def walk(e):
        o = e[0]
        if o in ("lit", "till", "while", "satisfy", "until", "ws", "eof"):
            x = frozenset([tuple(map(str, e[:2]))])
            return x, x, o == "ws" and False
        if o in ("peek", "not", "fail"):
            return frozenset(), frozenset(), True
        if o == "rule":
            return memo[e[1]]
        if o == "seq":
            return chain([walk(x) for x in e[1]])
        if o == "alt" or o == "choice":
            rs = [walk(x) for x in (e[1:] if o == "alt" else [y[1] for y in e[1]]) if x[0] != "fail"]
            return frozenset().union(*(r[0] for r in rs)), frozenset().union(*(r[1] for r in rs)), any(r[2] for r in rs)
        if o in ("many0", "many1", "opt"):
            f, l, n = walk(e[1])
            if o != "opt":
                meet(l, f)
            return f, l, n or o != "many1"
        if o == "list":
            i, s = walk(e[1]), walk(e[2])
            c = chain([i, s, i])
            return i[0] | c[0], i[1] | c[1], i[2]
        raise KeyError(o)

    def chain(rs):
        f, l, n = frozenset(), frozenset(), True
        for a, b, m in rs:
            meet(l, a)
            if n:
                f |= a
            l = (l | b) if m else b
            n = n and m
        return f, l, n

    while True:
        pairs.clear()
        walk(top)
        new = {n: walk(e) for n, e in rules.items()}
        if new == memo:
            break
        memo.update(new)
    bad = []
    for a, b in sorted(pairs):
        if "ws" in (a[0], b[0]) or a[0] == "eof" or b[0] == "eof" and a[0] != "lit":  # nothing follows the end
            continue
        if b[0] in ("till", "until", "while") and a[0] == "lit" and len(a[1]) == 1:
            continue
        if a[0] in ("till", "until") and b[0] == "lit" and a[1] in ("{=%s}" % b[1], repr(b[1]), b[1]):
            continue
        if a[0] == b[0] == "lit" and a[1].endswith("=") and b[1] in "|/":
            continue
        bad.append("no blanks may stand between %s and %s" % (" ".join(a), " ".join(b)))
    for p in {x for ab in pairs for x in ab}:
        if p[0] == "till" and not any(a == p and b[0] == "lit" for a, b in pairs):
            for need, what in (("cls:whitespace", "a blank"), ("=;", "a comment")):
                if need not in p[1].strip("{}").split("|"):
                    bad.append("the name read by till(%s) does not end at %s" % (p[1], what))
    return bad, len(pairs)


def room(ctx):
    """blanks and comments fit between all tokens of every notation"""
    out = []
    for fn, fmt in ENTRIES:
        n = name(fn, fmt)
        try:
            got = extract(ctx, fn, fmt)
            bad, k = seams(got.top, got.rules)
        except Exception as e:
            out.append(Result("room for blanks", n, OPEN, ["%s: %s" % (type(e).__name__, e)]))
            continue
        loc = ctx.facts(None).fns[fn].loc
        out.append(Result("room for blanks", n, BROKEN if bad else HELD, ["notation %s read by %s at %s: %s" % (n, fn, loc, b) for b in bad], loc, neighbours=k))
    return out
