"""Contract tables: the guarded effects a function must have, and the comparison.

A table lists, for one function, every observable effect with the exact
condition under which it happens (see flat.py).  Storage that the function
merely works in (locals, buffers it empties first) is anonymous: `?a`, `?b`.
A table holds when the rows computed from the source and the rows of the
table are equal up to a renaming of that storage.
"""
import itertools
import os

from .flat import *
from .terms import is_t

ACC = ("init", "step") + tuple(sorted(CONTAINER))


def _rooted(a, scratch):
    """longest place prefix that is working storage"""
    return a[0] == "loc" or a in scratch


class Table:
    """rows of one function, storage anonymised as ('?', i)"""

    def __init__(self, rows):
        # rows: [(row_ast, frozenset of frozenset(lit_ast), sites)]
        self.rows = rows


def place_root(a):
    while a[0] == ".":
        a = a[1]
    return a


def build(fl, skip=()):
    rows = []
    for n, a, d, sites in fl.rows():
        if n in skip:
            continue
        rows.append((row_ast(n, a), frozenset(frozenset(lit_ast(k, v) for k, v in c) for c in d), sites))
    if fl.outs:
        rows += [(r, d, set()) for r, d in fl.out_rows()]
    # working storage: locals, and places of arguments that are reset unconditionally before use
    targets = set()
    for r, d, _ in rows:
        if r[1] in ACC and len(r) > 2:
            p = r[2]
            root = place_root(p)
            if root[0] == "loc":
                targets.add(p)
            elif root[0] == "id" and r[1] == "init" and r[3] in (("seq",), ("call", "emptymap"), ("str", "")):
                targets.add(p)
    var = {}

    def sub(x):
        if isinstance(x, tuple):
            if x in targets or (x and x[0] == "loc"):
                if x not in var:
                    var[x] = len(var)
                return ("?", var[x])
            return tuple(sub(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(sub(y) for y in x)
        return x

    out = []
    for r, d, s in rows:
        r2 = ("row", r[1]) + tuple(sub(y) for y in r[2:])
        out.append((r2, sub(d), s))
    # where working storage is first set up does not matter, as long as it
    # can only be set up in one way
    inits = {}
    for r, d, _ in out:
        if r[1] == "init" and r[2][0] == "?":
            inits.setdefault(r[2], []).append(d)
    once = {v for v, ds in inits.items() if len(ds) == 1 and not any(l[0] == "has" for c in ds[0] for l in c)}
    out = [(r, frozenset([frozenset()]), s) if r[1] == "init" and r[2] in once else (r, d, s) for r, d, s in out]
    return out, len(var)


def resort(x):
    """eq and sum arguments are unordered: sort them after renaming"""
    if isinstance(x, tuple):
        x = tuple(resort(y) for y in x)
        if x and x[0] in ("eq", "and", "or", "ptreq"):
            return (x[0],) + tuple(sorted(x[1:], key=repr))
        if x and x[0] == "call" and x[1] in ("min", "max"):
            return x[:2] + tuple(sorted(x[2:], key=repr))
        if x and x[0] == "sum":
            return x[:2] + tuple(sorted(x[2:], key=repr))
        return x
    if isinstance(x, frozenset):
        return frozenset(resort(y) for y in x)
    return x


def rename(x, m):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "?" and isinstance(x[1], int):
            return ("?", m.get(x[1], "x%d" % x[1]))
        return tuple(rename(y, m) for y in x)
    if isinstance(x, frozenset):
        return frozenset(rename(y, m) for y in x)
    return x


def vars_in(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "?":
            out.add(x[1])
            return out
        for y in x:
            vars_in(y, out)
    elif isinstance(x, frozenset):
        for y in x:
            vars_in(y, out)
    return out


def texts(rows, m):
    out = {}
    for r, d, s in rows:
        r, d = resort(rename(r, m)), resort(rename(d, m))
        t = row_txt(r)
        g = tuple(sorted(cube_txt(c) for c in d))
        out.setdefault(t, [set(), set()])
        out[t][0] |= set(g)
        out[t][1] |= set(s)
    return {t: (tuple(sorted(g)), s) for t, (g, s) in out.items()}


def names_for(n):
    return ["abcdefghijklmnopqrstuvwxyz"[i] for i in range(n)]


def canonical(rows, n):
    """a deterministic naming: by the rows each variable occurs in"""
    col = {i: "" for i in range(n)}
    for _ in range(3):
        new = {}
        for i in range(n):
            m = {j: "_" + col[j] for j in range(n)}
            m[i] = "@"
            new[i] = repr(sorted((t, g[0]) for t, g in texts(rows, m).items() if "?@" in t or any("?@" in x for x in g[0])))
        order = sorted(set(new.values()))
        col = {i: str(order.index(new[i])) for i in range(n)}
    # name in the order of first mention in the sorted effects
    idx = sorted(range(n), key=lambda i: (int(col[i]), i))
    return {v: names_for(n)[k] for k, v in enumerate(idx)}


class Spec:
    """one table as written in a .spec file"""

    def __init__(self, fn):
        self.fn = fn
        self.props = []
        self.rows = {}  # text -> (guards tuple, props or None, opt)
        self.panics = {}  # text -> reason
        self.opts = {}
        self.lets = []
        self.nvars = 0


def expand(t, lets):
    import re

    d = dict(lets)
    while "@" in t:
        n = re.sub(r"@\d+", lambda x: d.get(x.group(0), x.group(0)), t)
        if n == t:
            break
        t = n
    return t


def parse_specs(path):
    out = []
    cur = None
    row = None
    with open(path, encoding="utf-8") as fh:
        for ln, line in enumerate(fh, 1):
            s = line.rstrip("\n")
            if not s.strip() or s.lstrip().startswith("--"):
                continue
            if s.startswith("fn "):
                cur = Spec(s[3:].strip())
                out.append(cur)
                row = None
            elif s.startswith("  let "):
                k, _, v = s[6:].partition(" = ")
                cur.lets.append((k, v))
            elif s.startswith("  props "):
                cur.props = s.split()[1:]
            elif s.startswith("  opt "):
                k, _, v = s[6:].partition("=")
                cur.opts[k.strip()] = v.strip()
            elif s.startswith("  panic "):
                t, _, why = s[8:].partition(" -- ")
                cur.panics[t.strip()] = why.strip()
            elif s.startswith("      if "):
                cur.rows[row][0].append(s[9:].strip())
            elif s.startswith("    tag "):
                cur.rows[row][1].extend(s.split()[1:])
            elif s.startswith("  * "):
                row = s[4:].strip()
                cur.rows[row] = ([], [])
            else:
                raise SystemExit(f"{path}:{ln}: {s}")
    import re

    for c in out:
        if c.lets:
            c.rows = {expand(t, c.lets): ([expand(x, c.lets) for x in g], p) for t, (g, p) in c.rows.items()}
        vs = set()
        for t, (g, _) in c.rows.items():
            for x in [t] + g:
                vs |= set(re.findall(r"\?([a-z])\b", x))
        c.vars = sorted(vs)
        c.rows = {t: (tuple(sorted(g)), p) for t, (g, p) in c.rows.items()}
    return out


def compare(spec, rows, n, same=None):
    same = same or (lambda a, b: a == b)
    """-> (missing, extra, changed) under the renaming that agrees best"""
    want = {t: g for t, (g, _) in spec.rows.items()}
    best = None
    names = spec.vars
    m = canonical(rows, n)

    def score(mm):
        got = texts(rows, mm)
        return sum(1 for t, (g, _) in got.items() if t in want and want[t] == g), got

    cand = []
    if n <= 6 and max(n, len(names)) <= 6:
        pool = list(names) + ["x%d" % i for i in range(max(0, n - len(names)))]
        cand = [dict(zip(range(n), p)) for p in itertools.permutations(pool, n)]
    else:
        cand = [m]
    for mm in [m] + cand:
        sc, got = score(mm)
        if best is None or sc > best[0]:
            best = (sc, got, mm)
        if sc == len(want) == len(got):
            break
    got = best[1]
    missing = [t for t in want if t not in got]
    extra = [t for t in got if t not in want]
    changed = [t for t in want if t in got and not same(got[t][0], want[t])]
    return missing, extra, changed, got, best[0]


def subtexts(x, out):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ("call", ".", "[*]", "agg", "sum", "[#]"):
            t = txt(x)
            if len(t) >= 24:
                out[t] = out.get(t, 0) + 1
        for y in x:
            subtexts(y, out)
    elif isinstance(x, frozenset):
        for y in x:
            subtexts(y, out)


def abbreviate(rows, m, got):
    """name long terms that occur often (expanded again when the table is read)"""
    cnt = {}
    for r, d, _ in rows:
        subtexts(resort(rename(r, m)), cnt)
        subtexts(resort(rename(d, m)), cnt)
    lets = []
    total = {t: g for t, (g, _) in got.items()}
    cands = list(cnt)

    def count(s):
        return sum(t.count(s) + sum(x.count(s) for x in g) for t, g in total.items()) + sum(v.count(s) for _, v in lets)

    for i in range(1, 25):
        best = None
        for c in cands:
            n = count(c)
            if n >= 3:
                sv = (n - 1) * (len(c) - 3)
                if sv > 150 and (best is None or sv > best[0]):
                    best = (sv, c)
        if best is None:
            break
        k = "@%d" % i
        c = best[1]
        total = {t.replace(c, k): tuple(x.replace(c, k) for x in g) for t, g in total.items()}
        lets = [(a, b.replace(c, k)) for a, b in lets]
        lets.append((k, c))
        cands = [x.replace(c, k) for x in cands if x != c]
    return {t: (g, ()) for t, g in total.items()}, lets


def render(fn, rows, n, props=(), panics=(), opts=()):
    m = canonical(rows, n)
    got = texts(rows, m)
    got, lets = abbreviate(rows, m, got)
    out = ["fn " + fn]
    for k, v in lets:
        out.append(f"  let {k} = {v}")
    if props:
        out.append("  props " + " ".join(props))
    for k in opts:
        out.append("  opt " + k)
    for t in sorted(got, key=lambda t: (t.startswith("ret("), t)):
        out.append("  * " + t)
        for g in got[t][0]:
            out.append("      if " + g)
    for p in panics:
        out.append("  panic " + p + " -- ?")
    return "\n".join(out) + "\n"
