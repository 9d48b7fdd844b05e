"""Loads the JSON fact files written by the driver."""
import json
import os

from . import names


class Fn:
    __slots__ = ("p", "d", "g", "argc", "locals", "blocks", "facts", "names", "headers", "key", "promoted", "succs")

    def __repr__(self):
        return f"<fn {self.p}>"

    @property
    def loc(self):
        l = self.d["loc"]
        return f"{l[0]}:{l[1]}" if l else "?"


class Facts:
    def __init__(self, path):
        with open(path) as fh:
            text = fh.read()
        self.renamed = {}
        if "models" not in os.path.basename(path):
            text, self.renamed = names.canonical(text)
        d = json.loads(text)
        self.raw = d
        self.types = [None] * len(d["types"])
        self.rawtypes = d["types"]
        self.adts = d["adts"]
        self.adt_by_path = {a["p"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.statics = d["statics"]
        self.fns = {}
        self.all = []
        for f in d["fns"]:
            x = self._fn(f)
            self.all.append(x)
            # closures of different impls may share a path only if the impls do
            self.fns.setdefault(x.p, x)
        self.dups = len(self.all) - len(self.fns)

    def _fn(self, f):
        x = Fn()
        x.p = f["p"]
        x.d = f
        x.g = f["g"]
        x.argc = f["argc"]
        x.locals = f["locals"]
        x.blocks = f["blocks"]
        x.names = f["names"]
        x.facts = self
        x.headers = None
        x.key = f["p"]
        x.promoted = f.get("promoted", [])
        return x

    # types as nested tuples so generic parameters can be substituted
    def ty(self, i):
        t = self.types[i]
        if t is not None:
            return t
        r = self.rawtypes[i]
        self.types[i] = ("rec", i)
        k = r["k"]
        if k == "adt":
            t = ("adt", r["p"], tuple(self.ty(a) for a in r["a"]))
        elif k == "ref":
            t = ("ref", r["mut"], self.ty(r["t"]))
        elif k == "ptr":
            t = ("ptr", r["mut"], self.ty(r["t"]))
        elif k == "slice":
            t = ("slice", self.ty(r["t"]))
        elif k == "array":
            t = ("array", self.ty(r["t"]), r["n"])
        elif k == "tuple":
            t = ("tuple", tuple(self.ty(a) for a in r["a"]))
        elif k == "param":
            t = ("param", r["p"])
        elif k == "closure":
            t = ("closure", r["p"], tuple(self.ty(a) for a in r["a"]))
        elif k == "fndef":
            t = ("fndef", r["p"], tuple(self.ty(a) for a in r["a"]))
        elif k == "prim":
            t = ("prim", r["p"])
        elif k == "dyn":
            t = ("dyn", r["p"])
        else:
            t = (k, r.get("s0", r["s"]))
        self.types[i] = t
        return t


def subst(t, env):
    if not env or not isinstance(t, tuple) or not t:
        return t
    if t[0] == "param":
        return env.get(t[1], t)
    return tuple(subst(x, env) if isinstance(x, tuple) else x for x in t)


def peel(t):
    while t[0] in ("ref", "ptr"):
        t = t[2]
    return t


def head(t):
    t = peel(t)
    if t[0] in ("adt", "closure", "fndef", "param", "prim", "dyn"):
        return t[1]
    return t[0]


def successors(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["t"]]
    if k == "switch":
        return [b for _, b in t["ts"]] + [t["o"]]
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    return []


def loops(fn):
    """natural loops: header -> set of blocks"""
    if fn.headers is not None:
        return fn.headers
    n = len(fn.blocks)
    succ = [successors(b["t"]) if not b["cl"] else [] for b in fn.blocks]
    # iterative DFS for back edges
    color = [0] * n
    back = []
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        u, it = stack[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                stack.append((v, iter(succ[v])))
                break
            if color[v] == 1:
                back.append((u, v))
        else:
            color[u] = 2
            stack.pop()
    pred = [[] for _ in range(n)]
    for u in range(n):
        for v in succ[u]:
            pred[v].append(u)
    heads = {}
    for u, h in back:
        body = heads.setdefault(h, {h})
        st = [u]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(pred[x])
    fn.headers = heads
    fn.succs = succ
    return heads
