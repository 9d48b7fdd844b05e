"""Private names: a function, type or field that was only renamed or moved is the same one.

specs/names.json lists the functions (with their types), the types (with the
types of their fields) and the field names the tables were written with.  An
item of that list which is gone is taken to be the one new item of the same
shape, if there is exactly one; otherwise it is left alone (and the tables
that need it stay undecided).
"""
import json
import os
import re

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "names.json")


def renderer(d):
    ts = d["types"]
    memo = {}

    def ty(i, depth=0):
        if i is None or depth > 8:
            return "?"
        if i in memo:
            return memo[i]
        memo[i] = "rec"
        r = ts[i]
        k = r["k"]
        if k in ("adt", "closure", "fndef"):
            s = r["p"] + "<" + ",".join(ty(a, depth + 1) for a in r["a"]) + ">"
        elif k in ("ref", "ptr"):
            s = k + str(r["mut"]) + " " + ty(r["t"], depth + 1)
        elif k in ("slice", "array"):
            s = k + "[" + ty(r["t"], depth + 1) + "]"
        elif k == "tuple":
            s = "(" + ",".join(ty(a, depth + 1) for a in r["a"]) + ")"
        else:
            s = k + " " + str(r.get("p") or r.get("s0") or r.get("s"))
        memo[i] = s
        return s

    return ty


def shapes(d):
    ty = renderer(d)
    fns = {}
    for f in d["fns"]:
        if "{closure" in f["p"] or f["p"].startswith("<") or f["derived"]:
            continue
        fns[f["p"]] = [ty(i) for i in f["locals"][: f["argc"] + 1]]
    adts = {}
    for a in d["adts"]:
        if a["local"]:
            adts[a["p"]] = [a["kind"], [[v["n"] if a["kind"] == "enum" else "", [[x["n"], ty(x["t"])] for x in v["f"]]] for v in a["v"]]]
    return {"fns": fns, "adts": adts}


def matched(gone, new):
    """{new: old}, where the pairing leaves no choice"""
    out = {}
    tail = lambda p: p.split("::")[-1]
    left = dict(new)
    for o, s in gone.items():
        c = [n for n, t in left.items() if t == s and tail(n) == tail(o)]
        if len(c) == 1 and sum(1 for o2, s2 in gone.items() if s2 == s and tail(o2) == tail(o)) == 1:
            out[c[0]] = o
            del left[c[0]]
    rest = {o: s for o, s in gone.items() if o not in out.values()}
    for o, s in rest.items():
        c = [n for n, t in left.items() if t == s]
        if len(c) == 1 and sum(1 for s2 in rest.values() if s2 == s) == 1:
            out[c[0]] = o
    return out


def replace(text, m):
    for n, o in m.items():
        text = re.sub(r"(?<![\w:])" + re.escape(n) + r"(?!\w)", lambda _: o, text)
    return text


def anonymous(shape, path):
    """a type's shape without its own name and the names of its fields"""
    kind, vs = shape
    return [kind, [[n, [t.replace(path + "<", "Self<") for _, t in fs]] for n, fs in vs]]


def canonical(text):
    """the fact file's text with the names the tables know"""
    if not os.path.exists(HERE):
        return text, {}
    with open(HERE) as fh:
        base = json.load(fh)
    d = json.loads(text)
    done = {}
    cur = shapes(d)
    if set(base["adts"]) - set(cur["adts"]):
        gone = {p: anonymous(s, p) for p, s in base["adts"].items() if p not in cur["adts"]}
        new = {p: anonymous(s, p) for p, s in cur["adts"].items() if p not in base["adts"]}
        m = matched(gone, new)
        if m:
            done.update(m)
            text = replace(text, m)
            d = json.loads(text)
            for n, o in m.items():
                for a in d["adts"]:
                    if a["p"] == o and a["kind"] == "struct":
                        a["v"][0]["n"] = o.split("::")[-1]
            text = json.dumps(d)
            cur = shapes(d)
    known = {x for _, vs in base["adts"].values() for _, fs in vs for x, _ in fs}
    fields = {}
    for p, s in cur["adts"].items():
        b = base["adts"].get(p)
        if b is None or b == s or anonymous(b, p) != anonymous(s, p):
            continue
        for (_, f1), (_, f2) in zip(b[1], s[1]):
            for (x, _), (y, _) in zip(f1, f2):
                if x != y and y not in known:
                    fields.setdefault(y, set()).add(x)
    for y, xs in fields.items():
        if len(xs) == 1:
            (x,) = xs
            done["." + y] = "." + x
            rename_field(d, y, x)
    if any(y.startswith(".") for y in done):
        text = json.dumps(d)
        cur = shapes(d)
    gone = {p: s for p, s in base["fns"].items() if p not in cur["fns"]}
    if gone:
        new = {p: s for p, s in cur["fns"].items() if p not in base["fns"]}
        m = matched(gone, new)
        if m:
            done.update(m)
            text = replace(text, m)
    return text, done


def rename_field(x, y, to):
    if isinstance(x, dict):
        for k in ("f", "n"):
            if x.get(k) == y:
                x[k] = to
        for v in x.values():
            rename_field(v, y, to)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            rename_field(v, y, to)


if __name__ == "__main__":
    import sys

    sys.setrecursionlimit(20000)
    from . import build

    with open(build.repo_facts(None)) as fh:
        d = json.load(fh)
    with open(HERE, "w") as fh:
        json.dump(shapes(d), fh, indent=0, sort_keys=True)
