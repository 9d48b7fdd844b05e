"""Mechanical mutants of the non-test source; lists those no check objects to.

python3 tools/mutate.py OUT FILE...     (J jobs, LIM mutants, SEED, T=1: also run the tests on quiet ones)
Authoring aid: no registered check uses it.
"""
import os, random, re, shutil, subprocess, sys, tempfile
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
out, files = sys.argv[1], sys.argv[2:]
J = int(os.environ.get("J", "7"))
OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", " + 2"), (r" - 1\b", " - 0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bif (?!let)(.*) \{$", r"if !(\1) {"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"!(self|\w+)\.(is_empty|contains)", r"\1.\2"), (r"(?<![!\w.])((?:self\.)?[\w.]+\.is_empty\(\))", r"!\1"),
    (r"\b0\.\.", "1.."), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"), (r"_iter\(\)", "_iter().skip(1)"),
    (r"_iter\(\)", "_iter().rev()"), (r"\.into_iter\(\)", ".into_iter().rev()"), (r"\.into_iter\(\)", ".into_iter().skip(1)"),
    (r"\.first\(\)", ".last()"), (r"\.push_back\(", ".push_front("), (r"\.push_front\(", ".push_back("),
    (r"\.pop_front\(", ".pop_back("), (r"\.pop_back\(", ".pop_front("), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "1"),
    (r"b?'(\\?.)'", r"'~'"), (r'"([^"{}]+)"', r'"\1x"'), (r'"([^"]+)"', r'"x\1"'), (r"\bSome\((\w+)\)(?! =>)", r"None"),
    (r"\.insert\(0, ", ".insert(1, "), (r"Terminal\((\w+)\) =>", r"Terminal(\1) if \1.len() != 1 =>"),
    (r"\.filter\(\|([^|]*)\| ", r".filter(|\1| !"), (r"\.len\(\)", ".len().saturating_sub(1)"), (r"\.chars\(\)", ".chars().skip(1)"),
    (r"multispace0", "nom::character::complete::space0"), (r"many1", "many0"), (r"many0", "many1"), (r"\bskip\(\d\)", "skip(2)"),
    (r" % ", " / "), (r" \* ", " + "), (r" \+= ", " -= "), (r"saturating_sub", "saturating_add"), (r"is_none\(\)", "is_some()"),
    (r"is_some\(\)", "is_none()"), (r"starts_with", "ends_with"), (r"\bin &?(?:mut )?([\w.]+) \{$", r"in \1.iter().skip(1) {"),
    (r"\blet (\w+) = (.*\.to_string\(\));", r"let \1 = \2.to_lowercase();"), (r"String::from\((\w+)\)", r"String::from(\1.trim())"),
    (r"(\w+)\.to_string\(\)", r"\1.trim().to_string()"), (r"\bself\.(\w+) = .*;", ""), (r"\?;$", ".ok();"),
]
muts, seen = [], set()
for f in files:
    src = open(f"{R}/{f}").read()
    cut = src.find("\n#[cfg(test)]\n")
    lines = (src if cut < 0 else src[:cut]).split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#[", "use ", "#!", "pub use", "mod ", "pub mod")) or re.search(r"debug_assert|tracing|_span|expect\(", l):
            continue
        code = l.split(" // ")[0]
        new = []
        if re.match(r"^\s*[\w.*&]+.*;$", code) and not re.match(r"^\s*(let|return|const|static|type|pub|break|continue|struct|use|fn)\b", code) and code.count("(") == code.count(")"):
            new.append(("", "del"))
        for a, b in OPS:
            for m in re.finditer(a, code):
                new.append((code[: m.start()] + m.expand(b) + code[m.end() :], a))
        for n, tag in new:
            if n != l and (f, i, n) not in seen:
                seen.add((f, i, n))
                muts.append((f, i, l, n, tag))
random.Random(int(os.environ.get("SEED", "1"))).shuffle(muts)
muts = muts[: int(os.environ.get("LIM", "100000"))]
print(len(muts), "mutants", flush=True)
base = tempfile.mkdtemp(prefix="mutants.")
Q = Queue()
for i in range(J):
    os.makedirs(f"{base}/{i}")
    subprocess.run(f"git clone -q {R} {base}/{i}/repo; cp {R}/Cargo.lock {base}/{i}/repo/ 2>/dev/null", shell=True)
    Q.put(f"{base}/{i}")


def one(m):
    s = Q.get()
    try:
        f, i, l, new, tag = m
        ls = open(f"{R}/{f}").read().split("\n")
        ls[i] = new
        open(f"{s}/repo/{f}", "w").write("\n".join(ls))
        r = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=f"{s}/repo", capture_output=True, env=dict(os.environ, CARGO_TARGET_DIR=f"{s}/ct"))
        if r.returncode:
            res = "nocompile"
        else:
            env = dict(os.environ, SA_REPO=f"{s}/repo", SA_BUILD=f"{s}/build", SKIP="C26 C27 C34")
            o = subprocess.run([sys.executable, "tools/all.py"], cwd=V, env=env, capture_output=True, text=True, timeout=900)
            hit = [x.split()[0] for x in o.stdout.splitlines() if " VIOLATED" in x]
            opn = [x.split()[0] for x in o.stdout.splitlines() if " quiet" in x]
            res = "hit " + " ".join(hit) if hit else "quiet " + " ".join(opn) + (" ERR " + o.stderr[-200:] if o.returncode else "")
            if not hit and os.environ.get("T"):
                t = subprocess.run(["timeout", "120", "cargo", "test", "--offline", "-q", "--all-features"], cwd=f"{s}/repo", capture_output=True, env=dict(os.environ, CARGO_TARGET_DIR=f"{s}/ct"))
                res += " tests " + ("pass" if t.returncode == 0 else "fail")
        subprocess.run(["git", "-C", f"{s}/repo", "checkout", "-q", "--", "."])
        return m, res
    except Exception as e:
        return m, "exc " + repr(e)[:100]
    finally:
        Q.put(s)


C = Counter()
try:
    with ThreadPoolExecutor(J) as ex, open(out, "w") as fo:
        for m, res in ex.map(one, muts):
            C[res.split()[0]] += 1
            if res.split()[0] in ("quiet", "exc"):
                fo.write(f"{m[0]}:{m[1]+1} [{m[4]}] {res}\n  - {m[2].strip()}\n  + {m[3].strip()}\n")
                fo.flush()
    print(dict(C))
finally:
    shutil.rmtree(base)
