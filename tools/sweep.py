"""Run every check against many changes, each in a scratch copy of the tree.

python3 tools/sweep.py [-j N] [-t] PATCH...      (neutral/*.diff must be quiet, seeded/*/patch.diff caught)
  -t  also run the repository's own tests on each change (neutral ones)
Authoring aid: no registered check uses it.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs = 4
if args[:1] == ["-j"]:
    jobs = int(args[1])
    args = args[2:]
base = tempfile.mkdtemp(prefix="sweep.")
slots = Queue()


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def one(p):
    s = slots.get()
    try:
        r = f"{s}/repo"
        sh(f"git -C {r} checkout -q -- . && git -C {r} clean -qfd src")
        a = sh(f"git -C {r} apply {os.path.abspath(p)}")
        if a.returncode:
            return p, "DOES NOT APPLY " + a.stderr[:200]
        env = dict(os.environ, SA_REPO=r, SA_BUILD=f"{s}/build", SKIP=os.environ.get("SKIP", "C26 C27 C34"))
        o = subprocess.run([sys.executable, "tools/all.py"], cwd=V, env=env, capture_output=True, text=True)
        return p, o.stdout + ("\n" + o.stderr[-600:] if o.returncode else "")
    finally:
        slots.put(s)


try:
    for i in range(min(jobs, len(args))):
        s = f"{base}/{i}"
        os.makedirs(s)
        sh(f"git clone -q /repo {s}/repo")
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", f"{s}/repo/Cargo.lock")
        slots.put(s)
    N, W = int(os.environ.get("N", "10")), int(os.environ.get("W", "220"))
    with ThreadPoolExecutor(jobs) as ex:
        for p, o in ex.map(one, args):
            ls = o.strip().splitlines()
            hit = [l.split()[0] for l in ls if " VIOLATED" in l]
            opn = [l.split()[0] for l in ls if " quiet" in l]
            name = os.path.basename(os.path.dirname(p)) if p.endswith("patch.diff") else os.path.basename(p)
            want = None
            if p.endswith("patch.diff"):
                want = json.load(open(os.path.join(os.path.dirname(p), "meta.json")))["property"]
                print("BUG", name, want, "CAUGHT" if want in hit else "MISSED", " ".join(hit), "open:" + " ".join(opn) if opn else "", flush=True)
                if want in hit:
                    continue
            else:
                print("REF", name, "ALARM " + " ".join(hit) if hit else "quiet", "open:" + " ".join(opn) if opn else "", flush=True)
                if not hit:
                    continue
            print("\n".join(l[:W] for l in ls if not l.startswith("C"))[: N * W], flush=True)
finally:
    shutil.rmtree(base)
