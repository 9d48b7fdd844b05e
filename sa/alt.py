"""Write the alternative tables: python3 -m sa.alt  (authoring only)

Some functions can be written in ways the normal form does not unify (a fixpoint
loop driven by a flag or by a length, say).  specs/alt.list names reviewed,
behaviour-preserving rewrites under neutral/ and the functions whose table in the
rewritten tree is accepted beside the main one.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.setrecursionlimit(20000)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tables(diff, fns):
    """[(area, text)] of the functions in the tree with the diff applied"""
    from . import facts as F, build, spec as S
    from .contracts import evaluate
    from .roots import ROOTS

    fc = F.Facts(build.repo_facts(None))
    fm = F.Facts(build.models())
    out = []
    for r in ROOTS:
        if any(r["fn"] == f or r["fn"].endswith("::" + f) or f in r["fn"] for f in fns):
            ev = evaluate(fc, fm, r)
            out.append((r["area"], S.render(r["fn"], ev.rows, ev.n)))
    return out


def main():
    if len(sys.argv) > 1:
        for area, text in tables(sys.argv[1], sys.argv[2:]):
            print("AREA", area)
            print(text)
        return
    jobs = []
    for line in open(os.path.join(V, "specs", "alt.list")):
        line = line.split("#")[0].split()
        if not line:
            continue
        fns = [x.replace("~", " ") for x in line[1:]]
        if line[0].startswith("family/"):
            d = os.path.join(V, "specs", "family")
            jobs += [(f[:-5], os.path.join(d, f), fns) for f in sorted(os.listdir(d)) if f.startswith(line[0][7:])]
        else:
            jobs.append((line[0], os.path.join(V, "neutral", line[0] + ".diff"), fns))

    def run(job):
        d, diff, fns = job
        tmp = tempfile.mkdtemp(prefix="alt")
        try:
            repo = os.path.join(tmp, "repo")
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target"), symlinks=True)
            subprocess.run(["git", "-C", repo, "apply", diff], check=True)
            env = dict(os.environ, SA_REPO=repo, SA_BUILD=os.path.join(tmp, "build"))
            return subprocess.run([sys.executable, "-m", "sa.alt", d] + fns, cwd=V, env=env, stdout=subprocess.PIPE, text=True, check=True).stdout
        finally:
            shutil.rmtree(tmp)

    by, seen = {}, set()
    with ThreadPoolExecutor(6) as ex:
        for (d, _, _), o in zip(jobs, ex.map(run, jobs)):
            n = 0
            for blk in o.split("AREA ")[1:]:
                area, _, text = blk.partition("\n")
                if text in seen:
                    continue
                seen.add(text)
                by.setdefault(area.strip(), []).append("-- " + d + "\n" + text)
                n += 1
            print(d, n)
    for f in os.listdir(os.path.join(V, "specs")):
        if f.endswith(".alt.spec"):
            os.remove(os.path.join(V, "specs", f))
    for area, ts in by.items():
        with open(os.path.join(V, "specs", area + ".alt.spec"), "w") as fh:
            fh.write("\n".join(ts))


if __name__ == "__main__":
    main()
