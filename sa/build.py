"""Builds the fact extractor and extracts facts from /repo's working tree."""
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
OUT = os.environ.get("SA_BUILD", os.path.join(VERIF, ".build"))


def sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def sysroot():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise SystemExit("no nightly toolchain: " + out)
    return out.strip()


def driver():
    os.makedirs(OUT, exist_ok=True)
    src = os.path.join(VERIF, "driver", "main.rs")
    exe = os.path.join(OUT, "driver-" + sha([src]))
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        rc, out = run(["rustc", "+nightly", "-O", "--edition", "2024", "-C", "rpath", src, "-o", tmp])
        if rc:
            raise SystemExit("driver does not build:\n" + out[-3000:])
        os.replace(tmp, exe)
    return exe


def extract_file(path, crate, extra=()):
    """facts of a single-file library crate"""
    exe = driver()
    dst = os.path.join(OUT, f"{crate}-{sha([path, os.path.join(VERIF, 'driver', 'main.rs')])}.json")
    if not os.path.exists(dst):
        tmpd = os.path.join(OUT, f"tmp-{crate}-{os.getpid()}")
        os.makedirs(tmpd, exist_ok=True)
        tmp = dst + ".%d" % os.getpid()
        rc, out = run(
            [exe, "--crate-type", "lib", "--edition", "2024", "--crate-name", crate, path, "--out-dir", tmpd, "--emit=metadata", *extra],
            env={"LD_LIBRARY_PATH": sysroot() + "/lib", "SA_CRATE": crate, "SA_OUT": tmp},
        )
        if rc or not os.path.exists(tmp):
            raise SystemExit(f"{path} does not compile:\n" + out[-3000:])
        os.replace(tmp, dst)
    return dst


def repo_files():
    out = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs]
    for f in ("README.md", "clippy.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return [p for p in out if os.path.exists(p)]


def repo_facts(features=None):
    """facts of /repo's library under one feature set (None: default features)"""
    exe = driver()
    tag = "default" if features is None else ("none" if features == "" else features.replace(",", "_"))
    key = sha(repo_files() + [os.path.join(VERIF, "driver", "main.rs")])
    dst = os.path.join(OUT, f"facts-{tag}-{key}.json")
    if not os.path.exists(dst):
        # a target directory of its own per extraction: cargo's freshness cache
        # would otherwise skip the wrapper
        tgt = os.path.join(OUT, "target-" + tag)
        lock = os.path.join(REPO, "Cargo.lock")
        tmp = dst + ".%d" % os.getpid()
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        if features is not None:
            cmd += ["--no-default-features"]
            if features:
                cmd += ["--features", features]
        env = {
            "LD_LIBRARY_PATH": sysroot() + "/lib",
            "SA_CRATE": "bnf",
            "SA_OUT": tmp,
            "RUSTC_WORKSPACE_WRAPPER": exe,
            "CARGO_TARGET_DIR": tgt,
            "RUSTFLAGS": f'--cfg sa_key="{key}"',
            "CARGO_ENCODED_RUSTFLAGS": "",
        }
        env.pop("CARGO_ENCODED_RUSTFLAGS")
        # only the workspace crate has to be rebuilt: make its fingerprint stale
        fp = os.path.join(tgt, "debug", ".fingerprint")
        env["RUSTFLAGS"] = ""
        if os.path.isdir(fp):
            import shutil

            for n in os.listdir(fp):
                if n.startswith("bnf-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
        before = open(lock, "rb").read() if os.path.exists(lock) else None
        rc, out = run(cmd, env=env, cwd=REPO)
        if before is not None and open(lock, "rb").read() != before:
            open(lock, "wb").write(before)
        if rc or not os.path.exists(tmp):
            raise SystemExit(f"/repo does not compile (features {tag}):\n" + out[-3000:])
        for f in os.listdir(OUT):
            if f.startswith(f"facts-{tag}-") and f != os.path.basename(dst) and not f.endswith(str(os.getpid())):
                try:
                    os.remove(os.path.join(OUT, f))
                except OSError:
                    pass
        os.replace(tmp, dst)
    return dst


def models():
    """facts of the reference bodies of std combinators"""
    return extract_file(os.path.join(VERIF, "driver", "models.rs"), "samodels")


if __name__ == "__main__":
    driver()
    models()
    repo_facts(None)
    print("driver, models and facts are built in", OUT)
