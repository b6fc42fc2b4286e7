#!/usr/bin/env python3
"""Development aid: makes and validates planted bugs (never used by a check).

seed.py make ID...     build seeded/ID from tools/seeds/ID.py, validate it in a scratch copy
seed.py run ID...      run the check of its property against a scratch copy with the bug
"""
import sys, os, subprocess, shutil, json, tempfile, importlib.util
H = "/verif"
DEMO = r'''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds, 1 when it is broken
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$d/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
jpeg-encoder = { path = "$repo", default-features = false, features = [@FEATURES@] }
@DEPS@
[workspace]
[profile.dev]
opt-level = 1
EOF
[ -f "$d/common.rs" ] && cp "$d/common.rs" "$t/src/common.rs"
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline -q 2>"$t/err" || { tail -5 "$t/err"; exit 1; }
'''


def sh(c, cwd=None, env=None, t=900):
    r = subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def load(i):
    sp = importlib.util.spec_from_file_location("seed", f"{H}/tools/seeds/{i}.py")
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def scratch():
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    sh(f"cp -a /repo {t}/repo")
    return t, t + "/repo"


def stable(repo):
    """the stable tests, in the scratch copy"""
    fails = []
    for f in ["--features simd", "", "--no-default-features --tests"]:
        rc, o = sh(f"cargo test --offline --no-fail-fast {f}", cwd=repo)
        if rc:
            fails.append(o[-1500:])
    for c in ["cargo check --offline --manifest-path criterion/Cargo.toml --benches --features simd", "cargo check --offline --manifest-path fuzz/Cargo.toml --bins"]:
        rc, o = sh(c, cwd=repo)
        if rc:
            fails.append(o[-1500:])
    return fails


def make(i):
    m = load(i)
    d = f"{H}/seeded/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t, repo = scratch()
    try:
        for f, old, new in m.EDITS:
            p = f"{repo}/{f}"
            s = open(p).read()
            if s.count(old) != getattr(m, "COUNT", 1):
                print(i, "EDIT does not match once:", s.count(old), old[:80])
                return False
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", cwd=repo)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/main.rs", "w").write(m.MAIN)
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@FEATURES@", ", ".join('"%s"' % x for x in getattr(m, "FEATURES", ["std"]))).replace("@DEPS@", getattr(m, "DEPS", "")))
        os.chmod(f"{d}/demo.sh", 0o755)
        if "mod common;" in m.MAIN:
            shutil.copy(f"{H}/tools/seeds/common.rs", f"{d}/common.rs")
        json.dump(dict(property=m.PROPERTY, needs=m.NEEDS, what_it_breaks=m.BREAKS), open(f"{d}/meta.json", "w"), indent=1)
        fl = stable(repo)
        if fl:
            print(i, "TESTS FAIL WITH THE BUG", fl[0][-700:])
            return False
        rc, o = sh(f"bash {d}/demo.sh", cwd=repo)
        rc0, o0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        if rc0 != 0 or rc == 0:
            print(i, "DEMO base", rc0, o0[-500:], "bug", rc, o[-300:])
            return False
        print(i, "ok: tests pass, demo 0 ->", rc, o.strip()[-160:])
        return True
    finally:
        shutil.rmtree(t, ignore_errors=True)


def run(i, props=None):
    meta = json.load(open(f"{H}/seeded/{i}/meta.json"))
    t, repo = scratch()
    try:
        rc, o = sh(f"git apply {H}/seeded/{i}/patch.diff", cwd=repo)
        assert rc == 0, o
        for p in props or [meta["property"]]:
            rc, o = sh(f"python3 check.py {p} --out {t}", cwd=H, env=dict(os.environ, JSA_REPO=repo))
            rules = [l.strip()[:150] for l in o.splitlines() if l.strip().startswith("rule") or "no answer" in l]
            print(i, p, {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(rc, rc), rules[:4], flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    ok = True
    ids = sys.argv[2:] or sorted(f[:-3] for f in os.listdir(f"{H}/tools/seeds") if f.endswith(".py"))
    props = None
    if "--prop" in ids:
        k = ids.index("--prop")
        props = ids[k + 1].split(",")
        del ids[k:k + 2]
    for i in ids:
        if sys.argv[1] == "make":
            make(i)
        else:
            run(i, props)
