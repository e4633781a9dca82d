#!/usr/bin/env python3
"""Keeps a planted change: tools/seed.py ID PROP NEEDS BREAKS < patch-making script on the copy.

Usage while authoring (see seed_all in the shell history): builds the copy of /repo in /tmp/seed,
runs the edit, checks that it compiles and passes the tests, that the demo fails with it and
passes without it, and stores patch.diff, demo.sh, demo.rs and meta.json under seeded/ID."""
import json
import os
import shutil
import subprocess
import sys

SEED = "/verif/seeded"
REPO = "/repo"
DEMO = '''#!/bin/bash
# Runs demo.rs against the crate in the current directory; exit 0 = behaves as documented.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/parcode-demo-@ID@
rm -rf /tmp/parcode-demo-@ID@
mkdir -p $d/src || exit 99
trap 'cd /; rm -rf /tmp/parcode-demo-@ID@' EXIT
cp "$here/demo.rs" $d/src/main.rs || exit 99
cp "$repo/Cargo.lock" $d/Cargo.lock 2>/dev/null
cat > $d/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
parcode = { path = "$repo"@FEATURES@ }
serde = { version = "1", features = ["derive"] }
@DEPS@
[patch.crates-io]
parcode-derive = { path = "$repo/parcode-derive" }
[profile.dev]
opt-level = 1
debug = false
T
cd $d
cargo build -q --offline --target-dir $d/target || exit 98
timeout 200 $d/target/debug/demo
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def undo():
    sh("git checkout -q -- .", REPO)


def seed(id, prop, needs, breaks, edits, demo, deps="", features=""):
    """edits: [(file, old, new)] on original lines."""
    assert not sh("git status --porcelain", REPO).stdout.strip(), "/repo is not clean"
    try:
        return seed_in(id, prop, needs, breaks, edits, demo, deps, features)
    finally:
        undo()


def seed_in(id, prop, needs, breaks, edits, demo, deps, features):
    for f, old, new in edits:
        p = os.path.join(REPO, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(f"{id}: {f}: {s.count(old)} matches of {old[:80]!r}")
            return False
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", REPO).stdout
    r = sh("bash /opt/vp/build.sh")
    if r.returncode:
        print(f"{id}: does not build\n{r.stdout[-1500:]}")
        return False
    sh("bash /opt/vp/test.sh /tmp/seed/out.json")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = json.load(open("/tmp/seed/out.json"))
    passed = set(got.get("passed", []))
    if stable - passed:
        print(f"{id}: tests: {sorted(stable - passed)[:5]}")
        return False
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@ID@", id).replace("@DEPS@", deps).replace("@FEATURES@", features))
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    os.makedirs("/tmp/seed", exist_ok=True)
    ok = True
    r = sh(f"bash {d}/demo.sh", REPO)
    if r.returncode in (0, 98, 99):
        print(f"{id}: demo with the patch: {r.returncode}\n{r.stdout[-1500:]}")
        ok = False
    else:
        print(f"{id}: patched demo exits {r.returncode}: {r.stdout.strip()[-200:]}")
    undo()
    r = sh(f"bash {d}/demo.sh", REPO)
    if r.returncode != 0:
        print(f"{id}: demo without the patch: {r.returncode}\n{r.stdout[-1500:]}")
        ok = False
    if not ok:
        shutil.rmtree(d)
    print(f"{id}: {'kept' if ok else 'NOT kept'}", flush=True)
    return ok


def catch(ids, tier="quick"):
    """Applies each change to /repo, runs its property's check, and undoes it."""
    for id in ids:
        prop = json.load(open(f"{SEED}/{id}/meta.json"))["property"]
        assert not sh("git status --porcelain", "/repo").stdout.strip(), "/repo is not clean"
        r = sh(f"git apply {SEED}/{id}/patch.diff", "/repo")
        if r.returncode:
            print(id, "does not apply", r.stdout)
            continue
        try:
            r = subprocess.run([sys.executable, "/verif/check.py", prop, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        finally:
            sh("git checkout -q -- .", "/repo")
        out = r.stdout.strip().splitlines()
        print(f"{id} {prop}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else 'missed'} | {out[0][:300] if out else ''}", flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "catch":
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        catch(ids)
