#!/usr/bin/env python3
"""mkseed.py SPEC.py : builds and confirms planted bugs in a scratch copy of /repo.
SPEC.py defines SEEDS = [dict(id, property, file, edits=[(old,new)..], features, deps, main, needs, breaks)].
Development tool only; no check uses it."""
import json, os, runpy, shutil, subprocess, sys
W = "/tmp/seedwork"
OUT = "/verif/seeded"
DEMO = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Run with cwd = repository root.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here"/*.rs "$t/src/"; sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cp "$repo/source/postcard-rpc/Cargo.lock" "$t/Cargo.lock" 2>/dev/null || cp /opt/vp/postcard-rpc.Cargo.lock "$t/Cargo.lock"
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q 2>&1
"""
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(W):
        sh("cp -a /repo %s" % W)
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (W, W))
    r = sh("git -C %s status --short; git -C %s rev-parse HEAD; git -C /repo rev-parse HEAD" % (W, W))
    return r.stdout
os.makedirs(OUT, exist_ok=True)
specs = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
for s in specs:
    if only and s["id"] not in only:
        continue
    fresh()
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != s.get("count", 1):
            print(s["id"], "EDIT DOES NOT MATCH", t.count(old), old[:80]); break
        open(p, "w").write(t.replace(old, new))
    else:
        d = os.path.join(OUT, s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/main.rs", "w").write(s["main"])
        for n, c in s.get("extra", {}).items():
            open(os.path.join(d, n), "w").write(c)
        feats = s.get("features", '"cobs"')
        open(d + "/Cargo.toml.in", "w").write("""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
postcard-rpc = { path = "@REPO@/source/postcard-rpc", default-features = false, features = [%s] }
postcard = "1.0.10"
postcard-schema = { version = "0.2.1", features = ["derive"] }
serde = { version = "1.0.192", default-features = false, features = ["derive"] }
%s
""" % (feats, s.get("deps", "")))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh("sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/sw_env.sh; sed 's#/repo#%s#g; s#/opt/vp/env.sh#/tmp/sw_env.sh#' /opt/vp/build.sh > /tmp/sw_build.sh; sed 's#/repo#%s#g; s#/opt/vp/env.sh#/tmp/sw_env.sh#' /opt/vp/test.sh > /tmp/sw_test.sh; bash /tmp/sw_build.sh" % (W, W, W))
        t = sh("bash /tmp/sw_test.sh /tmp/sw_out.json")
        o = json.load(open("/tmp/sw_out.json"))
        bad = sh("bash %s/demo.sh" % d, cwd=W)
        fresh()
        good = sh("bash %s/demo.sh" % d, cwd=W)
        ok = b.returncode == 0 and len(o["passed"]) == 28 and not o["failed"] and bad.returncode != 0 and good.returncode == 0
        print(s["id"], "OK" if ok else "REJECTED", "build", b.returncode, "pass", len(o["passed"]), "fail", o["failed"], "demo patched", bad.returncode, "clean", good.returncode, flush=True)
        if bad.returncode == 0 or "--v" in sys.argv or not ok:
            print(bad.stdout[-600:]); print(good.stdout[-1500:]); print(b.stdout[-800:] if b.returncode else "")
        else:
            print("   ", [l for l in bad.stdout.splitlines() if "panicked" in l or "assert" in l][:2])
