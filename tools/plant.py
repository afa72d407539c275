#!/usr/bin/env python3
"""Development tool: makes seeded/<id>/ from bugs/<id>.py and confirms it.

bugs/<id>.py sets  prop, needs, breaks, edits = [(file, old, new)], demo (Rust main.rs)
usage: plant.py ID...   (make and confirm)      plant.py --check ID...  (run the property's check against it)
"""
import json, os, re, shutil, subprocess, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# Builds and runs a small program against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/common.rs" "$d/src/common.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
infrared = { path = "$repo" }
embedded-hal = { version = "0.2.4", features = ["unproven"] }
fugit = "0.3.5"
[profile.dev]
opt-level = 1
EOF
cd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet
'''

def load(i):
    g = {}
    exec(open(os.path.join(ROOT, "tools", "bugs", i + ".py")).read(), g)
    return g

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def plant(i):
    b = load(i)
    w = "/tmp/plant_" + i
    shutil.rmtree(w, ignore_errors=True)
    sh("git clone -q /repo %s && mkdir -p %s/target" % (w, w), "/")
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit of %s matches %d times" % (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        d = os.path.join(ROOT, "seeded", i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(b.get("demo_sh", DEMO_SH))
        os.chmod(d + "/demo.sh", 0o755)
        if "demo" in b:
            open(d + "/main.rs", "w").write("#![allow(dead_code)]\nmod common;\n#[allow(unused_imports)]\nuse common::*;\n" + b["demo"])
            shutil.copy(os.path.join(ROOT, "tools", "common.rs"), d + "/common.rs")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("CARGO_TARGET_DIR=/tmp/plant_target cargo test --workspace --offline 2>&1 | grep -E 'test result|FAILED|error|panicked'", w)
        if "FAILED" in r.stdout or re.search(r'^error', r.stdout, re.M) or "test result" not in r.stdout:
            return "tests: " + r.stdout
        r = sh("bash %s/demo.sh" % d, w)
        if r.returncode == 0:
            return "demo passes with the bug: " + r.stdout
        bad = r.stdout
        r = sh("bash %s/demo.sh" % d, "/repo")
        if r.returncode != 0:
            return "demo fails on the unchanged tree: " + r.stdout
        return "ok (" + " | ".join(bad.strip().splitlines()[-3:])[:200] + ")"
    finally:
        shutil.rmtree(w, ignore_errors=True)

def check(i, props=None):
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git status --porcelain", "/repo").stdout
    r = sh("git -C /repo apply %s/patch.diff" % d, "/")
    if r.returncode:
        return "does not apply " + r.stdout
    try:
        out = []
        for p in props or [prop]:
            r = sh("timeout 900 python3 check.py " + p, ROOT)
            v = ("VIOLATION property=%s" % p) in r.stdout
            out.append("%s:%s" % (p, "CAUGHT" if v and r.returncode == 1 else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:] if r.returncode else "")))
        return " ".join(out)
    finally:
        sh("git -C /repo checkout -- .", "/")

if __name__ == "__main__":
    a = sys.argv[1:]
    chk = "--check" in a
    props = None
    if "--props" in a:
        k = a.index("--props"); props = a[k + 1].split(","); del a[k:k + 2]
    ids = [x for x in a if not x.startswith("--")] or sorted(os.path.basename(x)[:-3] for x in glob.glob(os.path.join(ROOT, "tools", "bugs", "*.py")))
    for i in ids:
        print(i, check(i, props) if chk else plant(i), flush=True)
