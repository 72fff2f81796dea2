#!/usr/bin/env python3
"""Development aid (no check uses it): plants the bugs listed in a Python file and validates each.
usage: plant.py FILE [ID...]     FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)]
Every bug must compile, pass the stable tests, fail its demo; the demo must pass without it."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", NEXTEST_TEST_THREADS="8")
DEMO = """#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
repo="$(pwd)"
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
dir="$(mktemp -d)"
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
@FEATURES@
[dependencies]
hibit_tree = { path = "$repo"@DEPOPTS@ }
EOF
cd "$dir" || exit 9
@ENVSET@timeout 280 cargo @RUNNER@run --offline --quiet@RUNOPTS@ 2>&1 | tail -n 12
exit "${PIPESTATUS[0]}"
"""
def sh(cmd, cwd=WT, env=ENV, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def reset():
    sh("git checkout -q -- .")
def tests():
    r = sh("cargo nextest run --workspace --offline --no-fail-fast --profile vp --tool-config-file vp:/opt/vp/nextest.toml")
    m = re.search(r"(\d+) tests run: (\d+) passed", r.stdout)
    if r.returncode != 0 or not m or m.group(1) != m.group(2):
        return "nextest: " + "\n".join([l for l in r.stdout.splitlines() if re.search(r"FAIL|^error|panicked|SIG|ABORT", l)][:8])
    r = sh("timeout 400 cargo test --workspace --doc --no-fail-fast --offline -- --test-threads 8")
    if r.returncode != 0:
        return "doc tests"
    return None
def demo(d):
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=WT, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode, r.stdout
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    if not os.path.isdir(WT):
        subprocess.run(["cp", "-a", "/repo", WT], check=True)
    base = sh("git rev-list --max-parents=0 HEAD | tail -1").stdout.strip()
    for b in g["BUGS"]:
        if want and b["id"] not in want: continue
        reset()
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f); s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit does not apply:", f, s.count(old)); ok = False; break
            i = s.count("\n", 0, s.index(old)) + 1
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        diff = sh("git diff").stdout
        # which changed lines are original?
        own = []
        for f in {e[0] for e in b["edits"]}:
            bl = sh(f"git blame -s HEAD -- {f}").stdout.splitlines()
            cur = None
            for l in sh(f"git diff -U0 -- {f}").stdout.splitlines():
                m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
                if m: cur = int(m.group(1)); continue
                if l.startswith("-") and not l.startswith("---"):
                    if not bl[cur-1].startswith(("^", "a4f6f3b")): own.append(bl[cur-1][:80])
                    cur += 1
        d = os.path.join(ROOT, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.rs", "w").write(b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write(DEMO.replace("@FEATURES@", b.get("features", "")).replace("@DEPOPTS@", b.get("depopts", "")).replace("@ENVSET@", b.get("envset", "")).replace("@RUNOPTS@", b.get("runopts", "")).replace("@RUNNER@", b.get("runner", "")))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = tests()
        drc, out = demo(d)
        reset()
        crc, cout = demo(d)
        good = t is None and drc != 0 and crc == 0
        print(("OK  " if good else "BAD ") + b["id"], "tests:", t or "pass", "| demo with:", drc, "without:", crc, "| own lines:", own or "none")
        if drc == 0 or crc != 0: print("   ", (out if drc == 0 else cout)[-600:])
        elif good: print("    ", out.strip().splitlines()[-1][:150] if out.strip() else "")
        if not good: shutil.rmtree(d)
        sys.stdout.flush()
main()
