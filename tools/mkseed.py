#!/usr/bin/env python3
"""mkseed.py SPECS.py [id...]   make planted bugs from specs, confirm them in a scratch copy, run the checks.

A spec file defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], main, needs, breaks)].
"""
import json, os, re, shutil, subprocess, sys
SC = "/tmp/seedscratch"
SEEDED = "/verif/seeded"
DEMO = r'''#!/bin/bash
# run with cwd = the repository; exit 0 if the behaviour is right
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
rphtml = { path = "$repo" }
[workspace]
T
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q || exit 2
timeout 60 "$tmp/target/debug/demo"
'''
PRE = '''#![allow(unused_imports, dead_code, deprecated)]
use rphtml::config::{ParseOptions, RenderOptions};
use rphtml::parser::*;
fn parse(s: &str, o: ParseOptions) -> Option<DocHolder> {
	Doc::parse(s, o).ok()
}
fn po() -> ParseOptions {
	ParseOptions::default()
}
fn html(s: &str, o: ParseOptions) -> String {
	Doc::parse(s, o).expect("must be accepted").render(&RenderOptions::default())
}
'''
def sh(cmd, cwd=None, env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    stable = {x.split("::")[-1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    shutil.rmtree(SC, ignore_errors=True)
    sh(f"cp -a /repo {SC}")
    base = sh("git blame -s src/parser.rs", cwd="/repo").stdout
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        sh("git checkout -q -- .", cwd=SC)
        ok = True
        for f, old, new in s["edits"]:
            p = f"{SC}/{f}"; t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT matches", t.count(old), repr(old[:60])); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        diff = sh("git diff", cwd=SC).stdout
        d = f"{SEEDED}/{s['id']}"
        r = sh("cargo test --offline --no-fail-fast -- --test-threads 8", cwd=SC, env={"CARGO_TARGET_DIR": SC + "/target", "CARGO_INCREMENTAL": "1"})
        out = r.stdout + r.stderr
        passed = set(re.findall(r"^test (\S+)(?: - should panic)? \.\.\. ok", out, re.M))
        passed = {p.split("::")[-1] for p in passed}
        miss = stable - passed
        if miss:
            print(s["id"], "REJECTED: tests fail:", sorted(miss)[:6] if passed else out[-1500:]); continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/main.rs", "w").write(PRE + s["main"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = sh(f"bash {d}/demo.sh", cwd=SC)
        good = sh(f"bash {d}/demo.sh", cwd="/repo")
        if good.returncode != 0 or bad.returncode == 0:
            print(s["id"], "REJECTED: demo good", good.returncode, "bad", bad.returncode, (good.stderr + bad.stderr)[-600:])
            shutil.rmtree(d); continue
        a = sh(f"git apply {d}/patch.diff", cwd="/repo")
        if a.returncode: print("apply", a.stderr); continue
        try:
            c = sh(f"bash check.sh {s['prop']} quick", cwd="/verif")
        finally:
            sh("git checkout -q -- .", cwd="/repo")
        v = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "input", "problem"))]
        print(s["id"], s["prop"], "CAUGHT" if c.returncode == 1 and any(f"VIOLATION property={s['prop']} " in l for l in v) else f"MISSED rc={c.returncode} {c.stderr[-300:]}", " | ".join(v[:2])[:240], flush=True)
    shutil.rmtree(SC, ignore_errors=True)
main()
