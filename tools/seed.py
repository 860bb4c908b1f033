#!/usr/bin/env python3
"""Turn a planted-bug description into seeded/<id>/ after confirming it.

seed.py SPEC.py      SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (body of main, Rust)
Works in a scratch copy of /repo under /tmp; the copy is removed afterwards.
"""
import sys, os, subprocess, json, shutil, runpy, difflib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''#![allow(unused)]
use dice_bytecode::*;
use dice_compiler::compiler::Compiler;
use dice_core::source::{LineIndex, Source, SourceKind};
use dice_core::span::Span;
fn build(kind: SourceKind, text: &str) -> Result<Bytecode, String> {
    Compiler::compile_source(Source::new(text.to_string(), kind)).map_err(|e| e.error_code().to_string())
}
/// the code as instruction names with operands, functions included; or the error code
fn dump(kind: SourceKind, text: &str) -> String {
    match build(kind, text) {
        Err(e) => e,
        Ok(b) => list(&b),
    }
}
fn list(b: &Bytecode) -> String {
    let mut o = String::new();
    for l in b.to_string().lines() {
        let p: Vec<&str> = l.split('|').map(|x| x.trim()).collect();
        if p.len() >= 4 {
            let operands: Vec<&str> = p[3].split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
            o += &format!("{} {}; ", p[2], operands.join(" "));
        }
    }
    for c in b.constants() {
        match c {
            ConstantValue::Function(f) => o += &format!("FN[{} {}] ", f.name, list(&f.bytecode)),
            _ => (),
        }
    }
    o.replace(" ;", ";")
}
fn script(t: &str) -> String { dump(SourceKind::Script, t) }
fn module(t: &str) -> String { dump(SourceKind::Module, t) }
'''
DEMO_SH = '''#!/bin/bash
# exits 0 when the behaviour is right
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE/main.rs" "$T/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dice-core = { path = "$REPO/dice-core" }
dice-bytecode = { path = "$REPO/dice-bytecode" }
dice-syntax = { path = "$REPO/dice-syntax" }
dice-compiler = { path = "$REPO/dice-compiler" }
[workspace]
EOF
cd "$T"
export CARGO_TARGET_DIR="$T/target"
cargo build --offline -q 2> "$T/log" || { cat "$T/log"; echo "demo does not build"; exit 3; }
RUST_BACKTRACE=0 timeout 60 "$T/target/debug/demo"
'''
def run(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def main(path):
    s = runpy.run_path(path)
    sid = s["ID"]
    d = os.path.join(ROOT, "seeded", sid)
    W = "/tmp/seed-" + sid
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call("git -C /repo worktree prune; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (W, W), shell=True)
    try:
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(PRELUDE + s.get("HELP", "") + "fn main() {\n" + s["DEMO"] + "\n}\n")
        open(d + "/demo.sh", "w").write(DEMO_SH)
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        a = run("bash %s/demo.sh" % d, W)
        if a.returncode: return print(sid, "DEMO FAILS UNCHANGED", a.returncode, a.stdout.decode()[-1500:])
        subprocess.check_call("git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=W)
        for f, old, new in s["EDITS"]:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1: return print(sid, "EDIT does not match once:", f, t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        diff = run("git diff", W).stdout.decode()
        open(d + "/patch.diff", "w").write(diff)
        b = run("CARGO_TARGET_DIR=%s/target cargo test -p dice-core -p dice-bytecode -p dice-syntax -p dice-compiler --no-fail-fast --offline 2>&1 | grep -E '^test result|^error|FAILED|failed'" % W, W)
        out = b.stdout.decode()
        if "error" in out or "FAILED" in out: return print(sid, "BUILD/TESTS:", out[-1500:])
        c = run("bash %s/demo.sh" % d, W)
        if c.returncode in (0, 3): return print(sid, "DEMO PASSES WITH BUG", c.returncode, c.stdout.decode()[-800:])
        print(sid, "ok:", c.stdout.decode().strip()[:200] , flush=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)
for p in sys.argv[1:]: main(p)
