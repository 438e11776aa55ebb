#!/usr/bin/env python3
"""Create and confirm the planted bugs of /verif/seeded from tools/seeds_def.py.

For each: apply the replacement in a scratch copy of /repo, build, run the stable tests, run the
demo with and without.  Only confirmed ones are written.  usage: mkseeds.py [id ...]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_def import SEEDS
SC = '/tmp/sd'
REPO = SC + '/repo'
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
venial = { path = "$repo" }
proc-macro2 = { version = "1", features = ["span-locations"] }
quote = "1"
[workspace]
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 60 "$d/target/debug/demo"
'''
HEAD = '''#![allow(unused)]
use proc_macro2::*; use quote::{quote, ToTokens}; use std::str::FromStr; use venial::*;
fn ts(s: &str) -> TokenStream { TokenStream::from_str(s).unwrap() }
fn flat(t: TokenStream) -> String { let mut o = String::new(); for t in t { match t {
    TokenTree::Group(g) => { o += &format!("{:?}[ {}] ", g.delimiter(), flat(g.stream())); }
    TokenTree::Ident(i) => o += &format!("{} ", i), TokenTree::Literal(l) => o += &format!("{} ", l),
    TokenTree::Punct(p) => o += &format!("{}{} ", p.as_char(), if p.spacing() == Spacing::Joint { "~" } else { "" }) } } o }
fn round(s: &str) { let i = parse_item(ts(s)).unwrap(); assert_eq!(flat(ts(s)), flat(i.to_token_stream())); }
fn panics<R>(f: impl FnOnce() -> R + std::panic::UnwindSafe) -> bool { std::panic::set_hook(Box::new(|_| ())); let r = std::panic::catch_unwind(f).is_err(); let _ = std::panic::take_hook(); r }
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ids = sys.argv[1:]
    shutil.rmtree(SC, ignore_errors=True); os.makedirs(SC)
    sh(f'cp -a /repo {REPO}')
    sh(f'git -C {REPO} checkout -q -- .')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in SEEDS:
        if ids and s['id'] not in ids: continue
        sh(f'git -C {REPO} checkout -q -- .')
        ok = True
        for f, old, new in s['edits']:
            p = f'{REPO}/src/{f}'; t = open(p).read()
            if t.count(old) != 1: print(s['id'], 'old text count', t.count(old), old[:50]); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        patch = sh(f'git -C {REPO} diff').stdout
        # tests on the copy
        r = sh('cargo test --offline -q 2>&1', cwd=REPO, timeout=600)
        if 'test result: ok' not in r.stdout or 'FAILED' in r.stdout or 'error' in r.stdout.lower().split('test result')[0][:4000] and 'error[' in r.stdout:
            print(s['id'], 'TESTS/BUILD FAIL'); print('\n'.join(l for l in r.stdout.splitlines() if 'FAILED' in l or 'error' in l or l.startswith('    tests::'))[:800]); continue
        d = f'{SC}/{s["id"]}'; os.makedirs(d)
        open(d + '/main.rs', 'w').write(HEAD + s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rb = sh(f'bash {d}/demo.sh', cwd=REPO)
        sh(f'git -C {REPO} checkout -q -- .')
        rc = sh(f'bash {d}/demo.sh', cwd=REPO)
        if rc.returncode != 0 or rb.returncode in (0, 3):
            print(s['id'], 'DEMO BAD clean', rc.returncode, 'patched', rb.returncode, (rc.stdout + rc.stderr)[-600:], rb.stdout[-300:] if rb.returncode == 3 else ''); continue
        dst = f'/verif/seeded/{s["id"]}'
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        print(s['id'], 'confirmed; patched rc', rb.returncode)
    shutil.rmtree(SC, ignore_errors=True)
main()
