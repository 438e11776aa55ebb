#!/usr/bin/env python3
"""Write the behaviour-preserving edits of refs_def.py as patches to a directory (confirmed: they build and pass the tests)."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refs_def import REFS
out = sys.argv[1]; os.makedirs(out, exist_ok=True)
ids = sys.argv[2:]
SC = '/tmp/rf'; REPO = SC + '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
shutil.rmtree(SC, ignore_errors=True); os.makedirs(SC); sh(f'cp -a /repo {REPO}; git -C {REPO} checkout -q -- .')
for i, edits in REFS:
    if ids and i not in ids: continue
    sh(f'git -C {REPO} checkout -q -- .')
    ok = True
    for f, old, new in edits:
        p = f'{REPO}/src/{f}'; t = open(p).read()
        if t.count(old) != 1: print(i, 'count', t.count(old), old[:60]); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    r = sh('cargo test --offline -q 2>&1', cwd=REPO)
    if 'error' in r.stdout and 'test result: ok' not in r.stdout or 'FAILED' in r.stdout: print(i, 'FAILS', r.stdout[-1500:]); continue
    open(f'{out}/{i}.diff', 'w').write(sh(f'git -C {REPO} diff').stdout); print(i, 'ok')
shutil.rmtree(SC, ignore_errors=True)
