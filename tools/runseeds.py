#!/usr/bin/env python3
"""Apply each planted bug (or patch file) to /repo in turn, run every check, and print what catches it."""
import glob, json, os, subprocess, sys
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
target = '--target' in sys.argv  # only the check of the property the bug is planted against
ids = [a for a in sys.argv[1:] if a != '--target'] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    p = i if os.path.isfile(i) else f'/verif/seeded/{i}/patch.diff'
    assert sh('git -C /repo status --porcelain').stdout == ''
    prop = json.load(open(f'/verif/seeded/{i}/meta.json'))['property'] if not os.path.isfile(i) else '-'
    r = sh(f'git -C /repo apply {p}')
    if r.returncode: print(i, 'does not apply', r.stderr); continue
    try:
        e = dict(os.environ)
        r = subprocess.run(['python3', '/verif/bin/check.py', prop if target and prop != '-' else 'ALL', 'quick'], capture_output=True, text=True, env=e)
    finally:
        sh('git -C /repo checkout -- .')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    got = {l.split('property=')[1].split()[0]: ('nff' if 'no-failing' in l else 'input') for l in v}
    print(f"{i:36} target {prop} {'CAUGHT ' + got[prop] if prop in got else ('quiet' if prop == '-' and not got else 'MISSED' if prop != '-' else 'ALARM')}  all={got} rc={r.returncode}", flush=True)
