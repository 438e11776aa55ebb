#!/usr/bin/env python3
"""Run only the proof side on a scratch copy of /repo with each given patch applied (development aid)."""
import os, shutil, subprocess, sys, importlib.util
sp = importlib.util.spec_from_file_location('check', '/verif/bin/check.py'); check = importlib.util.module_from_spec(sp)
sys.argv = ['check.py'] + sys.argv[1:]
sp.loader.exec_module(check)
SC = '/tmp/po%d' % os.getpid()
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
shutil.rmtree(SC, ignore_errors=True); os.makedirs(SC + '/repo'); sh(f'git -C /repo archive HEAD | tar x -C {SC}/repo'); sh(f'cp -a {SC}/repo/src {SC}/src0')
check.REPO = SC + '/repo'; check.WORK = SC + '/work'
for p in sys.argv[1:]:
    sh(f'rm -rf {SC}/repo/src; cp -a {SC}/src0 {SC}/repo/src')
    r = sh(f'cd {SC}/repo && patch -p1 < {os.path.abspath(p)}')
    if r.returncode: print(p, r.stdout); continue
    os.makedirs(check.WORK, exist_ok=True)
    name = os.path.basename(os.path.dirname(p) if p.endswith('patch.diff') else p)
    for a in (('out', '', None), ('strict', 'strict', 'C14')):
        v = check.Verus(*a).run(check.Verus.build())
        d = [f for f in v.failed if not f['undecided']]
        print(name, a[0], 'ok' if v.ok else 'NOT-OK ' + v.why[:300], f'rounds={v.rounds} failed={len(v.failed)} direct={len(d)} external={len(v.external)} lost={v.report.get("lost_contracts")}', flush=True)
        for f in v.failed[:6]: print('     ', f['fn'], '|', f['kind'][:50], '|', (f['clause'] or f['code'])[:110], '|', ','.join(f['tags']), '|', ';'.join(f['undecided']))
        for k, x in (v.external or {}).items(): print('      set aside', k, '|', str(x)[:250])
shutil.rmtree(SC, ignore_errors=True)
