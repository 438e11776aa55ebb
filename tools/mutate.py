#!/usr/bin/env python3
"""Mutation testing of the machinery (development aid): small textual changes of /repo/src that build and pass the
tests are given to the falsifier and, if it finds nothing, to the verifier. usage: mutate.py OUT.jsonl [workers] [sample] [seed]"""
import json, os, random, re, shutil, subprocess, sys, threading, importlib.util
OUT, NW, SAMPLE, SEED = sys.argv[1], *[int(x) for x in (sys.argv[2:] + ['3', '0', '1'][len(sys.argv) - 2:])]
FILES = ['error', 'parse', 'parse_extern', 'parse_fn', 'parse_impl', 'parse_mod', 'parse_type', 'parse_utils', 'punctuated', 'types', 'types_edition']
def sh(c, t=300, cwd=None):
    try:
        p = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired: return 124, '', 'timeout'
CH = {',': ';', ';': ',', ':': ',', '=': ':', '<': '>', '>': '<', '#': '!', '!': '#', '&': '*', '-': '=', "\\'": '&'}
def mutants(lines):
    for n, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or 'panic!' in s or 'expect(' in s or s.startswith('"'): continue
        def rep(a, b, m): return n, 1, [l[:m.start()] + b + l[m.end():]]
        for m in re.finditer(r"'(\\'|[^'\w\\])'", l):
            if m.group(1) in CH: yield rep(0, "'%s'" % CH[m.group(1)], m)
        for a, b in [(r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'&&', '||'), (r'\|\|(?! *\{)', '&&'), (r' == ', ' != '), (r' != ', ' == '),
                     (r'Delimiter::Brace', 'Delimiter::Parenthesis'), (r'Delimiter::Parenthesis', 'Delimiter::Brace'), (r'Delimiter::Bracket', 'Delimiter::Brace'), (r'Delimiter::None', 'Delimiter::Parenthesis'),
                     (r'Spacing::Joint', 'Spacing::Alone'), (r'Spacing::Alone', 'Spacing::Joint'), (r'\+= 1', '+= 2'), (r'-= 1', '-= 0'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r' < ', ' <= '), (r'\bbreak\b', 'panic!()'),
                     (r'consume_outer_attributes', 'consume_inner_attributes'), (r'consume_inner_attributes', 'consume_outer_attributes'), (r'Span::call_site', 'Span::mixed_site'), (r'\bpush\(', 'insert(0, '), (r'\bSome\(([\w.]+)\)(?=[,;]?$)', 'None'),
                     (r'\.first\(', '.last('), (r'\.iter\(\)', '.iter().rev()'), (r'\.items\(\)', '.items().skip(1)'), (r'\.into_iter\(\)', '.into_iter().skip(1)'), (r'!(?=[a-z(])', ''), (r'\bmap\(', 'take(1).map('), (r'span_open', 'span_close'), (r'\.join\(', '.or('), (r'\.len\(\)', '.len().saturating_sub(1)')]:
            for m in re.finditer(a, l): yield rep(0, b, m)
        m = re.match(r'^(\s*)(\w+),$', l)
        if m: yield n, 1, [f'{m.group(1)}{m.group(2)}: Default::default(),']
        m = re.match(r'^(\s*)(\w+): (.*),$', l)
        if m and 'Default' not in l: yield n, 1, [f'{m.group(1)}{m.group(2)}: Default::default(),']
        if s.endswith(';') and not s.startswith('let ') and not s.startswith('return') and s not in ('};', '});', ');'): yield n, 1, ['']
        if s.endswith(';') and n + 1 < len(lines) and lines[n + 1].strip().endswith(';') and s != lines[n + 1].strip() and s[0] not in '})': yield n, 2, [lines[n + 1], l]
        m = re.match(r'^(.*\w.*\)) if (.*) => (.*)$', l)
        if m: yield n, 1, [f'{m.group(1)} => {m.group(3)}']
        m = re.match(r'^(\s*let (?:mut )?\w+(?:: [^=]+)? = )(.*);$', l)
        if m and 'default' not in l.lower(): yield n, 1, [m.group(1) + 'Default::default();']
        m = re.match(r'^(\s*(?:\} else )?if )(?!let)(.*)( \{)$', l)
        if m: yield n, 1, [f'{m.group(1)}false && ({m.group(2)}){m.group(3)}']; yield n, 1, [f'{m.group(1)}true || ({m.group(2)}){m.group(3)}']
        m = re.match(r'^(\s*)([A-Z][\w:]*\([^()]*\)|TokenTree::\w+\(.*) => (\w.*),$', l)
        if m: yield n, 1, ['']
jobs = []
for f in FILES:
    L = open(f'/repo/src/{f}.rs').read().split('\n')
    seen = set()
    for n, k, new in mutants(L):
        key = (n, k, tuple(new))
        if key in seen or L[n:n + k] == new: continue
        seen.add(key); jobs.append((f, n, k, new))
random.Random(SEED).shuffle(jobs)
if SAMPLE: jobs = jobs[:SAMPLE]
print(len(jobs), 'mutants', flush=True)
lock = threading.Lock(); it = iter(jobs); out = open(OUT, 'a'); stat = {}
def load(w):
    sp = importlib.util.spec_from_file_location(f'check{w}', '/verif/bin/check.py'); c = importlib.util.module_from_spec(sp); a = sys.argv; sys.argv = ['check.py']; sp.loader.exec_module(c); sys.argv = a; return c
def worker(w):
    D = f'/tmp/mut/w{w}'; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    sh(f'git -C /repo archive --prefix=repo/ HEAD | tar x -C {D}; cp -a /verif/oracle {D}/oracle; rm -rf {D}/oracle/target; sed -i s,/repo,{D}/repo, {D}/oracle/Cargo.toml')
    sh('cp -a /repo/Cargo.lock . ; cp -a /repo/target .', cwd=D + '/repo')
    src = {f: open(f'{D}/repo/src/{f}.rs').read() for f in FILES}
    c = load(w); c.REPO = D + '/repo'; c.WORK = D + '/work'; os.makedirs(c.WORK)
    while True:
        with lock: j = next(it, None)
        if j is None: break
        f, n, k, new = j
        L = src[f].split('\n'); old = L[n:n + k]; L[n:n + k] = new
        open(f'{D}/repo/src/{f}.rs', 'w').write('\n'.join(L))
        r = dict(file=f, line=n + 1, old=[x.strip() for x in old], new=[x.strip() for x in new])
        rc, o, e = sh('cargo build --offline', cwd=D + '/repo')
        if rc: r['status'] = 'nobuild'
        else:
            rc, o, e = sh('timeout 60 cargo test --offline --lib', cwd=D + '/repo')
            if rc == 0: rc, o, e = sh('timeout 60 cargo test --offline --doc', cwd=D + '/repo')
            if rc: r['status'] = 'tests'
            else:
                rc, o, e = sh('cargo build --offline --release', cwd=D + '/oracle')
                if rc: r['status'] = 'oracle-nobuild'; r['why'] = e[-300:]
                else:
                    of = f'{D}/o.json'
                    if os.path.exists(of): os.remove(of)
                    rc, o, e = sh(f'ulimit -v 16000000; {D}/oracle/target/release/oracle --prop ALL --seconds 5 --seed 1 --threads 3 --out {of}', 60)
                    r['oracle'] = 'none'
                    if rc not in (0, 1): r['oracle'] = f'died {rc}'
                    elif os.path.exists(of):
                        x = json.load(open(of)); v = x.get('violation') or x.get('stuck')
                        if v: r['oracle'] = v.get('all_props', ''); r['input'] = v['input'][:120]; r['what'] = v['what'][:120]
                    pr = []
                    for a in (('out', '', None), ('strict', 'strict', 'C14')):
                        if r['oracle'] != 'none' and not os.environ.get('MUT_PROOF'): break
                        v = c.Verus(*a).run(c.Verus.build())
                        t = sorted({t for x in v.failed if not x['undecided'] for t in x['tags']})
                        pr.append([a[0], v.ok, t, len(v.failed), list(v.external)])
                    r['proof'] = pr
                    pf = [t for p in pr for t in p[2]]
                    r['status'] = 'input' if r['oracle'] != 'none' else 'proof' if pf else 'MISSED'
        with lock:
            stat[r['status']] = stat.get(r['status'], 0) + 1
            out.write(json.dumps(r) + '\n'); out.flush()
            if r['status'] in ('proof', 'MISSED', 'oracle-nobuild'): print(r['status'], f, n + 1, '|', ' / '.join(r['old']), '=>', ' / '.join(r['new']), '|', r.get('proof'), r.get('why', ''), flush=True)
        open(f'{D}/repo/src/{f}.rs', 'w').write(src[f])
    shutil.rmtree(D, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
print(stat)
