#!/usr/bin/env python3
"""Decides one property: extracts /repo's current source with its contracts, lets Verus discharge
every obligation, turns failures into concrete inputs, writes the evidence file.

usage: check.py PROPERTY [quick|thorough]      (PROPERTY may be ALL for development)
exit 0: held; exit 1 with a VIOLATION line: broken."""
import json, os, re, resource, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(HERE, 'work')
EVID = os.path.join(HERE, 'evidence')
PROPS = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout=600, cwd=None, mem_gb=24, env=None):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                             start_new_session=True, env=env)
        try:
            resource.prlimit(p.pid, resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.prlimit(p.pid, resource.RLIMIT_CORE, (0, 0))
        except OSError:
            pass
    except OSError as e:
        return 127, '', str(e)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return 124, o, e


# ---------------------------------------------------------------- proof side

VKINDS = ['postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
          'decreases not satisfied', 'possible arithmetic', 'could not prove', 'possible division', 'unable to prove',
          'loop invariant', 'constructed value may fail', 'resource limit', 'rlimit', 'while loop: ', 'function body check',
          'recommendation not met', 'index out of bounds', 'possible underflow', 'possible overflow', 'could not show', 'possible bit shift', 'bitvector']


def print_tags(fn):
    """Properties that rest on the printing contract `tokens@ == old(tokens)@ + toks(self)` of a node type (stated once, on the trait)."""
    m = re.match(r'<(\w+) as VClone>::vclone$', fn or '')
    if m:
        # the contract of Clone, also stated once: the result equals the value
        return {'Punctuated': ['C01', 'C08'], 'Error': ['C13'], 'ErrorMessage': ['C13'], 'InlineGenericArgs': ['C10'], 'Path': ['C12'], 'PathSegment': ['C12']}.get(m.group(1), ['C01'])
    m = re.match(r'<(\w+) as ToTokens>::to_tokens$', fn or '')
    if not m:
        return []
    ty = m.group(1)
    if ty == 'InlineGenericArgs':
        return ['C10']
    if ty in ('Path', 'PathSegment', 'GenericArgList', 'GenericArg'):
        return ['C10', 'C12'] if ty.startswith('Generic') else ['C12']
    return ['C01'] + {'Punctuated': ['C08', 'C09', 'C12'], 'Lifetime': ['C10', 'C12'], 'TypeExpr': ['C10', 'C12'], 'GenericParam': ['C09'], 'GenericParamList': ['C09'], 'GenericBound': ['C09'],
                      'WhereClause': ['C09'], 'WhereClausePredicate': ['C09'], 'Struct': ['C09'], 'Enum': ['C09'], 'Union': ['C09']}.get(ty, [])


class Verus:
    """Extraction and one verifier run (repeated with functions outside of the supported subset set aside)."""

    def __init__(self, name='out', sub='', default=None):
        self.name, self.sub, self.default = name, sub, default
        self.external = {}      # functions set aside: reason
        self.failed = []        # failed obligations
        self.ok = False         # the verifier ran to the end
        self.why = ''
        self.rounds = 0
        self.report = {}
        self.lines = []
        self.json = {}
        self.err = ''
        self.wall = 0.0
        self.canary = False
        self.second = []        # functions discharged only in the second try
        self.clauses = {}       # fn -> list of (line, tags)

    @staticmethod
    def build():
        ex = os.path.join(HERE, 'extract', 'target', 'release', 'vextract')
        srcs = [os.path.join(HERE, 'extract', 'src', f) for f in os.listdir(os.path.join(HERE, 'extract', 'src'))]
        if not os.path.exists(ex) or any(os.path.getmtime(s) > os.path.getmtime(ex) for s in srcs):
            rc, o, e = run(['cargo', 'build', '--offline', '--release'], 900, os.path.join(HERE, 'extract'))
            if rc != 0:
                log('the extractor did not build: ' + e[-2000:])
                return None
        return ex

    def index(self):
        self.fn_of = [None] * (len(self.lines) + 2)
        cur = None
        self.clauses = {}
        for i, l in enumerate(self.lines, 1):
            m = re.search(r'// @@FN (\S.*)', l)
            n = re.match(r'\s*pub (broadcast )?proof fn (\w+)', l)
            if m:
                cur = m.group(1).strip()
            elif n:
                cur = 'lemma ' + n.group(2)
            elif l.startswith('// @@MODULE') or re.match(r'\s*pub trait ', l):
                cur = None
            self.fn_of[i] = cur
            if m and print_tags(cur):
                self.clauses.setdefault(cur, []).append((i, print_tags(cur)))
            c = re.search(r'// @@CL (\S+)', l)
            if c and cur:
                self.clauses.setdefault(cur, []).append((i, [] if c.group(1) == '-' else c.group(1).split(',')))

    def fn_tags(self, fn):
        t = []
        for _, tags in self.clauses.get(fn, []):
            t += tags
        return sorted(set(t))

    def run(self, ex, timeout=420):
        t = time.time()
        if not ex:
            self.why = 'the extractor did not build'
            return self
        out, rep = os.path.join(WORK, self.name + '.rs'), os.path.join(WORK, self.name + '.json')
        vdir = os.path.join(HERE, 'verus', self.sub).rstrip('/')
        ext = {}
        for self.rounds in range(1, 9):
            rc, o, e = run([ex, REPO + '/src', vdir, out, rep] + sorted(ext), 120)
            if rc != 0:
                self.why = 'extraction failed: ' + e[-1500:]
                break
            self.report = json.load(open(rep))
            src = open(out).read()
            # a canary: an obligation which cannot be discharged unless the axioms contradict each other
            src = src.replace('\nfn main() {}\n', '\nverus!{ use vstd::prelude::*; use crate::proc_macro2::*; use crate::specs::*; broadcast use {crate::proc_macro2::seqs, crate::proc_macro2::toks_group, crate::specs::spec_group};\nproof fn vx_canary() { assert(false); } }\nfn main() {}\n')
            open(out, 'w').write(src)
            self.lines = src.split('\n')
            self.index()
            rc, o, e = run(['verus', self.name + '.rs', '--triggers-mode', 'silent', '--rlimit', '40', '--multiple-errors', '6', '--output-json', '--time-expanded'], timeout, WORK)
            self.err = e
            try:
                self.json = json.loads(o[o.index('{'):])
            except ValueError:
                self.json = {}
            hard, self.failed, self.canary = self.parse(e)
            if rc == 124:
                self.why = 'the verifier ran out of time'
                break
            vr = self.json.get('verification-results', {})
            if not hard and vr.get('verified') is not None and not vr.get('encountered-vir-error'):
                self.ok = True
                break
            new = {}
            for h in hard:
                if h['fn'] and not h['fn'].startswith('lemma ') and h['fn'] not in ext:
                    new[h['fn']] = h['text']
            if not new:
                self.why = 'outside of the supported subset: ' + (hard[0]['text'] if hard else e[-1500:])
                break
            ext.update(new)
        self.external = ext
        if self.ok and self.failed:
            # a proof that exists must not depend on the order in which the solver sees the context: ask once more, each
            # function in a solver of its own, with another seed; what is discharged there is discharged
            rc, o, e = run(['verus', self.name + '.rs', '--triggers-mode', 'silent', '--rlimit', '40', '--multiple-errors', '6', '-V', 'spinoff-all', '--smt-option', 'smt.random_seed=7'], timeout, WORK)
            hard, again, canary = self.parse(e)
            if rc != 124 and canary and not hard:
                fns = {f['fn'] for f in again}
                self.second = sorted({f['fn'] or '?' for f in self.failed} - {f or '?' for f in fns})
                self.failed = [f for f in self.failed if f['fn'] in fns]
        self.wall = time.time() - t
        if self.ok and not self.canary:
            self.ok = False
            self.why = 'the canary obligation was discharged: the specification is inconsistent'
        return self

    def parse(self, err):
        hard, failed, canary = [], [], False
        noc = {a for a, b in self.report.get('calls_without_contract', [])}
        prob = {f['key']: f['problems'] for f in self.report.get('functions', []) if f['problems']}
        bare = {f['key'] for f in self.report.get('functions', []) if not f['contract']}
        for blk in re.split(r'\n(?=error|warning|note: )', '\n' + err):
            blk = blk.strip('\n')
            if not blk.startswith('error'):
                continue
            head = blk.split('\n')[0]
            if re.match(r'error: aborting due to', head):
                continue
            m = re.search(r'--> \S*%s\.rs:(\d+)' % self.name, blk)
            if not m:
                hard.append({'fn': None, 'text': blk[:600]})
                continue
            ln = int(m.group(1))
            if 'vx_canary' in blk or 'vx_canary' in self.lines[max(0, ln - 1)]:
                canary = True
                continue
            fn = self.fn_of[ln] if ln < len(self.fn_of) else None
            low = head.lower()
            if not any(k in low for k in VKINDS):
                hard.append({'fn': fn, 'text': head + ' | ' + (self.lines[ln - 1].strip()[:160] if ln <= len(self.lines) else '')})
                continue
            nums = [int(x) for x in re.findall(r'^\s*(\d+)\s*[|/\\]', blk, re.M)]
            nums += [int(x) for x in re.findall(r'(?:-->|:::) \S*%s\.rs:(\d+)' % self.name, blk)]
            tags, clause = None, None
            for k in nums:
                c = re.search(r'// @@CL (\S+)', self.lines[k - 1]) if 0 < k <= len(self.lines) else None
                if c:
                    clause = self.lines[k - 1].split('// @@CL')[0].strip()
                    tags = [] if c.group(1) == '-' else c.group(1).split(',')
                    break
            if fn is None or fn.startswith('lemma '):
                # a clause stated on a trait or in a specification: the failing function is at a later location
                for k in nums:
                    g = self.fn_of[k] if 0 < k < len(self.fn_of) else None
                    if g and not g.startswith('lemma '):
                        fn = g
                        break
            where = fn
            undecided = []
            if 'decreases' in low and self.default:
                tags = [self.default]
                undecided.append('termination is decided by the other run')
            elif 'decreases' in low:
                tags = ['C03']
            if not tags and 'postcondition' in low and print_tags(fn):
                tags = print_tags(fn)
            if not tags and self.default:
                tags = [self.default]
            if not tags:
                tags = self.fn_tags(fn) if fn else []
            if 'resource limit' in low or 'rlimit' in low:
                undecided.append('solver resource limit')
            if fn in noc:
                undecided.append('calls a function without a contract')
            if fn in bare:
                undecided.append('in a function without a contract')
            if fn in prob:
                undecided.append('annotation lost: ' + '; '.join(prob[fn]))
            if fn and fn.startswith('lemma '):
                undecided.append('lemma')
            failed.append({'fn': where, 'kind': head[:120], 'clause': clause, 'tags': tags, 'line': ln,
                           'code': self.lines[ln - 1].strip()[:200] if ln <= len(self.lines) else '', 'undecided': undecided, 'output': blk[:1800]})
        return hard, failed, canary

    # --- figures
    def counts(self, prop):
        """Obligations of a property: its labelled clauses, plus the unlabelled ones of the functions which carry them."""
        n = 0
        fns = set()
        per = {}
        for fn, cl in self.clauses.items():
            if self.default and not any('C14' in t for _, t in cl):
                continue
            if any(prop in t for _, t in cl):
                fns.add(fn)
                k = sum(1 for _, t in cl if prop in t or not t)
                per[fn] = k
                n += k
        return n, fns, per

    def smt_ms(self):
        try:
            return self.json['times-ms']['smt']['total']
        except Exception:
            return None


TRUST_RE = re.compile(r'external_body|uninterp|axiom|assume_specification|\bassume\b|\badmit\b')


def trusted_base():
    """Every assumed item of the hand-written preludes, by name (scanned on every run)."""
    items = []
    try:
        body = open(os.path.join(WORK, 'out.rs')).read()
        body = body[body.index('pub mod specs {'):]
    except Exception:
        body = None
    for f in ['prelude.rs', 'prelude2.rs', 'prelude3.rs', 'specs.rs', 'strict/grammar.rs']:
        L = open(os.path.join(HERE, 'verus', f)).read().split('\n')
        for i, l in enumerate(L):
            if TRUST_RE.search(l) and not l.strip().startswith('//'):
                txt = ' '.join(x.strip() for x in L[i:i + 3])
                m = re.search(r'impl(?:<[^>]*>)? (\w+) for ([\w:<>]+)', l) or re.search(r'fn (\w+)', txt) or re.search(r'struct (\w+)', txt)
                if f == 'prelude3.rs' and body is not None:
                    # contracts of library functions: assumed only where the tree calls them
                    n = re.search(r'fn (\w+)', l) or re.search(r'\bfn (\w+)', txt) or re.search(r'::(\w+) \]', l)
                    if n and not re.search(r'\b%s\b' % n.group(1), body):
                        continue
                items.append(f"{f}:{i + 1} {m.group(0) if m else txt[:60]}")
    return items


def no_shortcuts():
    """`assume` and `admit` must not occur in the contracts."""
    bad = []
    for f in os.listdir(os.path.join(HERE, 'verus')) + ['strict/' + x for x in os.listdir(os.path.join(HERE, 'verus', 'strict'))]:
        if os.path.isdir(os.path.join(HERE, 'verus', f)):
            continue
        for i, l in enumerate(open(os.path.join(HERE, 'verus', f)).read().split('\n'), 1):
            if re.search(r'\b(assume|admit)\s*\(', l.split('//')[0]):
                bad.append(f'{f}:{i}')
    return bad


def vacuity(v):
    """Every function under contract must be unable to prove false at its start."""
    src = list(v.lines)
    out, depth, pending = [], 0, None
    want = set()
    text = '\n'.join(src)
    pos = 0
    res = []
    for m in re.finditer(r'// @@FN (\S.*)\n', text):
        key = m.group(1).strip()
        if key in v.external:
            continue
        nxt = text.find('// @@FN', m.end())
        seg_end = nxt if nxt > 0 else len(text)
        # body: the first line which is ` {  proof {` or ` {` at the end of the signature
        b = re.compile(r'^ \{ ', re.M).search(text, m.end(), seg_end)
        if not b:
            continue
        res.append((b.end(), key))
        want.add(key)
    chunks, last = [], 0
    for p, key in res:
        chunks.append(text[last:p])
        chunks.append(' proof { assert(false); /*vac*/ } ')
        last = p
    chunks.append(text[last:])
    vn = 'vac' + v.name
    p = os.path.join(WORK, vn + '.rs')
    t2 = ''.join(chunks)
    open(p, 'w').write(t2)
    rc, o, e = run(['verus', vn + '.rs', '--triggers-mode', 'silent', '--multiple-errors', '1'], 600, WORK)
    got = set()
    L = t2.split('\n')
    cur, fo = None, []
    for l in L:
        m = re.search(r'// @@FN (\S.*)', l)
        if m:
            cur = m.group(1).strip()
        fo.append(cur)
    for blk in re.split(r'\n(?=error)', '\n' + e):
        m = re.search(r'--> \S*%s\.rs:(\d+)' % vn, blk)
        if m and '/*vac*/' in L[int(m.group(1)) - 1]:
            got.add(fo[int(m.group(1)) - 1])
    return {'functions': len(want), 'not_vacuous': len(want & got), 'vacuous': sorted(want - got)}


# ---------------------------------------------------------------- falsifier

class Oracle:
    def __init__(self):
        self.bin = None
        self.why = ''

    def build(self):
        d = os.path.join(HERE, 'oracle')
        run(['cargo', 'clean', '--offline', '--release', '-p', 'venial'], 60, d)
        rc, o, e = run(['cargo', 'build', '--offline', '--release'], 600, d)
        if rc != 0:
            self.why = 'the falsifier did not build against the current tree: ' + e[-1500:]
        else:
            self.bin = os.path.join(d, 'target', 'release', 'oracle')
        return self

    def go(self, prop, secs, seed):
        if not self.bin:
            return {'evaluations': 0, 'relevant': 0, 'distinct': 0, 'why': self.why}
        out = os.path.join(WORK, f'oracle-{prop}.json')
        if os.path.exists(out):
            os.remove(out)
        rc, o, e = run([self.bin, '--prop', prop, '--seconds', str(secs), '--seed', str(seed), '--out', out, '--threads', '8'], secs + 90)
        if rc in (0, 1) and os.path.exists(out):
            r = json.load(open(out))
            if 'ORACLE-BUG' in e:
                r['oracle_bug'] = e[:600]
            return r
        # the process died (stack overflow, out of memory): find the case
        r = {'evaluations': 0, 'relevant': 0, 'distinct': 0, 'died': f'exit {rc}: {e[-300:]}', 'violation': None, 'stuck': None}
        tr = os.path.join(WORK, f'trace-{prop}')
        rc, o, e = run([self.bin, '--prop', prop, '--seconds', str(secs), '--seed', str(seed), '--out', out, '--threads', '8', '--trace', tr], secs + 90)
        last = {}
        if os.path.exists(tr):
            for l in open(tr, errors='replace'):
                m = re.match(r'(\d+) (\w+:\d+)$', l)
                if m:
                    last[m.group(1)] = [m.group(2), '']
                else:
                    m = re.match(r'(\d+) = (.*)', l)
                    if m and m.group(1) in last:
                        last[m.group(1)][1] = m.group(2)
            os.remove(tr)
        for t, (case, inp) in last.items():
            rc, o, e = run([self.bin, '--prop', prop, '--replay', case], 40, mem_gb=8)
            if rc not in (0, 1):
                sc, cs = case.split(':')
                r['stuck'] = {'property': 'C03', 'scenario': sc, 'case_seed': int(cs), 'input': inp[:4000], 'what': 'did not finish: the process died',
                              'expected': 'returns or panics', 'got': f'exit {rc}: {e[-300:]}', 'all_props': 'C03'}
                break
        return r

    def probe(self, name):
        if not self.bin:
            return None
        rc, o, e = run([self.bin, '--probe', name], 60)
        return {0: False, 1: True}.get(rc)


# ---------------------------------------------------------------- findings

def findings():
    """known: lines of the known-findings file, as (property, probe, text)."""
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) probe=(\S+) (.*)', l.strip())
            if m:
                r.append(m.groups())
    return r


PROBES = {'C09': ['bounded-lifetime-apostrophe']}


def replay_file(prop, data):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}.json')
    json.dump(data, open(p, 'w'), indent=1, ensure_ascii=False)
    return p


# ---------------------------------------------------------------- one property

def runs_of(prop):
    """main: malformed input may panic; strict: contracts under which every panic is a failed obligation."""
    return ['strict'] if prop == 'C14' else ['main', 'strict'] if prop in ('C02', 'C07', 'C12') else ['main']


def check(prop, tier, runs, oracle, t_shared):
    t = time.time()
    vs = [runs[n] for n in runs_of(prop)]
    v = vs[0]
    ok = all(x.ok for x in vs)
    why = '; '.join(x.why for x in vs if x.why)
    failed = [f for x in vs for f in x.failed]
    external = {k: r for x in vs for k, r in x.external.items()}
    obligations, fns, per = 0, set(), {}
    for x in vs:
        if x.lines:
            a, b, c = x.counts(prop)
            obligations += a
            fns |= b
            for k in c:
                per[k] = per.get(k, 0) + c[k]
    direct = [f for f in failed if prop in f['tags'] and not f['undecided']]
    undec = [f for f in failed if prop in f['tags'] and f['undecided']]
    noc = [c for x in vs for c in x.report.get('calls_without_contract', [])]
    lost = sorted({c for x in vs for c in x.report.get('lost_contracts', [])})
    proved = ok and not failed and not external
    shaky = (not ok) or bool(failed) or bool(external) or bool(lost)
    quick = tier == 'quick'
    base = float(os.environ.get('VERIF_ORACLE_SECONDS') or (15 if quick else 120))
    secs = base
    if shaky:
        secs = max(base, 60 if quick else 300)
    if direct:
        secs = max(base, 150 if quick else 600)
    if os.environ.get('VERIF_ORACLE_SECONDS'):
        secs = base
    r = oracle.go(prop, secs, SEED)
    viol = r.get('violation')
    if not viol and prop == 'C03' and r.get('stuck'):
        viol = r['stuck']
    msgs = []
    rc = 0
    bad_short = no_shortcuts()
    # known findings
    for name in PROBES.get(prop, []):
        if oracle.probe(name):
            k = [x for x in findings() if x[0] == prop and x[1] == name]
            if k:
                msgs.append(f'KNOWN-FINDING: property={prop} {k[0][2]}')
            else:
                p = replay_file(prop, {'property': prop, 'probe': name, 'reproduce': f'{oracle.bin} --probe {name}'})
                msgs.append(f'VIOLATION property={prop} replay={p}')
                rc = 1
    failed_short = [{k: f[k] for k in ('fn', 'kind', 'clause', 'tags', 'code', 'undecided')} for f in failed]
    if viol:
        p = replay_file(prop, {'property': prop, 'failing_input': viol, 'reproduce': f"cd /verif/oracle && cargo build --offline --release && ./target/release/oracle --prop {prop} --replay {viol['scenario']}:{viol['case_seed']} --tape <this file>",
                               'failed_obligations': failed_short, 'verifier_output': '\n\n'.join(f['output'] for f in direct + undec)[:20000]})
        msgs.append(f'VIOLATION property={prop} replay={p}')
        rc = 1
    elif direct:
        p = replay_file(prop, {'property': prop, 'failing_input': None, 'failed_obligations': [{k: f[k] for k in ('fn', 'kind', 'clause', 'tags', 'code')} for f in direct],
                               'searched': {k: r.get(k) for k in ('evaluations', 'relevant', 'distinct', 'seconds')},
                               'verifier_output': '\n\n'.join(f['output'] for f in direct)[:20000]})
        msgs.append(f'VIOLATION property={prop} replay={p} no-failing-input-found')
        rc = 1
    # figures
    undischarged = sum(per.get(f, 0) for f in external) + len({(f['fn'], f['clause'], f['line']) for f in failed if prop in f['tags'] and f['fn'] not in external})
    discharged = max(0, obligations - undischarged) if ok else 0
    vr = [x.json.get('verification-results', {}) for x in vs]
    times = []
    for x in vs:
        try:
            for m in x.json['times-ms']['smt']['smt-run-module-times']:
                for f in m.get('function-breakdown', []):
                    times.append((f.get('time', 0), f.get('function', '')))
        except Exception:
            pass
    times.sort(reverse=True)
    tb = trusted_base()
    cov = {
        'obligations': obligations,
        'discharged': discharged,
        'checker_cmd': 'vextract /repo/src /verif/verus work/out.rs work/rep.json && verus work/out.rs (run by bin/check.py on every check)',
        'trusted_base': tb,
        'trusted_items': len(tb),
        'obligation_rule': 'requires/ensures/invariant/decreases clauses labelled with this property, plus the unlabelled ones of the functions that carry them, counted in the generated file',
        'functions_carrying_this_property': len(fns),
        'functions_under_contract': sum(1 for f in v.report.get('functions', []) if f['contract'] and not f['external']),
        'functions_total': len(v.report.get('functions', [])),
        'functions_without_contract': [f['key'] for f in v.report.get('functions', []) if not f['contract']],
        'inlined_at_call_site': v.report.get('inlined', []),
        'verifier_runs': runs_of(prop),
        'verifier_units_verified': sum(x.get('verified') or 0 for x in vr),
        'verifier_units_failed': sum(max(0, (y.get('errors') or 0) - (1 if x.canary else 0)) for x, y in zip(vs, vr)),
        'canary_obligation_rejected': all(x.canary for x in vs),
        'back_end': 'Verus 0.2026.09.13 / Z3 (bundled)',
        'smt_ms': sum(x.smt_ms() or 0 for x in vs),
        'slowest_functions': [f'{n}: {ms} ms' for ms, n in times[:5]],
        'verifier_wall_s': round(max(x.wall for x in vs), 1),
        'verifier_rounds': max(x.rounds for x in vs),
        'discharged_in_second_try': sorted({f for x in vs for f in x.second}),
        'set_aside_as_bounded': {k: str(x)[:200] for k, x in external.items()},
        'undecided_obligations': [{k: f[k] for k in ('fn', 'kind', 'clause', 'undecided')} for f in undec],
        'failed_obligations': failed_short[:40],
        'extraction_rules_applied': v.report.get('rules', {}),
        'dropped_by_extraction': v.report.get('dropped', []),
        'falsifier': {'role': 'samples the assumed contracts and the code dropped by the extraction; looks for inputs when an obligation fails; bounded, not counted as proved',
                      'evaluations': r.get('evaluations'), 'relevant': r.get('relevant'), 'distinct': r.get('distinct'),
                      'per_scenario': r.get('per_scenario'), 'samples': (r.get('samples') or [])[:4], 'seconds': r.get('seconds'),
                      'note': r.get('why') or r.get('died') or r.get('oracle_bug') or ''},
    }
    if why:
        cov['verifier_note'] = why[:1500]
    if lost:
        cov['contracts_without_function'] = lost
    if noc:
        cov['calls_without_contract'] = noc
    if tier == 'thorough' and ok:
        for n, x in zip(runs_of(prop), vs):
            if not hasattr(x, 'vac'):
                x.vac = vacuity(x)
            cov['vacuity_' + n] = x.vac
    status = 'proved' if proved else ('conditional: bounded for the functions set aside' if ok else 'bounded: the verifier gave no answer')
    if rc:
        status = 'violated'
    cov['status'] = status
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'proof', 'coverage': cov,
          'assumptions': ASSUMPTIONS + (['shortcut in the contracts: ' + x for x in bad_short]),
          'violations': [m for m in msgs if m.startswith('VIOLATION')],
          'wall_s': round(time.time() - t + t_shared, 1)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, f'{prop}.json'), 'w'), indent=1, ensure_ascii=False)
    for m in msgs:
        print(m, flush=True)
    log(f'{prop} {tier}: {status}; {discharged}/{obligations} obligations in {len(fns)} functions, {len(failed)} failed, '
        f'{len(external)} set aside; falsifier {r.get("evaluations")} cases; {ev["wall_s"]} s')
    for f in failed[:12]:
        log('   ', f['fn'], '|', f['kind'][:60], '|', (f['clause'] or f['code'])[:120], '|', ','.join(f['tags']), '|', ';'.join(f['undecided']))
    for k, x in external.items():
        log('    set aside', k, '|', str(x)[:200])
    if why:
        log('   ', why[:600])
    if viol:
        log('    input:', str(viol.get('input'))[:400], '|', viol.get('what'), '| want', str(viol.get('expected'))[:200], '| got', str(viol.get('got'))[:200])
    return rc


ASSUMPTIONS = [
    'proc_macro2 (Ident, Punct, Literal, Group, TokenStream, Span, Delimiter, Spacing) behaves as its specification in verus/prelude.rs: token streams are sequences of token trees, groups are well-founded, spans are opaque values; span joining is an uninterpreted function',
    'quote::ToTokens of the dependency types (Ident, Punct, Literal, Group, TokenTree, TokenStream, Option, Vec) appends exactly the tokens of the value',
    'std iterators, Peekable, Option and Vec combinators behave as specified in verus/prelude*.rs',
    'Vec, String and proc_macro2 values: clone returns an equal value (the derived Clone implementations of the crate are expanded and verified)',
    'Debug and std::error::Error implementations and doc/test code are dropped by the extraction',
    'a panic ends the call without a result; token counts fit in usize (no arithmetic treated as mathematical besides lengths)',
    'Verus, its SMT encoding and Z3 are sound; the extraction rules listed in DESIGN.md preserve behaviour',
]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    todo = PROPS if prop == 'ALL' else prop.split(',')
    os.makedirs(WORK, exist_ok=True)
    ex = Verus.build()
    need = {n for p in todo for n in runs_of(p)}
    runs = {}
    if 'main' in need:
        runs['main'] = Verus('out')
    if 'strict' in need:
        runs['strict'] = Verus('strict', 'strict', 'C14')
    ts = [threading.Thread(target=x.run, args=(ex,)) for x in runs.values()]
    for x in ts:
        x.start()
    oracle = Oracle().build()
    for x in ts:
        x.join()
    shared = time.time() - T0
    rcs = {p: check(p, tier, runs, oracle, shared) for p in todo}
    if len(todo) > 1:
        log('caught by', [p for p in rcs if rcs[p]])
    sys.exit(1 if any(rcs.values()) else 0)


if __name__ == '__main__':
    main()
