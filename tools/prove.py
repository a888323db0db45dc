#!/usr/bin/env python3
"""extract -> assemble -> verus, for one unit; returns a UnitResult dict."""
import json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import assemble as asm
from harness import REPO, BUILD, env

VX = os.path.join(V, 'vx', 'target', 'debug', 'vx')
VARGS = ['--triggers-mode', 'silent', '--rlimit', '40', '--num-threads', '8', '--multiple-errors', '8']
# what a trusted piece of a template looks like
TRUST = re.compile(r'external_body|assume_specification|external_type_specification|\baxiom\b|\badmit\s*\(|\bassume\s*\(|external_fn_specification')


def build_vx():
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(V, 'vx'), env=dict(env(), CARGO_TARGET_DIR=os.path.join(V, 'vx', 'target')),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def verus(path, args=VARGS, timeout=600):
    cmd = ['verus', path, *args, '--output-json', '--time']
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=BUILD, env=env())
    except subprocess.TimeoutExpired:
        return None, 'verus timed out after %d s' % timeout, time.time() - t, ' '.join(cmd)
    try:
        d = json.loads(r.stdout)
    except ValueError:
        d = None
    return d, r.stderr, time.time() - t, ' '.join(cmd)


def blocks(err):
    """split rustc-style diagnostics"""
    cur = []
    for l in err.split('\n'):
        if re.match(r'(error|warning|note)(\[\w+\])?: ', l):
            if cur: yield cur
            cur = [l]
        elif cur:
            cur.append(l)
    if cur: yield cur


def lines_of(block, path):
    """(line numbers mentioned, primary first)"""
    out = []
    base = os.path.basename(path)
    here = False
    for l in block:
        m = re.match(r'\s*(-->|:::) (.*?):(\d+):\d+', l)
        if m:
            here = os.path.basename(m.group(2)) == base
            if here: out.append(int(m.group(3)))
            continue
        m = re.match(r'\s*(\d+) \|', l)
        if m and here:
            out.append(int(m.group(1)))
    return list(dict.fromkeys(out))


SEMANTIC = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'possible arithmetic',
            'loop invariant not satisfied', 'unable to prove', 'recommendation not met', 'assertion', 'decreases not satisfied', 'possible division by zero',
            'bitvector assertion', 'assert', 'type invariant', 'termination', 'could not prove termination', 'possible bit shift', 'constructed value may fail', 'index out of bounds')
# an obligation that is not this property's: the verifier's own limits
LIMIT = ('Resource limit', 'rlimit', 'while running', 'timed out')


def in_fn(src, n):
    for k in range(min(n, len(src)) - 1, -1, -1):
        m = re.search(r'\bfn (\w+)', src[k])
        if m: return m.group(1)
    return '?'


def prove(unit, vacuity=True):
    os.makedirs(os.path.join(BUILD, 'proof'), exist_ok=True)
    res = dict(unit=unit, status='undecided', reason='', failures=[], obligations=0, discharged=0, smt_ms=0, wall=0.0, cmd='', functions=[], trusted=[],
               dropped=[], vacuity='')
    ex = os.path.join(BUILD, 'proof', unit + '.out')
    r = subprocess.run([VX, os.path.join(REPO, 'src'), unit, ex], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        res['reason'] = 'extraction: ' + (r.stdout.strip().split('\n') or ['?'])[-1][:300]
        return res
    text = open(ex).read()
    tpl = open(os.path.join(V, 'specs', unit + '.rs')).read()
    tpl = expand_includes(tpl)
    try:
        src, dropped, facts, pieces = asm.assemble(text, tpl)
        src = asm.cats(src)
    except asm.Undecided as e:
        res['reason'] = 'assembly: %s' % e
        return res
    res['dropped'] = dropped
    res['facts'] = facts
    res['functions'] = sorted(n for n, p in pieces.items() if p['body'])
    path = os.path.join(BUILD, 'proof', unit + '_v.rs')
    open(path, 'w').write(src)
    sl = src.split('\n')
    for n, l in enumerate(sl):
        if TRUST.search(l) and not l.strip().startswith('//'):
            ctx = l.strip()
            if 'external_body' in l and n + 1 < len(sl): ctx = sl[n + 1].strip()
            if l.strip().startswith('assume(false)') or 'global ' in l: continue
            res['trusted'].append(ctx[:160])
    vac = {}
    th = threading.Thread(target=lambda: vac.update(v=vacuous(unit, text, tpl))) if vacuity else None
    if th: th.start()
    try:
        d, err, wall, cmd = verus(path)
    finally:
        if th: th.join()
    res.update(wall=round(wall, 2), cmd=cmd)
    if d is None or 'verification-results' not in d:
        res['reason'] = 'verifier: ' + err.strip()[:400]
        res['stderr'] = err[-6000:]
        return res
    vr = d['verification-results']
    res['discharged'] = vr.get('verified', 0) or 0
    res['obligations'] = res['discharged'] + (vr.get('errors', 0) or 0)
    res['smt_ms'] = d.get('times-ms', {}).get('smt', {}).get('smt-run', 0)
    slow = []
    for m in d.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            slow.append((f.get('time', 0), f.get('function')))
    res['slowest'] = ['%s %d ms' % (f, t) for t, f in sorted(slow, reverse=True)[:5]]
    if vr.get('success'):
        if res['obligations'] == 0:
            res['reason'] = 'no obligation was generated'
            return res
        res['status'] = 'proved'
        if vacuity:
            v = vac.get('v', 'VACUOUS? no result')
            res['vacuity'] = v
            if v.startswith('VACUOUS'):
                res['status'] = 'undecided'; res['reason'] = v
        return res
    # failures
    limit = False
    hard = False
    for b in blocks(err):
        if not b[0].startswith('error'): continue
        msg = b[0].split(': ', 1)[1] if ': ' in b[0] else b[0]
        if 'aborting due to' in msg or 'could not compile' in msg: continue
        ls = lines_of(b, path)
        if any(x in b[0] for x in LIMIT):
            limit = True; continue
        if not any(msg.startswith(x) for x in SEMANTIC):
            hard = True
            res['reason'] = 'verifier rejects the extracted code: ' + '\n'.join(b)[:500]
            continue
        tags = set()
        for n in ls:
            if 0 < n <= len(sl):
                m = re.search(r'//#([C0-9, ]+)', sl[n - 1])
                if m: tags |= set(re.findall(r'C\d+', m.group(1)))
        res['failures'].append(dict(message=msg, tags=sorted(tags), fn=in_fn(sl, ls[0]) if ls else '?',
                                    code=[sl[n - 1].strip()[:200] for n in ls if 0 < n <= len(sl)][:6], text='\n'.join(b)[:2500]))
    if hard or vr.get('encountered-vir-error'):
        res['status'] = 'undecided'
        if not res['reason']: res['reason'] = 'verifier front end: ' + err.strip()[:400]
        res['stderr'] = err[-6000:]
        return res
    if limit and not res['failures']:
        res['status'] = 'undecided'; res['reason'] = 'solver resource limit'
        return res
    if not res['failures']:
        res['status'] = 'undecided'; res['reason'] = 'verifier failed without a located obligation: ' + err.strip()[:300]
        return res
    # structure: same loops and same callees as the code the contracts were written for?
    base = baseline(unit)
    diff = [k for k in set(base) | set(k for k in facts if k.split('.')[0] in ('loops', 'calls')) if base.get(k) != facts.get(k)]
    diff = [k for k in diff if not (k.startswith('calls.') and k in base and k in facts and understood(base[k], facts[k]))]
    res['structure_changed'] = sorted(diff)
    res['status'] = 'failed'
    if diff:
        res['status'] = 'undecided'
        res['reason'] = 'the shape of the code changed (%s) and its contracts no longer fit: %s' % (', '.join(sorted(diff)), res['failures'][0]['message'])
    return res


# queries whose contracts say exactly what they return: a contract that fails because one of these was added, or because
# calls were taken away, has not lost its meaning
EXACT = set('.contains_edge .edge_count .max .min vx_cmp_max vx_cmp_min cmp::max cmp::min .keys .len .is_empty .is_none .is_some .starts_with .ends_with .contains .contains_key .get .clone .as_ref .is_thumb .vx_eq .first .last .node_count .index '
            '.is_ascii .eq_ignore_ascii_case .names .size .count_ones vx_eq vx_lit vx_char vx_some_eq vx_same vx_cmp vx_usize .is_ok .is_err Some None .loosely_equal '
            'is_outlined_function Type::Alias Type::Integer Type::Pointer Local::Exact Max::Exact Max::LowerBound'.split())


def understood(a, b):
    new = set(b.split()) - set(a.split())
    return new <= EXACT


def expand_includes(t):
    while '\n//@@include ' in t:
        t = _expand(t)
    return t


def _expand(t):
    return re.sub(r'^//@@include (\S+)$', lambda m: open(os.path.join(V, 'specs', m.group(1))).read(), t, flags=re.M)


def baseline(unit):
    p = os.path.join(V, 'specs', unit + '.facts.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def vacuous(unit, text, tpl):
    """every precondition and loop invariant must be satisfiable: `assert(false)` placed behind each must FAIL"""
    try:
        src, _, _, _ = asm.assemble(text, tpl, vacuity=True)
    except asm.Undecided as e:
        return 'VACUOUS? %s' % e
    path = os.path.join(BUILD, 'proof', unit + '_vac.rs')
    open(path, 'w').write(src)
    sl = src.split('\n')
    want = {n + 1 for n, l in enumerate(sl) if '/*VAC*/' in l}
    d, err, wall, _ = verus(path, args=['--triggers-mode', 'silent', '--rlimit', '6', '--num-threads', '4', '--multiple-errors', '40'])
    got = set()
    for b in blocks(err):
        if b[0].startswith('error') and any(x in b[0] for x in LIMIT):
            # the solver gave up without proving false: as good as refuted, for every point of that function
            fns = {in_fn(sl, n) for n in lines_of(b, path)}
            got |= {n for n in want if in_fn(sl, n) in fns}
        if b[0].startswith('error') and 'assertion' in b[0]:
            got |= set(lines_of(b, path))
    miss = want - got
    if not want: return 'VACUOUS? no precondition or invariant to test'
    if miss:
        return 'VACUOUS: assert(false) was accepted in %s' % ', '.join(sorted({in_fn(sl, n) for n in miss}))
    return '%d reachability points (behind every precondition and loop invariant), assert(false) refuted at each' % len(want)


if __name__ == '__main__':
    u = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] == 'baseline':
        ex = '/tmp/%s.out' % u
        subprocess.run([VX, os.path.join(REPO, 'src'), u, ex], check=True)
        _, _, facts = asm.parse_extracted(open(ex).read())
        json.dump({k: v for k, v in facts.items() if k.split('.')[0] in ('loops', 'calls')}, open(os.path.join(V, 'specs', u + '.facts.json'), 'w'), indent=1, sort_keys=True)
        print('written')
    else:
        r = prove(u)
        r.pop('facts', None)
        r['trusted'] = len(r['trusted'])
        r['dropped'] = len(r['dropped'])
        r.pop('stderr', None) if r['status'] != 'undecided' else None
        for f in r['failures']: f['text'] = f['text'][:900].replace('\n', '\n      ')
        print(r['unit'], r['status'], r['reason'][:1500], '%d/%d' % (r['discharged'], r['obligations']), 'smt %d ms' % r['smt_ms'], r.get('vacuity', ''), r.get('slowest'))
        for f in r['failures']: print('--', f['fn'], f['message'], f['tags'], '\n     ', f['text'])
        if r['status'] == 'undecided': print(r.get('stderr', '')[:3000])
