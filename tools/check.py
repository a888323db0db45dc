#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decides one property (see DESIGN.md, "Verdicts")

 1. extract the code from /repo's current tree, assemble it with the contracts, run the verifier;
 2. replay: run the real code (scratch build of the current tree) on generated inputs, to find an input
    that breaks the property, or as the labelled bounded stand-in where the proof is undecided.
"""
import json, os, re, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import harness, prove
from config import CHECKS, GLOBAL_TRUST
try:
    import e2e, wrape2e
except ImportError:
    e2e = None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    os.makedirs(harness.BUILD, exist_ok=True)
    ok, log = prove.build_vx()
    hb = {}

    def hbuild():
        hb['r'] = harness.build()
    th = threading.Thread(target=hbuild); th.start()
    pool = ThreadPoolExecutor(4)
    jobs = [pool.submit(prove.prove, u) if ok else None for u in c['units']]
    units = []
    for u, j in zip(c['units'], jobs):
        if j:
            units.append(j.result())
        else:
            units.append(dict(unit=u, status='undecided', reason='extractor does not build: ' + log[-300:], failures=[], obligations=0, discharged=0, smt_ms=0, wall=0,
                              cmd='', functions=[], trusted=[], dropped=[], vacuity=''))
    th.join()
    binary, have, hlog = hb['r']

    # ---- replay on the real code
    fails, replays = [], []
    scale = 12 if tier == 'thorough' else 1
    if binary:
        for part, iters in c.get('harness', []):
            if part not in have:
                replays.append(dict(part=part, available=False)); continue
            extra = {}
            for u in units:
                if u.get('facts', {}).get('literals'): extra['VX_LITERALS'] = u['facts']['literals']
            f, ev, nt, good = harness.run(binary, part, seed, iters * scale, timeout=250 if tier == 'quick' else 3000, extra=extra)
            replays.append(dict(part=part, available=good, evaluations=ev, distinct=nt, iterations=iters * scale))
            fails += [('harness ' + part, t) for p, t in f if prop in p]
        for profile, n in c.get('e2e', []):
            f, ev, nt, good, sample = wrape2e.run(binary, seed, n * scale, 75 if tier == 'quick' else 900) if profile == 'wrapper' else e2e.run(binary, profile, seed, n * scale, prop, 75 if tier == 'quick' else 900)
            replays.append(dict(part='e2e:' + profile, available=good, evaluations=ev, distinct=nt, programs=ev, sample=sample))
            fails += [('end-to-end ' + profile, t) for p, t in f if prop in p]
    else:
        replays.append(dict(part='scratch build', available=False, log=hlog[-800:]))

    # ---- known findings
    known = load_known(prop)
    hit = {k['id']: 0 for k in known}
    real = []
    for where, t in fails:
        k = next((k for k in known if re.search(k['match'], t)), None)
        if k: hit[k['id']] += 1
        else: real.append((where, t))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    # ---- verdict
    bad = []
    for u in units:
        if u['status'] == 'failed':
            for f in u['failures']:
                if prop in f['tags'] or not f['tags']:
                    bad.append((u['unit'], f))
    tagged = [b for b in bad if prop in b[1]['tags']]
    verdict, suffix = 'ok', ''
    if real:
        verdict = 'violation'
    elif bad:
        # an obligation of this property, or one every property of the unit rests on
        others = any(f['tags'] and prop not in f['tags'] for u in units if u['status'] == 'failed' for f in u['failures'])
        if tagged or not others:
            verdict, suffix = 'violation', ' no-failing-input-found'
    rp = os.path.join('evidence', 'replay', prop + '.txt')
    if verdict == 'violation':
        with open(os.path.join(V, rp), 'w') as o:
            o.write('property %s, tier %s, seed %d\n\n' % (prop, tier, seed))
            for where, t in real[:20]:
                o.write('FAILING INPUT (%s, run against the real code)\n%s\n\n' % (where, t.replace('\\n', '\n')))
            for un, f in bad:
                o.write('FAILED OBLIGATION  unit %s, fn %s: %s\n%s\n%s\n\n' % (un, f['fn'], f['message'], '\n'.join('    ' + x for x in f['code']), f['text']))
            for u in units:
                if u['status'] == 'undecided': o.write('UNDECIDED unit %s: %s\n%s\n' % (u['unit'], u['reason'], u.get('stderr', '')))
    elif os.path.exists(os.path.join(V, rp)):
        os.remove(os.path.join(V, rp))

    # ---- evidence
    proved = [u for u in units if u['status'] == 'proved']
    trusted = sorted({t for u in units for t in u['trusted']})
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=len(real) + (len(bad) if suffix else 0),
              coverage=dict(
                  obligations=sum(u['obligations'] for u in units), discharged=sum(u['discharged'] for u in units),
                  checker_cmd='; '.join(u['cmd'] for u in units if u['cmd']) or 'none ran',
                  trusted_base=GLOBAL_TRUST + c.get('trust', []) + trusted,
                  back_end='Verus 0.2026.09.13 (Z3)', solver_ms=sum(u['smt_ms'] for u in units),
                  units=[dict(unit=u['unit'], status=u['status'], reason=u['reason'], functions_under_contract=u['functions'], obligations=u['obligations'],
                              discharged=u['discharged'], smt_ms=u['smt_ms'], vacuity=u['vacuity'], dropped_by_extraction=u['dropped'], slowest=u.get('slowest', []),
                              failed=[dict(fn=f['fn'], message=f['message'], tags=f['tags'], code=f['code'][:2]) for f in u['failures']]) for u in units],
                  proof_complete=len(proved) == len(units),
                  bounded_stand_in=[dict(r, note='bounded: generated inputs run through the real code; not counted as proved') for r in replays],
                  clauses=c.get('clauses', [])),
              assumptions=c.get('assumptions', []))
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)

    for u in units:
        print('%s: unit %s: %s%s (%d/%d obligations, %d ms solver)' % (prop, u['unit'], u['status'], ' - ' + u['reason'] if u['reason'] else '', u['discharged'], u['obligations'], u['smt_ms']))
    for r in replays:
        print('%s: replay %s: %s' % (prop, r['part'], '%d evaluations, %d distinct' % (r['evaluations'], r['distinct']) if r['available'] else 'not available'))
    if verdict == 'violation':
        for where, t in real[:3]:
            print('  failing input (%s): %s' % (where, t[:600]))
        for un, f in bad[:3]:
            print('  failed obligation in %s: %s: %s' % (f['fn'], f['message'], (f['code'] or [''])[0]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, suffix))
        sys.exit(1)
    print('%s: held on everything explored (%.1f s)' % (prop, time.time() - t0))


def load_known(prop):
    """open findings only; `fixed:` entries suppress nothing"""
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(dict(id=m.group(2), match=m.group(3), what=m.group(4)))
    return out


if __name__ == '__main__':
    main()
