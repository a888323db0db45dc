#!/usr/bin/env python3
"""mut.py UNIT FILE [NAME..]: re-prove UNIT on small edits of /repo/src (scratch copy).  FILE holds a list M of
(name, file, old, new, expect) with expect 'fails' (an obligation fails) or 'quiet' (still proved)."""
import os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
unit, f, only = sys.argv[1], sys.argv[2], sys.argv[3:]
ns = {}
exec(open(f).read(), ns)
d = tempfile.mkdtemp(prefix='mut-')
os.environ['VX_REPO'] = d
os.environ['VX_BUILD'] = os.path.join(d, 'build')
import prove
try:
    for name, file, old, new, expect, *more in ns['M']:
        if only and name not in only: continue
        shutil.rmtree(os.path.join(d, 'src'), ignore_errors=True)
        shutil.copytree('/repo/src', os.path.join(d, 'src'))
        p = os.path.join(d, 'src', file)
        s = open(p).read()
        if s.count(old) != 1: print('%-28s old text occurs %d times' % (name, s.count(old))); continue
        s = s.replace(old, new)
        for a, b in more: s = s.replace(a, b, 1)
        open(p, 'w').write(s)
        r = prove.prove(unit, vacuity=False)
        ok = r['status'] == {'fails': 'failed', 'quiet': 'proved'}.get(expect, expect)
        print('%-28s %-9s %s %s' % (name, r['status'], 'ok' if ok else '<<<<< want ' + expect, r['reason'][:300] if r['status'] != 'failed' else '; '.join('%s' % x for x in r['failures'])[:300]), flush=True)
finally:
    shutil.rmtree(d)
