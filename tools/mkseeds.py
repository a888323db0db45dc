#!/usr/bin/env python3
"""mkseeds.py FILE.py...: writes seeded/<id>/ (patch.diff, demo.py, demo.sh, lib.py, meta.json) from seed tables.
A development aid: no check reads it or its output."""
import difflib, json, os, subprocess, sys
V = '/verif'
def seed(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    patch = ''
    files = {}
    for f, old, new in edits:
        s = files.setdefault(f, [open('/repo/' + f).read()] * 2)
        assert s[1].count(old) == 1, (id, f, s[1].count(old), old)
        s[1] = s[1].replace(old, new)
    for f, (a, b) in files.items():
        patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lib import *\n\n' + demo.strip('\n') + '\nprint("ok")\n')
    open(d + '/demo.sh', 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/lib.py', 'w').write(open(V + '/tools/seedlib.py').read())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id)
for f in sys.argv[1:]:
    exec(compile(open(f).read(), f, 'exec'), dict(seed=seed))
