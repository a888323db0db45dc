#!/usr/bin/env python3
"""Random rustc command lines through the real binary in its wrapper role, with a stand-in compiler that
records how it was called.  Bounded: never counted as proof."""
import os, random, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor

RLIB = '@CARGO_CALL_STACK:compiler_builtins_rlib_path@'
LL = '@CARGO_CALL_STACK:compiler_builtins_ll_path@'
CB = 'compiler_builtins'
RUSTC = '''#!/bin/sh
{ printf 'RUN\\0'; for a in "$@"; do printf '%s\\0' "A$a"; done; } >> "$VX_LOG"
echo "warning: from the compiler" >&2
[ "$VX_RC" = sig ] && kill -9 $$
exit $VX_RC
'''


def value(r):
    return r.choice(['/t/libcompiler_builtins-0a1b.rlib', 'lib.rlib', '/a=b/c.rlib', '/with space/x.rlib', '/c:d/x', '', 'é.rlib', 'x=y=z', ':', 'compiler_builtins'])


def crate(r):
    return r.choice([CB, CB, 'core', 'compiler_builtins2', 'my_compiler_builtins', 'alloc', 'build_script_build', '___', 'compiler-builtins'])


def gen(r):
    """-> argument list (well formed), compiler exit code"""
    a = []
    cn = r.choice([CB, CB, crate(r), 'app'])
    need = cn == CB
    parts = [['--crate-name', cn]]
    if need or r.random() < .5: parts.append(['--out-dir', r.choice(['/out', 'target/x y', '.', '/a=b', '', '/o:p/deps', 'rel/é'])])
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        pre = r.choice(['', '', 'noprelude:', 'priv:', 'priv,noprelude:', 'noprelude,priv:', 'force:', 'nounused,noprelude:'])
        parts.append(['--extern', pre + crate(r) + (('=' + value(r)) if r.random() < .8 else '')])
    for _ in range(r.choice([0, 1, 1, 2])):
        x = r.choice(['extra-filename=-0a1b2c', 'extra-filename=-x', 'extra-filename=', 'extra-filename=-a=b', 'metadata=12', 'opt-level=3', 'linker=a=b', 'prefer-dynamic',
                      'extra-filenames=-no', 'no-extra-filename=-no', 'embed-bitcode=no'])
        parts.append(['-C', x] if r.random() < .5 else ['-C' + x])
    for _ in range(r.randrange(4)):
        parts.append(r.choice([['src/lib.rs'], ['--edition=2021'], ['--cfg', 'feature="mem"'], ['--emit=dep-info,metadata,link'], ['-L', 'dependency=/x'], ['--cap-lints', 'allow'], ['-'],
                               ['--target', 'thumbv7m-none-eabi'], ['-Zemit-stack-sizes'], ['-v'], ['-c'], ['-Zbuild-std'], ['--emit=llvm-ir'], ['--error-format=json'], [''], ['a b'],
                               ['--externs'], ['--crate-type', 'lib'], ['--crate-nam'], ['--out-dirs'], ['-'], ['--', ][:0], ['"q"'], ["it's"], ['--print=file-names'], ['@f'], ['x=y'], ['--cfg', CB]]))
    if r.random() < .1: parts.append(['--crate-name', cn])
    if r.random() < .05 and not need: parts.append(['--out-dir', '/second'])
    r.shuffle(parts)
    return [x for p in parts for x in p], r.choice([0, 0, 0, 1, 101, 2, 254, 255, 42])


def expect(a):
    ext, crate_name, out, extra = [], None, None, ''
    k = 0
    while k < len(a):
        x = a[k]
        if x == '--extern':
            k += 1; n, eq, p = a[k].partition('=')
            ext.append((n.split(':', 1)[-1], p if eq else None))
        elif x == '--crate-name': k += 1; crate_name = a[k]
        elif x == '--out-dir': k += 1; out = a[k]
        elif x.startswith('-C'):
            v = x[2:]
            if not v: k += 1; v = a[k]
            n, eq, p = v.partition('=')
            if n == 'extra-filename': extra = p
        k += 1
    return [p for n, p in ext if n == CB and p is not None], crate_name, ('%s/%s%s.ll' % (out, crate_name, extra) if crate_name == CB else None)


def one(binary, seed, idx, d):
    r = random.Random('%s/wrapper/%d' % (seed, idx))
    a, rc = gen(r)
    rl, cn, ll = expect(a)
    log = os.path.join(d, 'log')
    if os.path.exists(log): os.remove(log)
    tool = os.path.join(d, r.choice(['rustc', 'my rustc']))
    kill = r.random() < .03
    e = {'PATH': '/usr/bin:/bin', 'CARGO_CALL_STACK_RUSTC_WRAPPER': r.choice(['1', '', '0']), 'VX_LOG': log, 'VX_RC': 'sig' if kill else str(rc), 'RUST_BACKTRACE': '0'}
    c = subprocess.run([binary, tool] + a, env=e, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    err = c.stderr.decode('utf8', 'replace').split('\n')
    got = open(log, 'rb').read().decode('utf8').split('\0')[:-1] if os.path.exists(log) else []
    head = 'replay: python3 tools/wrape2e.py replay %s %d\nrustc arguments %r\n' % (seed, idx, a)
    bad = []
    if got.count('RUN') != 1: bad.append('the compiler was run %d times; exit code %d; stderr %r' % (got.count('RUN'), c.returncode, c.stderr[-300:]))
    else:
        g = [x[1:] for x in got[1:]]
        extra = ['-Zemit-stack-sizes'] + (['--emit=llvm-ir'] if cn == CB else [])
        # the original arguments in order, with only the extra ones added
        def match(g):
            return any(g[p:p + len(a)] == a and sorted(g[:p] + g[p + len(a):]) == sorted(extra) for p in range(len(extra) + 1))
        if not match(g): bad.append('the compiler got %r' % (g,))
        if kill:
            if c.returncode == 0: bad.append('the compiler was killed, yet the exit code is 0')
        elif c.returncode != rc: bad.append('the compiler exited with %d, the wrapper with %d' % (rc, c.returncode))
        r1 = [x[len(RLIB):] for x in err if x.startswith(RLIB)]
        r2 = [x[len(LL):] for x in err if x.startswith(LL)]
        if r1 != rl: bad.append('library paths reported: %r, given: %r' % (r1, rl))
        if r2 != ([ll] if ll else []): bad.append('.ll path reported: %r, expected %r' % (r2, ll))
    return [(['C16'], head + b) for b in bad], (len(a), rc, len(rl), ll, idx), head


def worker(a):
    binary, seed, lo, hi, deadline = a
    d = tempfile.mkdtemp(prefix='vx-wr-')
    out, keys, n, sample = [], set(), 0, ''
    try:
        for x in ('rustc', 'my rustc'):
            open(os.path.join(d, x), 'w').write(RUSTC); os.chmod(os.path.join(d, x), 0o755)
        for idx in range(lo, hi):
            if time.time() > deadline: break
            try:
                res, key, s = one(binary, seed, idx, d)
                keys.add(key); sample = sample or s
            except Exception:
                res = [([], 'harness error: ' + traceback.format_exc())]
            n += 1; out += res
            if len(out) > 60: break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out, keys, n, sample


def run(binary, seed, n, limit=75):
    W, step = 8, 25
    deadline = time.time() + limit
    jobs = [(binary, seed, k, min(n, k + step), deadline) for k in range(0, n, step)]
    fails, keys, total, sample = [], set(), 0, ''
    with ProcessPoolExecutor(W) as ex:
        for k in range(0, len(jobs), 4 * W):
            for o, ks, m, s in ex.map(worker, jobs[k:k + 4 * W]):
                fails += o; keys |= ks; total += m; sample = sample or s
            if len(fails) > 10: break
    bad = [t for p, t in fails if not p]
    return [(p, t) for p, t in fails if p], total, len(keys), not bad, (bad[0] if bad else sample)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import harness
    b = os.environ.get('VX_BIN') or os.path.join(harness.BUILD, 'target', 'debug', 'cargo-call-stack')
    if sys.argv[1] == 'replay':
        d = tempfile.mkdtemp(prefix='vx-wr-')
        for x in ('rustc', 'my rustc'):
            open(os.path.join(d, x), 'w').write(RUSTC); os.chmod(os.path.join(d, x), 0o755)
        for p, t in one(b, sys.argv[2], int(sys.argv[3]), d)[0]: print(p, t)
        shutil.rmtree(d)
    else:
        t = time.time()
        f, n, k, ok, s = run(b, os.environ.get('VERIF_SEED', '1'), int(sys.argv[1]))
        print(n, k, 'ok' if ok else s, len(f), '%.1f s' % (time.time() - t))
        for p, x in f[:6]: print(p, x[:600])
