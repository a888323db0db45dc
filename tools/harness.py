#!/usr/bin/env python3
"""Builds a scratch copy of /repo's current sources with the replay harness added to it.

The copy lives in /verif/.build/harness; /repo is never touched.  The same binary is the unmodified
program unless VX_HARNESS is set.  If a harness part does not compile against the current sources
(a function it calls was renamed, say) that part is left out and reported as unavailable."""
import os, re, shutil, subprocess, sys, fcntl

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
BUILD = os.environ.get('VX_BUILD', os.path.join(V, '.build'))
PARTS = {  # part -> (file to append accessors to, text)
    'thumb': [],
    'matches': [('thumb.rs', 'pub mod vx_acc { pub fn matches(b: &[u8], p: &str) -> bool { super::matches(b, p) } }')],
    'lattice': [],
    'sig': [],
    'dehash': [],
    'wrapper': [('wrapper.rs', 'pub mod vx_acc { pub fn parse(a: &[String]) -> anyhow::Result<(String, String, Option<String>, Vec<(String, Option<String>)>)> { let r = super::RustcArgs::parse(&mut a.iter().map(|s| &**s))?; Ok((r.extra_filename, r.crate_name, r.out_dir, r.extern_crates.into_iter().map(|e| (e.crate_name, e.path)).collect())) } }')],
    'dot': [],
    'ir': [],
}


def env():
    e = dict(os.environ)
    e.update(HOME='/root', PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTUP_AUTO_INSTALL='0', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', CARGO_CACHE_AUTO_CLEAN_FREQUENCY='never')
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'VX_HARNESS', 'CARGO_CALL_STACK_RUSTC_WRAPPER'):
        e.pop(k, None)
    e['RUSTC_WRAPPER'] = ''
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare(parts):
    d = os.path.join(BUILD, 'harness')
    os.makedirs(d, exist_ok=True)
    want = {}
    for root, _, files in os.walk(os.path.join(REPO, 'src')):
        for f in files:
            p = os.path.join(root, f)
            want['src/' + os.path.relpath(p, os.path.join(REPO, 'src'))] = open(p).read()
    cargo = open(os.path.join(REPO, 'Cargo.toml')).read()
    cargo = re.sub(r'(?ms)^\[workspace\].*?(?=^\[|\Z)', '', cargo)
    cargo = re.sub(r'(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)', '', cargo)
    cargo += '\n[workspace]\n[profile.dev]\nopt-level = 2\ndebug = "line-tables-only"\nincremental = true\n[profile.dev.package."*"]\nopt-level = 1\n'
    want['Cargo.toml'] = cargo
    lock = os.path.join(REPO, 'Cargo.lock')
    main = want.get('src/main.rs', '')
    main2, n = re.subn(r'(fn main\(\)[^{;]*\{)', r'\1 if std::env::var_os("VX_HARNESS").is_some() { vx_harness::main(); return Ok(()); }', main, count=1)
    have = []
    if n == 1 and parts:
        for p in parts:
            if os.path.exists(os.path.join(V, 'harness', 'h_%s.rs' % p)):
                have.append(p)
        hm = open(os.path.join(V, 'harness', 'mod.rs')).read()
        hm = hm.replace('//@@dispatch', '\n        '.join('"%s" => h_%s::run(&mut r, iters, &mut st),' % (p, p) for p in have))
        hm = hm.replace('//@@mods', '\n'.join('mod h_%s;' % p for p in have))
        want['src/vx_harness/mod.rs'] = '#![allow(warnings)]\n' + hm
        for p in have:
            want['src/vx_harness/h_%s.rs' % p] = open(os.path.join(V, 'harness', 'h_%s.rs' % p)).read()
            for f, t in PARTS[p]:
                want['src/' + f] = want.get('src/' + f, '') + '\n' + t + '\n'
        want['src/main.rs'] = main2 + '\nmod vx_harness;\n'
    # write only what changed (keeps the incremental build warm)
    for k, v in want.items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != v:
            open(p, 'w').write(v)
    for root, _, files in os.walk(os.path.join(d, 'src')):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, d) not in want:
                os.remove(p)
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, 'Cargo.lock')):
        shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    return d, have


def build():
    """-> (binary or None, parts available, log)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        parts = list(PARTS)
        log = ''
        for _ in range(len(PARTS) + 2):
            d, have = prepare(parts)
            r = sh(['cargo', 'build', '--offline'], cwd=d, env=dict(env(), CARGO_TARGET_DIR=os.path.join(BUILD, 'target')))
            if r.returncode == 0:
                return os.path.join(BUILD, 'target', 'debug', 'cargo-call-stack'), have, log
            log += r.stdout[-3000:]
            bad = set(re.findall(r'src/vx_harness/h_(\w+)\.rs', r.stdout))
            bad |= {p for p in parts for f, t in PARTS[p] if re.search(r'error[^\n]*\n\s*--> src/%s:(\d+)' % re.escape(f), r.stdout) and p not in bad}
            if not parts:
                return None, [], log
            parts = [p for p in parts if p not in bad] if bad & set(parts) else []
        return None, [], log


def run(binary, part, seed, iters, timeout=300, extra={}):
    """-> (fails [(props, text)], evaluations, distinct, available)"""
    try:
        r = subprocess.run([binary], env=dict(env(), VX_HARNESS="%s %d %d" % (part, seed, iters), **extra), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, cwd=BUILD)
    except subprocess.TimeoutExpired:
        return [], 0, 0, False
    fails, ev, nt, ok = [], 0, 0, False
    for l in r.stdout.split('\n'):
        if l.startswith('FAIL '):
            _, p, t = l.split(' ', 2)
            fails.append((p.split(','), t))
        elif l.startswith('STATS '):
            ev, nt = map(int, l.split()[1:3]); ok = True
        elif l.startswith('UNAVAILABLE'):
            return [], 0, 0, False
    return fails, ev, nt, ok


if __name__ == '__main__':
    b, have, log = build()
    print(b, have)
    if not b:
        print(log)
    for p in sys.argv[1:]:
        print(p, run(b, p, 1, 20000))
