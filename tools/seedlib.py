#!/usr/bin/env python3
"""Scenario runner for the demonstrations: writes an ELF file, an object file, an archive and LLVM-IR into a
scratch directory and runs target/debug/cargo-call-stack (cwd: the repository) on them with stand-ins for
cargo and rustc.  Nothing outside the scratch directory is written."""
import os, re, shutil, struct, subprocess, sys, tempfile

UNSUP = "I won't open issues about unsupported toolchains"

class Strtab:
    def __init__(self): self.b = bytearray(b'\0'); self.ix = {}

    def add(self, s):
        if s not in self.ix:
            self.ix[s] = len(self.b); self.b += s.encode() + b'\0'
        return self.ix[s]


def elf(bits, rel, sections, symbols, machine):
    """sections: [(name, type, flags, addr, data, link, info, entsize)] (without null/strtabs)
    symbols: [(name, value, size, type, bind, shndx)]"""
    st = Strtab(); sh = Strtab()
    symb = bytearray(16 if bits == 32 else 24)
    nloc = 1 + sum(1 for s in symbols if s[4] == 0)
    for n, v, sz, ty, bind, shn in sorted(symbols, key=lambda s: s[4] != 0):
        o = st.add(n) if n else 0
        if bits == 32: symb += struct.pack('<IIIBBH', o, v, sz, bind << 4 | ty, 0, shn)
        else: symb += struct.pack('<IBBHQQ', o, bind << 4 | ty, 0, shn, v, sz)
    secs = list(sections)
    nsym = 1 + len(secs)
    secs.append(('.symtab', 2, 0, 0, bytes(symb), nsym + 1, nloc, 16 if bits == 32 else 24))
    secs.append(('.strtab', 3, 0, 0, bytes(st.b), 0, 0, 0))
    for s in secs: sh.add(s[0])
    sh.add('.shstrtab')
    secs.append(('.shstrtab', 3, 0, 0, bytes(sh.b), 0, 0, 0))
    eh = 52 if bits == 32 else 64
    off = eh; body = bytearray(); offs = []
    for s in secs:
        while (off + len(body)) % 8: body += b'\0'
        offs.append(off + len(body)); body += s[4]
    while (off + len(body)) % 8: body += b'\0'
    shoff = off + len(body)
    hdr = bytearray()
    z = 40 if bits == 32 else 64
    hdr += bytes(z)
    for s, o in zip(secs, offs):
        link = nsym if s[5] == 'sym' else s[5]
        if bits == 32: hdr += struct.pack('<10I', sh.add(s[0]), s[1], s[2], s[3], o, len(s[4]), link, s[6], 8, s[7])
        else: hdr += struct.pack('<IIQQQQIIQQ', sh.add(s[0]), s[1], s[2], s[3], o, len(s[4]), link, s[6], 8, s[7])
    ident = b'\x7fELF' + bytes([1 if bits == 32 else 2, 1, 1, 0]) + bytes(8)
    if bits == 32: e = ident + struct.pack('<HHIIIIIHHHHHH', 1 if rel else 2, machine, 1, 0, 0, shoff, 0, 52, 0, 0, 40, len(secs) + 1, len(secs))
    else: e = ident + struct.pack('<HHIQQQIHHHHHH', 1 if rel else 2, machine, 1, 0, 0, shoff, 0, 64, 0, 0, 64, len(secs) + 1, len(secs))
    return bytes(e + body + hdr)


def uleb(n):
    o = bytearray()
    while True:
        b = n & 127; n >>= 7
        if n: o.append(b | 128)
        else:
            o.append(b); return bytes(o)


def obj_file(bits, entries, machine):
    """object with one .text and .stack_sizes for entries {name: stack}"""
    names = list(entries)
    text = bytes(4 * max(1, len(names)))
    syms = [(n, 4 * k, 4, 2, 1, 1) for k, n in enumerate(names)]
    ss, rel = bytearray(), bytearray()
    # symbol table index: null first, then our (all global) symbols in order
    for k, n in enumerate(names):
        ss += struct.pack('<I' if bits == 32 else '<Q', 4 * k) + uleb(entries[n])
        rel += struct.pack('<II', 4 * k, (k + 1) << 8 | 2) if bits == 32 else struct.pack('<QQq', 4 * k, (k + 1) << 32 | 1, 0)
    secs = [('.text', 1, 6, 0, text, 0, 0, 0)]
    if names:
        secs.append(('.stack_sizes', 1, 0, 0, bytes(ss), 0, 0, 0))
        secs.append(('.rel.stack_sizes', 9, 0, 0, bytes(rel), 'sym', 2, 8) if bits == 32 else ('.rela.stack_sizes', 4, 0, 0, bytes(rel), 'sym', 2, 24))
    return elf(bits, True, secs, syms, machine)


def ar_file(members):
    o = bytearray(b'!<arch>\n')
    names = bytearray()
    hdr = []
    for n, d in members:
        if len(n) > 15:
            hdr.append(('/%d' % len(names), d)); names += n.encode() + b'/\n'
        else: hdr.append((n + '/', d))
    if names:
        hdr.insert(0, ('//', bytes(names)))
    for n, d in hdr:
        o += ('%-16s%-12s%-6s%-6s%-8s%-10d`\n' % (n, '0', '0', '0', '644', len(d))).encode() + d
        if len(d) % 2: o += b'\n'
    return bytes(o)

def enc_bl(off, op):
    s = (off >> 24) & 1
    i1, i2 = (off >> 23) & 1, (off >> 22) & 1
    j1, j2 = 1 ^ i1 ^ s, 1 ^ i2 ^ s
    return [0xf000 | s << 10 | (off >> 12) & 0x3ff, op | j1 << 13 | j2 << 11 | (off >> 1) & 0x7ff]


def enc_b3(off, cond):
    s = (off >> 20) & 1
    return [0xf000 | s << 10 | cond << 6 | (off >> 12) & 0x3f, 0x8000 | ((off >> 18) & 1) << 13 | ((off >> 19) & 1) << 11 | (off >> 1) & 0x7ff]


class Bad(Exception):
    pass


def parse_dot(t):
    """-> nodes {i: (label, max or None, local, dashed)}, edges [(a, b)], clusters [[i]]"""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(t) and t[pos].isspace(): pos += 1

    def tok(s):
        nonlocal pos
        ws()
        if not t.startswith(s, pos): raise Bad('expected %r at %r' % (s, t[pos:pos + 60]))
        pos += len(s)

    def peek(s):
        ws(); return t.startswith(s, pos)

    def num():
        nonlocal pos
        ws()
        m = re.compile(r'\d+').match(t, pos)
        if not m: raise Bad('expected a number at %r' % t[pos:pos + 60])
        pos = m.end(); return int(m.group())

    def qstr():
        nonlocal pos
        tok('"'); o = []
        while True:
            if pos >= len(t): raise Bad('string not closed')
            c = t[pos]
            if c == '\\':
                if t[pos + 1] == '"': o.append('"'); pos += 2
                else: o.append(t[pos:pos + 2]); pos += 2
            elif c == '"':
                pos += 1; return ''.join(o)
            else: o.append(c); pos += 1
    tok('digraph'); tok('{'); tok('node [fontname=monospace shape=box]')
    nodes, edges, clusters = {}, [], []
    while True:
        if peek('}'): tok('}'); break
        if peek('subgraph'):
            tok('subgraph'); tok('cluster_%d' % len(clusters)); tok('{'); tok('style=dashed'); tok('fontname=monospace'); tok('label='); qstr()
            m = []
            while not peek('}'): m.append(num())
            tok('}'); clusters.append(m); continue
        a = num()
        if peek('->'):
            tok('->'); edges.append((a, num()))
            continue
        tok('['); tok('label='); l = qstr()
        dashed = False
        if peek('style=dashed'): tok('style=dashed'); dashed = True
        tok(']')
        m = re.fullmatch(r'(.*?)(?:\\nmax (=|>=) (\d+))?\\nlocal = (\d+|\?)', l, re.S)
        if not m: raise Bad('label %r' % l)
        if a in nodes: raise Bad('node %d twice' % a)
        name = m.group(1).replace('\\\\', '\\')
        nodes[a] = (name, (m.group(2) == '=', int(m.group(3))) if m.group(2) else None, None if m.group(4) == '?' else int(m.group(4)), dashed)
    ws()
    if pos != len(t): raise Bad('text after the graph')
    return nodes, edges, clusters


def setup_dir(d):
    b = os.path.join(d, 'bin'); os.makedirs(b)
    open(os.path.join(b, 'cargo'), 'w').write('#!/bin/sh\necho "@CARGO_CALL_STACK:compiler_builtins_rlib_path@$PWD/cb/libcb.rlib" >&2\necho "   Compiling app" >&2\necho "@CARGO_CALL_STACK:compiler_builtins_ll_path@$PWD/cb/cb.ll" >&2\n')
    open(os.path.join(b, 'rustc'), 'w').write('''#!/bin/sh
case "$*" in
*print*) printf 'target_arch="arm"\\ntarget_endian="little"\\ntarget_env=""\\ntarget_os="none"\\ntarget_pointer_width="32"\\n';;
*) printf 'rustc 1.75.0-nightly (0f44eb32f 2023-11-09)\\nbinary: rustc\\ncommit-hash: 0f44eb32f1123ac93ab404d74c295263ce468343\\ncommit-date: 2023-11-09\\nhost: x86_64-unknown-linux-gnu\\nrelease: 1.75.0-nightly\\nLLVM version: 17.0.4\\n';;
esac
''')
    for x in ('cargo', 'rustc'): os.chmod(os.path.join(b, x), 0o755)
    return b




class Res:
    """rc, out, err; for dot: nodes {id: (label, max, local, dashed)}, edges [(id, id)], clusters"""
    def __init__(self, c, dot):
        self.rc, self.out, self.err = c.returncode, c.stdout.decode('utf8', 'replace'), c.stderr.decode('utf8', 'replace')
        self.nodes, self.edges, self.clusters = {}, [], []
        if dot and self.rc == 0: self.nodes, self.edges, self.clusters = parse_dot(self.out)

    def names(self): return sorted(v[0] for v in self.nodes.values())

    def id(self, name):
        l = [k for k, v in self.nodes.items() if v[0] == name]
        assert len(l) == 1, 'node %r: %s in %s' % (name, l, self.names())
        return l[0]

    def node(self, name): return self.nodes[self.id(name)]

    def callees(self, name):
        i = self.id(name)
        return sorted(self.nodes[b][0] for a, b in self.edges if a == i)


class Prog:
    def __init__(self, target='thumbv7m-none-eabi', base=0x8000):
        self.target, self.base = target, base
        self.bits = 64 if target.startswith('x86') else 32
        self.thumb = target.startswith(('thumbv6', 'thumbv7'))
        self.text = bytearray(); self.syms = []; self.obj = {}; self.rlib = {}; self.undef = []
        self.ll = ''; self.cb_ll = ''

    def here(self): return self.base + len(self.text)

    def fn(self, name, code=None, stack=None, aliases=(), size=None, where='obj', tags=True):
        """code: halfwords; returns the address"""
        a = self.here()
        hw = code if code is not None else [0x4770, 0xbf00]
        for h in hw: self.text += struct.pack('<H', h)
        sz = 2 * len(hw) if size is None else size
        for n in (name,) + tuple(aliases): self.syms.append((n, a | (1 if self.thumb else 0), sz, 2, 1, 1))
        if self.thumb and tags: self.syms.append(('$t', a, 0, 0, 0, 1))
        if stack is not None: (self.obj if where == 'obj' else self.rlib)[name] = stack
        return a

    def sym(self, name, addr, size=0, ty=0, bind=0): self.syms.append((name, addr, size, ty, bind, 1))

    def run(self, *args, top=False):
        d = tempfile.mkdtemp(prefix='demo-')
        try:
            b = setup_dir(d)
            ld = os.path.join(d, 'target', self.target, 'release', 'examples')
            for x in (ld, os.path.join(d, 'src'), os.path.join(d, 'cb')): os.makedirs(x)
            machine = 62 if self.bits == 64 else 40
            syms = self.syms + [(n, 0, 0, 2, 1, 0) for n in self.undef]
            w = lambda p, c: open(os.path.join(d, p), 'wb').write(c if isinstance(c, bytes) else c.encode())
            w(os.path.join(ld, 'app'), elf(self.bits, False, [('.text', 1, 6, self.base, bytes(self.text), 0, 0, 0)], syms, machine))
            w(os.path.join(ld, 'app-0123.o'), obj_file(self.bits, self.obj, machine))
            w(os.path.join(ld, 'app-0123.ll'), self.ll)
            w('cb/libcb.rlib', ar_file([('lib.rmeta', b'junk'), ('compiler_builtins-1.cgu.0.o', obj_file(self.bits, self.rlib, machine))]))
            w('cb/cb.ll', self.cb_ll)
            w('Cargo.toml', '[package]\nname = "app"\nversion = "0.1.0"\n')
            w('src/main.rs', 'fn main() {}\n')
            tool = os.path.abspath('target/debug/cargo-call-stack')
            e = {'PATH': b + ':/usr/bin:/bin', 'HOME': d, 'CARGO_CALL_STACK_UNSPPORTED_NIGHTLY': UNSUP, 'RUST_BACKTRACE': '0'}
            c = subprocess.run([tool, '--target', self.target, '--example', 'app'] + (['--format', 'top'] if top else []) + list(args), cwd=d, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            return Res(c, not top)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def define(name, ret='void', args='', body=()):
    q = name if re.fullmatch(r'[-a-zA-Z$._][-a-zA-Z$._0-9]*', name) else '"%s"' % name
    return 'define %s @%s(%s) unnamed_addr #0 {\nstart:\n%s\n  ret void\n}\n\n' % (ret, q, args, '\n'.join('  ' + l for l in body))


def check(cond, what):
    if not cond:
        print('FAIL:', what); sys.exit(1)
