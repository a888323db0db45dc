#!/usr/bin/env python3
"""assemble(extracted, template) -> Verus source + line map.

Template directives (before `//@@code`):
  //@@spec NAME      requires/ensures clauses put between signature and body of piece NAME
  //@@inv ID         loop invariants put between the loop header and its body
  //@@proof ID       proof text put at the marker
After `//@@code`: Verus text; `//@@insert NAME` is replaced by the extracted piece.
"""
import re


class Undecided(Exception):
    pass


def parse_extracted(text):
    pieces, dropped, facts = {}, [], {}
    cur = None
    mode = None
    for line in text.split('\n'):
        if line.startswith('//@@piece '):
            cur = line[10:].strip(); pieces[cur] = {'sig': [], 'body': []}; mode = None
        elif line == '//@@sig': mode = 'sig'
        elif line == '//@@body': mode = 'body'
        elif line == '//@@end': cur = None; mode = None
        elif line.startswith('//@@dropped '): dropped.append(line[12:])
        elif line.startswith('//@@fact '):
            k, _, v = line[9:].partition(' '); facts[k] = v
        elif cur and mode: pieces[cur][mode].append(line)
    for p in pieces.values():
        p['sig'] = '\n'.join(p['sig']); p['body'] = '\n'.join(p['body'])
        p['names'] = loop_names(p['body'])
        p['body'] = rename(p['body'], p['names'])
    return pieces, dropped, facts


GEN = re.compile(r'\blet (?:mut )?(vx_([a-z]+)_(\d+))\b')


def loop_names(body):
    """the extractor's numbered variables -> names after the loop they are made for: vx_it_7 -> vx_it_L3"""
    out, taken = {}, set()
    for m in GEN.finditer(body):
        n = re.compile(r'__vx_inv ! \("[^"]*\.(\d+)"\)').search(body, m.end())
        # nothing but the way to the loop in between
        if not n or m.group(1) in out:
            continue
        new = 'vx_%s_L%s' % (m.group(2), n.group(1))
        while new in taken:
            new += 'b'
        taken.add(new); out[m.group(1)] = new
    return out


def rename(body, names):
    return re.sub(r'\bvx_[a-z]+_\d+\b', lambda m: names.get(m.group(0), m.group(0)), body)


def parse_template(text):
    head, _, code = text.partition('//@@code\n')
    secs = {}
    cur = None
    for line in head.split('\n'):
        m = re.match(r'//@@(spec|inv|proof) (\S+)', line)
        if m:
            cur = (m.group(1), m.group(2)); secs[cur] = []
        elif cur:
            secs[cur].append(line)
    return {k: '\n'.join(v).strip('\n') for k, v in secs.items()}, code


INV = re.compile(r'\{\s*__vx_inv ! \("([^"]+)"\);\n')
FOR = re.compile(r'\bfor ([^\n]+?) in ([^\n]*)\{\s*__vx_inv ! ')
LEAF = re.compile(r'__vx_leaf ! \("([^"]+)"\);')


def LEAFBODY(b, a):
    """an arm that does more than `continue`"""
    t = b.split('__vx_leaf ! ("%s");' % a, 1)[1]
    return t.lstrip().split(';', 1)[0].strip() != 'continue'


PRF = re.compile(r'__vx_proof ! \("([^"]+)"\);')


def assemble(extracted, template, vacuity=False):
    pieces, dropped, facts = parse_extracted(extracted)
    secs, code = parse_template(template)
    used = set()

    def piece(name, slice_=None):
        if name not in pieces:
            raise Undecided('template wants piece %s, not extracted' % name)
        p = pieces[name]
        if not p['body']:
            return p['sig']
        b = p['body']

        def inv(m):
            k = ('inv', m.group(1)); used.add(k)
            if k not in secs:
                raise Undecided('loop %s has no invariant on file (new or reshaped loop)' % m.group(1))
            return '\n' + secs[k] + '\n{\n' + ('assert(false); /*VAC*/\n' if vacuity else '')

        def prf(m):
            k = ('proof', m.group(1))
            if k in secs:
                used.add(k); return secs[k]
            return ''
        b = FOR.sub(r'for \1 in vx_it: \2{ __vx_inv ! ', b)
        b = INV.sub(inv, b)
        b = PRF.sub(prf, b)
        if slice_ is not None:
            # sound case split: in slice k every arm outside group k is cut off; the slices together
            # keep every arm
            k, n = slice_
            arms = [m.group(1) for m in LEAF.finditer(b)]
            hard = [a for a in arms if LEAFBODY(b, a)]
            easy = [a for a in arms if a not in hard]
            group = {}
            for j, a in enumerate(hard): group[a] = j % (n - 1)
            for a in easy: group[a] = n - 1
            # IDs nest (a, a.0, a.0.2): whatever leads to a kept arm is kept
            keep = lambda a: any(g == k and (x == a or x.startswith(a + '.')) for x, g in group.items())
            b = LEAF.sub(lambda m: '' if keep(m.group(1)) else 'assume(false);', b)
            sig = re.sub(r'\bfn (\w+)', r'#[verifier::spinoff_prover]\n#[verifier::rlimit(400)]\nfn \1_s%d' % k, p['sig'], count=1)
        else:
            b = LEAF.sub('', b)
            sig = p['sig']
        if '__vx_' in b:
            raise Undecided('unresolved marker in ' + name)
        k = ('spec', name)
        sp = ''
        if k in secs:
            used.add(k); sp = secs[k]
        # proof at entry
        k = ('proof', name + '.entry')
        if k in secs:
            used.add(k)
            b = re.sub(r'^\s*\{', lambda m: '{\n' + secs[k], b, count=1)
        if vacuity:
            b = re.sub(r'^\s*\{((?:\s*hide\([\w:]+\);)*)', '{\\1\\nif vx_nondet() { assert(false); /*VAC*/\\n}', b, count=1)
        return '%s\n%s\n%s' % (sig, sp, b)

    def slices(m):
        name, n = m.group(1), int(m.group(2))
        if vacuity:
            return piece(name, (n, n))
        return '\n'.join(piece(name, (k, n)) for k in range(n))
    code = re.sub(r'^//@@slices (\S+) (\d+)$', slices, code, flags=re.M)
    out = re.sub(r'^//@@insert (\S+)$', lambda m: piece(m.group(1)), code, flags=re.M)
    if vacuity:
        out = out.replace('verus! {', 'verus! {\n#[verifier::external_body]\nfn vx_nondet() -> bool { unimplemented!() }\n', 1)
    missing = [k for k in secs if k not in used]
    if missing:
        raise Undecided('annotation without a place in the code: %s' % missing)
    return out, dropped, facts, pieces


STR = r'"((?:[^"\\]|\\.)*)"'


def cats(src):
    """text written in other pieces than the contract names it in: `vx_lit ("ab")` where the contract says "a"@ + "b"@ (or
    the other way round) gets the equation as a fact, which the verifier has to prove"""
    code = set(re.findall(r'vx_lit \(\s*' + STR, src))
    spec = set(re.findall(STR + '@', src))
    novel = code - spec - {'\\\\'}
    if not novel or not re.search(r'\bwrite_str\b', src):
        return src
    dec = lambda t: re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', '0': '\0', 'r': '\r'}.get(m.group(1), m.group(1)), t)
    known = {dec(t): t for t in code | spec if '\\u' not in t and '\\x' not in t}

    def splits(x, depth):
        """ways to write x as known pieces, x itself aside"""
        out = []
        for a in known:
            if a and x.startswith(a) and a != x:
                r = x[len(a):]
                if r in known: out.append([a, r])
                if depth: out += [[a] + w for w in splits(r, depth - 1)]
        return out
    facts = {}
    for x in known:
        for w in splits(x, 2)[:6]:
            for n in {y for y in [x] + w if known[y] in novel}:
                facts.setdefault(known[n], []).append((x, w))
    if '' in novel:
        facts.setdefault('', [])
    fns = []
    for j, (n, fs) in enumerate(sorted(facts.items())):
        lits = sorted({known[y] for x, w in fs for y in [x] + w} | {n})
        eq = ['"%s"@ =~= %s' % (known[x], ' + '.join('"%s"@' % known[y] for y in w)) for x, w in fs]
        if n == '': eq.append('""@ =~= Seq::<char>::empty()')
        fns.append('fn vx_cat_%d() -> (r: &\'static VxStr)\n    ensures *r == lit("%s"), %s\n{ proof { %s %s } vx_lit("%s") }\n' % (
            j, n, ', '.join(eq), ' '.join('reveal_strlit("%s");' % t for t in lits), ' '.join('assert(%s);' % e for e in eq), n))
        src = re.sub(r'vx_lit \(\s*"%s"\s*\)' % re.escape(n), lambda m: 'vx_cat_%d()' % j, src)
    k = src.index('verus! {\n') + len('verus! {\n')
    return src[:k] + ''.join(fns) + src[k:]


if __name__ == '__main__':
    import sys
    o = assemble(open(sys.argv[1]).read(), open(sys.argv[2]).read())
    open(sys.argv[3], 'w').write(o[0])
