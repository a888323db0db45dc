#!/usr/bin/env python3
"""Writes the bit -> number lemmas of specs/thumb.rs (all of them are proved by Verus' bit-vector
back end; nothing here is assumed).  Run by hand; its output is committed between the GEN markers."""
import re
L, names = [], []

def lem(name, params, req, trig, rhs, bv, ensures=None):
    r = (' requires ' + req) if req else ''
    L.append('pub broadcast proof fn %s(%s)%s ensures %s == %s { assert(%s)%s; }' % (
        name, params, r, '#[trigger] ' + trig, rhs, bv, ' by (bit_vector)' + (' requires ' + req.replace(', ', ' && ') if req else '')))
    names.append(name)

# fld(x,k,n): bits k+n-1..k of a byte as a number
for n in range(1, 9):
    m = (1 << n) - 1
    if n < 8:
        L.append('pub broadcast proof fn and_u8_%d(x: u8) ensures #[trigger] (x & %d) == fld(x, 0, %d), fld(x, 0, %d) <= %d { assert(((x >> 0u8) & %d) == (x & %d) && (x & %d) <= %d) by (bit_vector); }' % (n, m, n, n, m, m, m, m, m)); names.append('and_u8_%d' % n)
        L.append('pub broadcast proof fn and_u16_%d(x: u8) ensures #[trigger] ((x as u16) & %d) == fld(x, 0, %d), fld(x, 0, %d) <= %d { assert(((x >> 0u8) & %d) == ((x as u16) & %d) && ((x >> 0u8) & %d) <= %d) by (bit_vector); }' % (n, m, n, n, m, m, m, m, m)); names.append('and_u16_%d' % n)
    else:
        L.append('pub broadcast proof fn and_u8_8(x: u8) ensures #[trigger] (x & 255) == x { assert((x & 255) == x) by (bit_vector); }'); names.append('and_u8_8')
        L.append('pub broadcast proof fn and_u16_8(x: u8) ensures #[trigger] ((x as u16) & 255) == x { assert(((x as u16) & 255) == x as u16) by (bit_vector); }'); names.append('and_u16_8')
for k in range(1, 8):
    n = 8 - k; m = (1 << n) - 1
    L.append('pub broadcast proof fn shr_u8_%d(x: u8) ensures #[trigger] (x >> %d) == fld(x, %d, %d), fld(x, %d, %d) <= %d { assert((x >> %d) == ((x >> %du8) & %d) && (x >> %d) <= %d) by (bit_vector); }' % (k, k, k, n, k, n, m, k, k, m, k, m)); names.append('shr_u8_%d' % k)
    L.append('pub broadcast proof fn bit_u8_%d(x: u8) ensures #[trigger] (x & %d) == %d * b2i(bb(x, %d)) { assert((x & %d) == (if (x >> %du8) & 1 == 1 { %du8 } else { 0u8 })) by (bit_vector); }' % (k, 1 << k, 1 << k, k, 1 << k, k, 1 << k)); names.append('bit_u8_%d' % k)
    for n in range(1, 8 - k):
        m = (1 << n) - 1
        L.append('pub broadcast proof fn fld_u8_%d_%d(x: u8) ensures #[trigger] ((x >> %d) & %d) == fld(x, %d, %d), fld(x, %d, %d) <= %d { assert(((x >> %d) & %d) == ((x >> %du8) & %d) && ((x >> %d) & %d) <= %d) by (bit_vector); }' % (k, n, k, m, k, n, k, n, m, k, m, k, m, k, m, m)); names.append('fld_u8_%d_%d' % (k, n))
# bit expansion of the short fields (register numbers, conditions, flags)
for n in (1, 2, 4):
    for k in range(0, 9 - n):
        m = (1 << n) - 1
        e = ' + '.join('%d * b2i(bb(x, %d))' % (1 << j, k + j) for j in range(n))
        eb = ' + '.join('(if (x >> %du8) & 1 == 1 { %du8 } else { 0u8 })' % (k + j, 1 << j) for j in range(n))
        L.append('pub broadcast proof fn exp_%d_%d(x: u8) ensures #[trigger] fld(x, %d, %d) == %s { assert(((x >> %du8) & %d) == %s) by (bit_vector); }' % (k, n, k, n, e, k, m, eb)); names.append('exp_%d_%d' % (k, n))
L.append('pub broadcast proof fn half_u8(x: u8) ensures #[trigger] (x >> 1) == x as int / 2 { assert((x >> 1) == x / 2) by (bit_vector); }'); names.append('half_u8')
for ty, bits, ks in (('u16', 16, (2, 4, 8, 11, 14)), ('u32', 32, (1, 2, 8, 16, 24)), ('u8', 8, (1, 2, 3, 4)), ('i32', 31, (1, 8, 12, 18, 19, 20, 22, 23, 24))):
    for k in ks:
        b = 1 << (bits - k)
        L.append('pub broadcast proof fn shl_%s_%d(x: %s) requires 0 <= x < %d ensures #[trigger] (x << %d) == x as int * %d { assert((x << %d) == x * %d) by (bit_vector) requires 0 <= x < %d; }' % (ty, k, ty, b, k, 1 << k, k, 1 << k, b)); names.append('shl_%s_%d' % (ty, k))

def pop(x): return ' + '.join('(((%s) >> %du16) & 1)' % (x, k) for k in range(16))
def pcb(n): return ' + '.join('(if (x >> %du8) & 1 == 1 { 1u16 } else { 0u16 })' % k for k in range(n))
L.append('#[verifier::opaque]\npub open spec fn pop16(x: u16) -> int { (%s) as int }' % pop('x'))
L.append('pub broadcast proof fn pop_byte(x: u8) ensures #[trigger] pop16(x as u16) == pc(x, 8), pc(x, 8) <= 8 { assert(%s == %s && %s <= 8) by (bit_vector); }' % (pop('x as u16'), pcb(8), pcb(8))); names.append('pop_byte')
for n in range(1, 8):
    L.append('pub broadcast proof fn pop_and_%d(x: u8) ensures #[trigger] pop16((x as u16) & %d) == pc(x, %d), pc(x, %d) <= %d { assert(%s == %s && %s <= %d) by (bit_vector); }' % (n, (1 << n) - 1, n, n, n, pop('(x as u16) & %d' % ((1 << n) - 1)), pcb(n), pcb(n), n)); names.append('pop_and_%d' % n)
# a single flag bit, as a u16
for k in range(0, 8):
    t = '(x >> %d) & 1' % k if k else 'x & 1'
    L.append('pub broadcast proof fn pop_bit_%d(x: u8) ensures #[trigger] pop16((%s) as u16) == b2i(bb(x, %d)) { assert(%s == (if (x >> %du8) & 1 == 1 { 1u16 } else { 0u16 })) by (bit_vector); }' % (k, t, k, pop('(%s) as u16' % t), k)); names.append('pop_bit_%d' % k)
L.append('pub broadcast group arith { %s }' % ', '.join(names))
p = __file__.rsplit('/', 1)[0] + '/thumb.rs'
s = open(p).read()
L = [x.replace('{ assert(', '{ reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(', 1) for x in L]
a = s.index('// GEN-BEGIN'); b = s.index('// GEN-END')
open(p, 'w').write(s[:a] + '// GEN-BEGIN (gen_thumb_lemmas.py)\n' + '\n'.join(L) + '\n' + s[b:])
