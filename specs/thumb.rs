//@@spec analyze
    requires
        bytes@.len() < 0x4000_0000,
        address + bytes@.len() <= u32::MAX,
        tags_ok(tags@),
        walk(bytes@, address as int, v7, tags@, 0, acc0()) is Some,
    ensures
        ret.0@ =~= walk(bytes@, address as int, v7, tags@, 0, acc0())->0.bls, //#C01 every BL, with its target, in order
        ret.1@ =~= walk(bytes@, address as int, v7, tags@, 0, acc0())->0.bs, //#C01 every B, with its target, in order
        ret.2 == walk(bytes@, address as int, v7, tags@, 0, acc0())->0.ind, //#C02 indirect calls
        ret.3 == walk(bytes@, address as int, v7, tags@, 0, acc0())->0.sp, //#C04 stack pointer modification
        ret.4 == walk(bytes@, address as int, v7, tags@, 0, acc0())->0.stack, //#C04 stack usage
//@@proof analyze.entry
    let ghost mut g = acc0();
    let ghost mut gpos = 0int;
    proof { if bytes@.len() / 2 == 0 { lemma_walk_end(bytes@, address as int, v7, tags@, 0, g); } }
//@@inv analyze.0
    invariant_except_break
        halfwords.pos() == gpos, //#C03 the decoder is at the instruction boundary the architecture says
    invariant
        bytes@.len() < 0x4000_0000,
        address + bytes@.len() <= u32::MAX,
        tags_ok(tags@),
        halfwords.bytes() == bytes@,
        0 <= gpos <= bytes@.len() / 2,
        (match g.stack { Some(s) => s <= gpos * 0x1_0000_0000, None => true }),
        walk(bytes@, address as int, v7, tags@, 0, acc0()) is Some,
        walk(bytes@, address as int, v7, tags@, 0, acc0()) == walk(bytes@, address as int, v7, tags@, gpos, g),
        gpos >= bytes@.len() / 2 ==> walk(bytes@, address as int, v7, tags@, gpos, g) == Some(g),
        bls@ =~= g.bls, //#C01 every BL so far, with its target, in order
        bs@ =~= g.bs, //#C01 every B so far, with its target, in order
        indirect == g.ind, //#C02 an indirect call was seen iff there was one
        modifies_sp == g.sp, //#C04 SP-modifying instructions are recognised
        stack == g.stack, //#C04 the stack usage is the sum of the allocations
    ensures
        gpos >= bytes@.len() / 2, //#C03 the whole function was decoded
    decreases bytes@.len() / 2 - halfwords.pos(),
//@@proof analyze.0.top
    broadcast use {arith, orchains};
    proof {
        lemma_walk(bytes@, address as int, v7, tags@, gpos, g);
        lemma2_to64();
        if gpos < bytes@.len() / 2 {
            let st = step(bytes@, address as int, v7, tags@, gpos, g)->0;
            gpos = st.0;
            g = st.1;
            if gpos >= bytes@.len() / 2 { lemma_walk_end(bytes@, address as int, v7, tags@, gpos, g); }
        }
    }
//@@inv analyze.1
    invariant
        needle < next <= tags@.len(),
        next_thumb(tags@, needle + 1) == next_thumb(tags@, next as int),
    decreases tags@.len() - next,
//@@inv analyze.2
    invariant
        bytes@.len() < 0x4000_0000,
        halfwords.bytes() == bytes@,
        halfwords.pos() <= bytes@.len() / 2,
        0 <= i < bytes@.len() as int / 2,
        halfwords.pos() == vx_min(bytes@.len() as int / 2, i + 1 + vx_it.index@),
//@@spec sign_extend
    requires 1 <= nbits <= 31, 0 <= x, x < pow2(nbits as nat) as int,
    ensures ret == sx(x as int, pow2(nbits as nat) as int),
//@@spec thumb_expand_imm
    requires imm12 < 4096,
    ensures ret == expand_imm(imm12 as int),
//@@proof sign_extend.entry
    proof { lemma_sx(x, nbits); }
//@@proof thumb_expand_imm.entry
    broadcast use {expand, lemma_rotr};
    proof { lemma_expand(imm12); }
//@@code
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::bits::*;
verus! {

//@@insert Tag

// ------------------------------------------------------------------ the architecture, from the ARM
// Architecture Reference Manuals (DDI 0403E.b / DDI 0419D), written without looking at the decoder

#[verifier::opaque]
pub open spec fn bb(b: u8, k: int) -> bool { (b >> (k as u8)) & 1 == 1 }
/// bit k of the halfword stored little endian in h
pub open spec fn hb(h: Seq<u8>, k: int) -> bool { if k < 8 { bb(h[0], k) } else { bb(h[1], k - 8) } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// bits k+n-1..k of a byte, as a number
#[verifier::opaque]
pub open spec fn fld(b: u8, k: int, n: int) -> int { ((b >> (k as u8)) & (if n == 1 { 1u8 } else if n == 2 { 3 } else if n == 3 { 7 } else if n == 4 { 15 } else if n == 5 { 31 } else if n == 6 { 63 } else if n == 7 { 127 } else { 255 })) as int }
/// bits n-1..0 of a byte, as a number
pub open spec fn lo(b: u8, n: int) -> int { fld(b, 0, n) }
/// how many of the bits n-1..0 of a byte are set
#[verifier::opaque]
pub open spec fn pc(b: u8, n: int) -> int {
    b2i(bb(b,0)) + (if n > 1 { b2i(bb(b,1)) } else { 0 }) + (if n > 2 { b2i(bb(b,2)) } else { 0 }) + (if n > 3 { b2i(bb(b,3)) } else { 0 })
    + (if n > 4 { b2i(bb(b,4)) } else { 0 }) + (if n > 5 { b2i(bb(b,5)) } else { 0 }) + (if n > 6 { b2i(bb(b,6)) } else { 0 }) + (if n > 7 { b2i(bb(b,7)) } else { 0 })
}
/// Rn (or Rd) in bits [3:0] is SP
pub open spec fn low_sp(b: u8) -> bool { bb(b,3) && bb(b,2) && !bb(b,1) && bb(b,0) }

pub struct Acc { pub bls: Seq<i32>, pub bs: Seq<i32>, pub ind: bool, pub sp: bool, pub stack: Option<u64> }
pub open spec fn acc0() -> Acc { Acc { bls: Seq::empty(), bs: Seq::empty(), ind: false, sp: false, stack: Some(0) } }

/// A5.1: a 32-bit instruction iff bits [15:11] are 0b11101, 0b11110 or 0b11111
pub open spec fn is_wide(h: Seq<u8>) -> bool { hb(h,15) && hb(h,14) && hb(h,13) && (hb(h,12) || hb(h,11)) }

/// 16-bit encodings the manuals leave undefined / unpredictable
pub open spec fn undefined16(h: Seq<u8>, v7: bool) -> bool {
    // BX / BLX: bits [2:0] should be zero
    ||| (!hb(h,15) && hb(h,14) && !hb(h,13) && !hb(h,12) && !hb(h,11) && hb(h,10) && hb(h,9) && hb(h,8) && (hb(h,2) || hb(h,1) || hb(h,0)))
    // miscellaneous 16-bit instructions (A5.2.5)
    ||| (hb(h,15) && !hb(h,14) && hb(h,13) && hb(h,12) && ({
        // CBZ / CBNZ exist on ARMv7-M only
        ||| (!hb(h,10) && hb(h,8) && !v7)
        // 1011 0110: only CPS; 1011 0111: nothing
        ||| (!hb(h,11) && hb(h,10) && hb(h,9) && !hb(h,8) && !(!hb(h,7) && hb(h,6) && hb(h,5) && !hb(h,3) && !hb(h,2)))
        ||| (!hb(h,11) && hb(h,10) && hb(h,9) && hb(h,8))
        // 1011 1000: nothing
        ||| (hb(h,11) && !hb(h,10) && !hb(h,9) && !hb(h,8))
        // 1011 1010 10: nothing
        ||| (hb(h,11) && !hb(h,10) && hb(h,9) && !hb(h,8) && hb(h,7) && !hb(h,6))
        // 1011 1111: on ARMv6-M only the five hints
        ||| (!v7 && hb(h,11) && hb(h,10) && hb(h,9) && hb(h,8) && !(
            !hb(h,7) && !hb(h,3) && !hb(h,2) && !hb(h,1) && !hb(h,0)
            && (!hb(h,6) || (!hb(h,5) && !hb(h,4)))))
    }))
}

/// 32-bit encodings outside the model: UNPREDICTABLE ones, and on ARMv6-M everything but
/// the branch / miscellaneous-control group (BL, MSR, MRS, barriers, UDF)
pub open spec fn undefined32(h: Seq<u8>, g: Seq<u8>, v7: bool) -> bool {
    ||| (!v7 && !(hb(h,12) && !hb(h,11) && hb(g,15)))
    // STMDB with SP or PC in the list, ARM ARM A7.7.157: should be zero
    ||| (v7 && is_stmdb_wb(h) && (hb(g,15) || hb(g,13)))
}

/// value v (already a multiple of 2 where applicable), to be sign extended from m = 2^nbits
pub open spec fn sx(v: int, m: int) -> int { if 2 * v >= m { v - m } else { v } }

pub open spec fn branch(acc: Acc, off: int, len: int) -> Acc {
    Acc { bs: acc.bs.push(off as i32), stack: if 0 <= off < len { None } else { acc.stack }, ..acc }
}
pub open spec fn grow(acc: Acc, n: int) -> Acc {
    Acc { sp: true, stack: match acc.stack { Some(s) => Some((s + n) as u64), None => None }, ..acc }
}

/// the architectural PC reads as the instruction address + 4; offsets are relative to the function
pub open spec fn exec16(h: Seq<u8>, i: int, len: int, acc: Acc) -> Acc {
    let op4 = (hb(h,15), hb(h,14), hb(h,13), hb(h,12));
    if op4 == (true, true, false, true) && !(hb(h,11) && hb(h,10) && hb(h,9)) {
        // B<c> T1: cond != 111x, imm32 = SignExtend(imm8:'0')
        branch(acc, sx(2 * (h[0] as int), 512) + 2 * i + 4, len)
    } else if op4 == (true, true, true, false) && !hb(h,11) {
        // B T2: imm32 = SignExtend(imm11:'0')
        branch(acc, sx(2 * (lo(h[1], 3) * 256 + h[0] as int), 4096) + 2 * i + 4, len)
    } else if op4 == (false, true, false, false) && !hb(h,11) && hb(h,10) && hb(h,9) && hb(h,8) {
        // BLX <Rm> (bit 7 set) is a call, BX <Rm> is one unless it is the return `bx lr`
        if hb(h,7) || !(hb(h,6) && hb(h,5) && hb(h,4) && !hb(h,3)) { Acc { ind: true, ..acc } } else { acc }
    } else if op4 == (true, false, true, true) && !hb(h,11) && hb(h,10) && !hb(h,9) {
        // PUSH {register_list, lr}
        grow(acc, 4 * (pc(h[0], 8) + b2i(hb(h,8))))
    } else if op4 == (true, false, true, true) && !hb(h,11) && !hb(h,10) && !hb(h,9) && !hb(h,8) && hb(h,7) {
        // SUB SP, SP, #imm7:'00'
        grow(acc, 4 * lo(h[0], 7))
    } else if op4 == (true, false, true, true) && !hb(h,10) && hb(h,8) {
        // CBZ / CBNZ: imm32 = ZeroExtend(i:imm5:'0'); an `if` inside the function
        Acc { stack: if 64 * b2i(hb(h,9)) + 2 * fld(h[0], 3, 5) + 2 * i + 4 < len { None } else { acc.stack }, ..acc }
    } else {
        acc
    }
}

pub open spec fn is_stmdb_wb(h: Seq<u8>) -> bool {
    hb(h,15) && hb(h,14) && hb(h,13) && !hb(h,12) && hb(h,11) && !hb(h,10) && !hb(h,9)
    && hb(h,8) && !hb(h,7) && !hb(h,6) && hb(h,5) && !hb(h,4)
}
/// STMDB SP!, {registers}
pub open spec fn is_stmdb(h: Seq<u8>) -> bool { is_stmdb_wb(h) && low_sp(h[0]) }
/// SUB{S}.W Rd, SP, #const with Rd = SP
pub open spec fn is_subw2(h: Seq<u8>, g: Seq<u8>) -> bool {
    hb(h,15) && hb(h,14) && hb(h,13) && hb(h,12) && !hb(h,11) && !hb(h,9)
    && hb(h,8) && hb(h,7) && !hb(h,6) && hb(h,5) && low_sp(h[0])
    && !hb(g,15) && low_sp(g[1])
}
/// SUBW Rd, SP, #imm12 with Rd = SP
pub open spec fn is_subw3(h: Seq<u8>, g: Seq<u8>) -> bool {
    hb(h,15) && hb(h,14) && hb(h,13) && hb(h,12) && !hb(h,11) && hb(h,9)
    && !hb(h,8) && hb(h,7) && !hb(h,6) && hb(h,5) && !hb(h,4) && low_sp(h[0])
    && !hb(g,15) && low_sp(g[1])
}
/// VPUSH: 1110 1101 0D10 1101 | Vd 101x imm8
pub open spec fn is_vpush(h: Seq<u8>, g: Seq<u8>) -> bool {
    hb(h,15) && hb(h,14) && hb(h,13) && !hb(h,12) && hb(h,11) && hb(h,10) && !hb(h,9)
    && hb(h,8) && !hb(h,7) && hb(h,5) && !hb(h,4) && low_sp(h[0])
    && hb(g,11) && !hb(g,10) && hb(g,9)
}
/// branches and miscellaneous control: 11110 | 1
pub open spec fn is_branch_grp(h: Seq<u8>, g: Seq<u8>) -> bool {
    hb(h,15) && hb(h,14) && hb(h,13) && hb(h,12) && !hb(h,11) && hb(g,15)
}
pub open spec fn bcond(h: Seq<u8>) -> int { 8 * b2i(hb(h,9)) + 4 * b2i(hb(h,8)) + 2 * b2i(hb(h,7)) + b2i(hb(h,6)) }
/// STR Rt, [SP, #-imm8]! and STR Rt, [SP], #-imm8
pub open spec fn is_str4(h: Seq<u8>, g: Seq<u8>) -> bool {
    hb(h,15) && hb(h,14) && hb(h,13) && hb(h,12) && hb(h,11) && !hb(h,10) && !hb(h,9)
    && !hb(h,8) && !hb(h,7) && hb(h,6) && !hb(h,5) && !hb(h,4) && low_sp(h[0])
    && hb(g,11) && !hb(g,9) && hb(g,8)
}

/// B T3: SignExtend(S:J2:J1:imm6:imm11:'0', 21 bits)
pub open spec fn off_t3(h: Seq<u8>, g: Seq<u8>) -> int {
    sx(b2i(hb(h,10)) * 0x10_0000 + b2i(hb(g,11)) * 0x8_0000 + b2i(hb(g,13)) * 0x4_0000
        + lo(h[0], 6) * 0x1000 + (lo(g[1], 3) * 256 + g[0] as int) * 2, 0x20_0000)
}
/// B T4 / BL T1: I1 = NOT(J1 EOR S), I2 = NOT(J2 EOR S); SignExtend(S:I1:I2:imm10:imm11:'0', 25 bits)
pub open spec fn off_t4(h: Seq<u8>, g: Seq<u8>) -> int {
    sx(b2i(hb(h,10)) * 0x100_0000 + b2i(hb(g,13) == hb(h,10)) * 0x80_0000 + b2i(hb(g,11) == hb(h,10)) * 0x40_0000
        + (lo(h[1], 2) * 256 + h[0] as int) * 0x1000 + (lo(g[1], 3) * 256 + g[0] as int) * 2, 0x200_0000)
}
/// i:imm3:imm8
pub open spec fn imm12(h: Seq<u8>, g: Seq<u8>) -> int {
    b2i(hb(h,10)) * 2048 + fld(g[1], 4, 3) * 256 + g[0] as int
}
/// A5.3.2 ThumbExpandImm
pub open spec fn expand_imm(v: int) -> int {
    let imm8 = v % 256;
    if v / 1024 == 0 {
        if v / 256 == 0 { imm8 }
        else if v / 256 == 1 { imm8 * 0x1_0001 }
        else if v / 256 == 2 { imm8 * 0x100_0100 }
        else { imm8 * 0x101_0101 }
    } else {
        // ROR('1':imm12[6:0], imm12[11:7]); the rotation is at least 8 so no bit wraps
        (128 + v % 128) * pow2((32 - v / 128) as nat)
    }
}

pub open spec fn exec32(h: Seq<u8>, g: Seq<u8>, v7: bool, i: int, len: int, acc: Acc) -> Acc {
    if is_branch_grp(h, g) && hb(g,14) && hb(g,12) {
        Acc { bls: acc.bls.push((off_t4(h, g) + 2 * i + 4) as i32), ..acc }
    } else if !v7 {
        acc
    } else if is_branch_grp(h, g) && !hb(g,14) && hb(g,12) {
        branch(acc, off_t4(h, g) + 2 * i + 4, len)
    } else if is_branch_grp(h, g) && !hb(g,14) && !hb(g,12) && bcond(h) < 14 {
        branch(acc, off_t3(h, g) + 2 * i + 4, len)
    } else if is_stmdb(h) {
        grow(acc, 4 * (pc(g[0], 8) + pc(g[1], 5) + b2i(hb(g,14))))
    } else if is_subw2(h, g) {
        grow(acc, expand_imm(imm12(h, g)))
    } else if is_subw3(h, g) {
        grow(acc, imm12(h, g))
    } else if is_vpush(h, g) {
        grow(acc, 4 * (g[0] as int))
    } else if is_str4(h, g) {
        grow(acc, g[0] as int)
    } else {
        acc
    }
}

// mapping symbols (ARM ELF ABI 4.5.5): `$d` starts data, `$t` starts Thumb code
pub open spec fn tags_ok(tags: Seq<(u32, Tag)>) -> bool {
    forall|a: int, b: int| 0 <= a < b < tags.len() ==> (#[trigger] tags[a]).0 < (#[trigger] tags[b]).0
}
pub open spec fn tag_at(tags: Seq<(u32, Tag)>, k: int, a: int) -> bool { 0 <= k < tags.len() && tags[k].0 == a }
pub open spec fn data_at(tags: Seq<(u32, Tag)>, a: int) -> Option<int> {
    if exists|k: int| tag_at(tags, k, a) && tags[k].1 == Tag::Data { Some(choose|k: int| tag_at(tags, k, a) && tags[k].1 == Tag::Data) } else { None }
}
/// address of the first Thumb tag at or after index k
pub open spec fn next_thumb(tags: Seq<(u32, Tag)>, k: int) -> Option<int>
    decreases tags.len() - k
{
    if k < 0 || k >= tags.len() { None }
    else if tags[k].1 == Tag::Thumb { Some(tags[k].0 as int) }
    else { next_thumb(tags, k + 1) }
}
/// number of halfwords from address a up to the tag at address e
pub open spec fn skip(a: int, e: int) -> int { vx_max(1, (e - a) / 2) }
pub open spec fn vx_max(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn vx_min(a: int, b: int) -> int { if a <= b { a } else { b } }

/// one instruction (or data section) at halfword i: where the next one starts, and what it did;
/// None = not well-formed Thumb code
pub open spec fn step(b: Seq<u8>, addr: int, v7: bool, tags: Seq<(u32, Tag)>, i: int, acc: Acc) -> Option<(int, Acc)> {
    let n = b.len() as int / 2;
    if data_at(tags, addr + 2 * i) is Some {
        match next_thumb(tags, data_at(tags, addr + 2 * i)->0 + 1) {
            Some(e) => Some((vx_min(n, i + skip(addr + 2 * i, e)), acc)),
            None => Some((n, acc)),
        }
    } else {
        let h = b.subrange(2 * i, 2 * i + 2);
        if !is_wide(h) {
            if undefined16(h, v7) { None } else { Some((i + 1, exec16(h, i, b.len() as int, acc))) }
        } else if i + 1 >= n { None }
        else {
            let g = b.subrange(2 * i + 2, 2 * i + 4);
            if undefined32(h, g, v7) { None } else { Some((i + 2, exec32(h, g, v7, i, b.len() as int, acc))) }
        }
    }
}
/// disassemble from halfword i; None = not well-formed Thumb code
#[verifier::opaque]
pub open spec fn walk(b: Seq<u8>, addr: int, v7: bool, tags: Seq<(u32, Tag)>, i: int, acc: Acc) -> Option<Acc>
    decreases (if i < b.len() as int / 2 { b.len() as int / 2 - i } else { 0 })
{
    if i < 0 || i >= b.len() as int / 2 { Some(acc) }
    else {
        match step(b, addr, v7, tags, i, acc) {
            Some(s) => walk(b, addr, v7, tags, s.0, s.1),
            None => None,
        }
    }
}

/// one step of `walk`
pub proof fn lemma_walk(b: Seq<u8>, addr: int, v7: bool, tags: Seq<(u32, Tag)>, i: int, acc: Acc)
    requires tags_ok(tags), walk(b, addr, v7, tags, i, acc) is Some, 0 <= i,
    ensures
        i < b.len() as int / 2 ==> {
            let h = b.subrange(2 * i, 2 * i + 2);
            let g = b.subrange(2 * i + 2, 2 * i + 4);
            let s = step(b, addr, v7, tags, i, acc);
            &&& s is Some
            &&& i < (s->0).0 <= b.len() as int / 2
            &&& walk(b, addr, v7, tags, i, acc) == walk(b, addr, v7, tags, (s->0).0, (s->0).1)
            &&& forall|k: int| #[trigger] tag_at(tags, k, addr + 2 * i) && tags[k].1 == Tag::Data ==>
                data_at(tags, addr + 2 * i) == Some(k)
            &&& (forall|k: int| #[trigger] tag_at(tags, k, addr + 2 * i) ==> tags[k].1 != Tag::Data) ==>
                data_at(tags, addr + 2 * i) is None
        },
{
    reveal(walk);
    let a = addr + 2 * i;
    assert forall|k: int| #[trigger] tag_at(tags, k, a) && tags[k].1 == Tag::Data implies data_at(tags, a) == Some(k) by {
        let k2 = data_at(tags, a)->0;
        assert(tag_at(tags, k2, a));
        if k2 < k { assert(tags[k2].0 < tags[k].0); }
        if k < k2 { assert(tags[k].0 < tags[k2].0); }
    }
    if data_at(tags, a) is Some {
        let k = data_at(tags, a)->0;
        assert(tag_at(tags, k, a) && tags[k].1 == Tag::Data);
    }
}
/// past the end nothing happens
pub proof fn lemma_walk_end(b: Seq<u8>, addr: int, v7: bool, tags: Seq<(u32, Tag)>, i: int, acc: Acc)
    requires i >= b.len() as int / 2,
    ensures walk(b, addr, v7, tags, i, acc) == Some(acc),
{ reveal(walk); }

// ------------------------------------------------------------------ arithmetic lemmas (all proved)
// GEN-BEGIN (gen_thumb_lemmas.py)
pub broadcast proof fn and_u8_1(x: u8) ensures #[trigger] (x & 1) == fld(x, 0, 1), fld(x, 0, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 1) == (x & 1) && (x & 1) <= 1) by (bit_vector); }
pub broadcast proof fn and_u16_1(x: u8) ensures #[trigger] ((x as u16) & 1) == fld(x, 0, 1), fld(x, 0, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 1) == ((x as u16) & 1) && ((x >> 0u8) & 1) <= 1) by (bit_vector); }
pub broadcast proof fn and_u8_2(x: u8) ensures #[trigger] (x & 3) == fld(x, 0, 2), fld(x, 0, 2) <= 3 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 3) == (x & 3) && (x & 3) <= 3) by (bit_vector); }
pub broadcast proof fn and_u16_2(x: u8) ensures #[trigger] ((x as u16) & 3) == fld(x, 0, 2), fld(x, 0, 2) <= 3 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 3) == ((x as u16) & 3) && ((x >> 0u8) & 3) <= 3) by (bit_vector); }
pub broadcast proof fn and_u8_3(x: u8) ensures #[trigger] (x & 7) == fld(x, 0, 3), fld(x, 0, 3) <= 7 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 7) == (x & 7) && (x & 7) <= 7) by (bit_vector); }
pub broadcast proof fn and_u16_3(x: u8) ensures #[trigger] ((x as u16) & 7) == fld(x, 0, 3), fld(x, 0, 3) <= 7 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 7) == ((x as u16) & 7) && ((x >> 0u8) & 7) <= 7) by (bit_vector); }
pub broadcast proof fn and_u8_4(x: u8) ensures #[trigger] (x & 15) == fld(x, 0, 4), fld(x, 0, 4) <= 15 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 15) == (x & 15) && (x & 15) <= 15) by (bit_vector); }
pub broadcast proof fn and_u16_4(x: u8) ensures #[trigger] ((x as u16) & 15) == fld(x, 0, 4), fld(x, 0, 4) <= 15 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 15) == ((x as u16) & 15) && ((x >> 0u8) & 15) <= 15) by (bit_vector); }
pub broadcast proof fn and_u8_5(x: u8) ensures #[trigger] (x & 31) == fld(x, 0, 5), fld(x, 0, 5) <= 31 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 31) == (x & 31) && (x & 31) <= 31) by (bit_vector); }
pub broadcast proof fn and_u16_5(x: u8) ensures #[trigger] ((x as u16) & 31) == fld(x, 0, 5), fld(x, 0, 5) <= 31 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 31) == ((x as u16) & 31) && ((x >> 0u8) & 31) <= 31) by (bit_vector); }
pub broadcast proof fn and_u8_6(x: u8) ensures #[trigger] (x & 63) == fld(x, 0, 6), fld(x, 0, 6) <= 63 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 63) == (x & 63) && (x & 63) <= 63) by (bit_vector); }
pub broadcast proof fn and_u16_6(x: u8) ensures #[trigger] ((x as u16) & 63) == fld(x, 0, 6), fld(x, 0, 6) <= 63 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 63) == ((x as u16) & 63) && ((x >> 0u8) & 63) <= 63) by (bit_vector); }
pub broadcast proof fn and_u8_7(x: u8) ensures #[trigger] (x & 127) == fld(x, 0, 7), fld(x, 0, 7) <= 127 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 127) == (x & 127) && (x & 127) <= 127) by (bit_vector); }
pub broadcast proof fn and_u16_7(x: u8) ensures #[trigger] ((x as u16) & 127) == fld(x, 0, 7), fld(x, 0, 7) <= 127 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 127) == ((x as u16) & 127) && ((x >> 0u8) & 127) <= 127) by (bit_vector); }
pub broadcast proof fn and_u8_8(x: u8) ensures #[trigger] (x & 255) == x { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x & 255) == x) by (bit_vector); }
pub broadcast proof fn and_u16_8(x: u8) ensures #[trigger] ((x as u16) & 255) == x { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x as u16) & 255) == x as u16) by (bit_vector); }
pub broadcast proof fn shr_u8_1(x: u8) ensures #[trigger] (x >> 1) == fld(x, 1, 7), fld(x, 1, 7) <= 127 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x >> 1) == ((x >> 1u8) & 127) && (x >> 1) <= 127) by (bit_vector); }
pub broadcast proof fn bit_u8_1(x: u8) ensures #[trigger] (x & 2) == 2 * b2i(bb(x, 1)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x & 2) == (if (x >> 1u8) & 1 == 1 { 2u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn fld_u8_1_1(x: u8) ensures #[trigger] ((x >> 1) & 1) == fld(x, 1, 1), fld(x, 1, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 1) & 1) == ((x >> 1u8) & 1) && ((x >> 1) & 1) <= 1) by (bit_vector); }
pub broadcast proof fn fld_u8_1_2(x: u8) ensures #[trigger] ((x >> 1) & 3) == fld(x, 1, 2), fld(x, 1, 2) <= 3 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 1) & 3) == ((x >> 1u8) & 3) && ((x >> 1) & 3) <= 3) by (bit_vector); }
pub broadcast proof fn fld_u8_1_3(x: u8) ensures #[trigger] ((x >> 1) & 7) == fld(x, 1, 3), fld(x, 1, 3) <= 7 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 1) & 7) == ((x >> 1u8) & 7) && ((x >> 1) & 7) <= 7) by (bit_vector); }
pub broadcast proof fn fld_u8_1_4(x: u8) ensures #[trigger] ((x >> 1) & 15) == fld(x, 1, 4), fld(x, 1, 4) <= 15 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 1) & 15) == ((x >> 1u8) & 15) && ((x >> 1) & 15) <= 15) by (bit_vector); }
pub broadcast proof fn fld_u8_1_5(x: u8) ensures #[trigger] ((x >> 1) & 31) == fld(x, 1, 5), fld(x, 1, 5) <= 31 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 1) & 31) == ((x >> 1u8) & 31) && ((x >> 1) & 31) <= 31) by (bit_vector); }
pub broadcast proof fn fld_u8_1_6(x: u8) ensures #[trigger] ((x >> 1) & 63) == fld(x, 1, 6), fld(x, 1, 6) <= 63 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 1) & 63) == ((x >> 1u8) & 63) && ((x >> 1) & 63) <= 63) by (bit_vector); }
pub broadcast proof fn shr_u8_2(x: u8) ensures #[trigger] (x >> 2) == fld(x, 2, 6), fld(x, 2, 6) <= 63 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x >> 2) == ((x >> 2u8) & 63) && (x >> 2) <= 63) by (bit_vector); }
pub broadcast proof fn bit_u8_2(x: u8) ensures #[trigger] (x & 4) == 4 * b2i(bb(x, 2)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x & 4) == (if (x >> 2u8) & 1 == 1 { 4u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn fld_u8_2_1(x: u8) ensures #[trigger] ((x >> 2) & 1) == fld(x, 2, 1), fld(x, 2, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 2) & 1) == ((x >> 2u8) & 1) && ((x >> 2) & 1) <= 1) by (bit_vector); }
pub broadcast proof fn fld_u8_2_2(x: u8) ensures #[trigger] ((x >> 2) & 3) == fld(x, 2, 2), fld(x, 2, 2) <= 3 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 2) & 3) == ((x >> 2u8) & 3) && ((x >> 2) & 3) <= 3) by (bit_vector); }
pub broadcast proof fn fld_u8_2_3(x: u8) ensures #[trigger] ((x >> 2) & 7) == fld(x, 2, 3), fld(x, 2, 3) <= 7 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 2) & 7) == ((x >> 2u8) & 7) && ((x >> 2) & 7) <= 7) by (bit_vector); }
pub broadcast proof fn fld_u8_2_4(x: u8) ensures #[trigger] ((x >> 2) & 15) == fld(x, 2, 4), fld(x, 2, 4) <= 15 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 2) & 15) == ((x >> 2u8) & 15) && ((x >> 2) & 15) <= 15) by (bit_vector); }
pub broadcast proof fn fld_u8_2_5(x: u8) ensures #[trigger] ((x >> 2) & 31) == fld(x, 2, 5), fld(x, 2, 5) <= 31 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 2) & 31) == ((x >> 2u8) & 31) && ((x >> 2) & 31) <= 31) by (bit_vector); }
pub broadcast proof fn shr_u8_3(x: u8) ensures #[trigger] (x >> 3) == fld(x, 3, 5), fld(x, 3, 5) <= 31 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x >> 3) == ((x >> 3u8) & 31) && (x >> 3) <= 31) by (bit_vector); }
pub broadcast proof fn bit_u8_3(x: u8) ensures #[trigger] (x & 8) == 8 * b2i(bb(x, 3)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x & 8) == (if (x >> 3u8) & 1 == 1 { 8u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn fld_u8_3_1(x: u8) ensures #[trigger] ((x >> 3) & 1) == fld(x, 3, 1), fld(x, 3, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 3) & 1) == ((x >> 3u8) & 1) && ((x >> 3) & 1) <= 1) by (bit_vector); }
pub broadcast proof fn fld_u8_3_2(x: u8) ensures #[trigger] ((x >> 3) & 3) == fld(x, 3, 2), fld(x, 3, 2) <= 3 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 3) & 3) == ((x >> 3u8) & 3) && ((x >> 3) & 3) <= 3) by (bit_vector); }
pub broadcast proof fn fld_u8_3_3(x: u8) ensures #[trigger] ((x >> 3) & 7) == fld(x, 3, 3), fld(x, 3, 3) <= 7 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 3) & 7) == ((x >> 3u8) & 7) && ((x >> 3) & 7) <= 7) by (bit_vector); }
pub broadcast proof fn fld_u8_3_4(x: u8) ensures #[trigger] ((x >> 3) & 15) == fld(x, 3, 4), fld(x, 3, 4) <= 15 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 3) & 15) == ((x >> 3u8) & 15) && ((x >> 3) & 15) <= 15) by (bit_vector); }
pub broadcast proof fn shr_u8_4(x: u8) ensures #[trigger] (x >> 4) == fld(x, 4, 4), fld(x, 4, 4) <= 15 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x >> 4) == ((x >> 4u8) & 15) && (x >> 4) <= 15) by (bit_vector); }
pub broadcast proof fn bit_u8_4(x: u8) ensures #[trigger] (x & 16) == 16 * b2i(bb(x, 4)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x & 16) == (if (x >> 4u8) & 1 == 1 { 16u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn fld_u8_4_1(x: u8) ensures #[trigger] ((x >> 4) & 1) == fld(x, 4, 1), fld(x, 4, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 4) & 1) == ((x >> 4u8) & 1) && ((x >> 4) & 1) <= 1) by (bit_vector); }
pub broadcast proof fn fld_u8_4_2(x: u8) ensures #[trigger] ((x >> 4) & 3) == fld(x, 4, 2), fld(x, 4, 2) <= 3 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 4) & 3) == ((x >> 4u8) & 3) && ((x >> 4) & 3) <= 3) by (bit_vector); }
pub broadcast proof fn fld_u8_4_3(x: u8) ensures #[trigger] ((x >> 4) & 7) == fld(x, 4, 3), fld(x, 4, 3) <= 7 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 4) & 7) == ((x >> 4u8) & 7) && ((x >> 4) & 7) <= 7) by (bit_vector); }
pub broadcast proof fn shr_u8_5(x: u8) ensures #[trigger] (x >> 5) == fld(x, 5, 3), fld(x, 5, 3) <= 7 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x >> 5) == ((x >> 5u8) & 7) && (x >> 5) <= 7) by (bit_vector); }
pub broadcast proof fn bit_u8_5(x: u8) ensures #[trigger] (x & 32) == 32 * b2i(bb(x, 5)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x & 32) == (if (x >> 5u8) & 1 == 1 { 32u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn fld_u8_5_1(x: u8) ensures #[trigger] ((x >> 5) & 1) == fld(x, 5, 1), fld(x, 5, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 5) & 1) == ((x >> 5u8) & 1) && ((x >> 5) & 1) <= 1) by (bit_vector); }
pub broadcast proof fn fld_u8_5_2(x: u8) ensures #[trigger] ((x >> 5) & 3) == fld(x, 5, 2), fld(x, 5, 2) <= 3 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 5) & 3) == ((x >> 5u8) & 3) && ((x >> 5) & 3) <= 3) by (bit_vector); }
pub broadcast proof fn shr_u8_6(x: u8) ensures #[trigger] (x >> 6) == fld(x, 6, 2), fld(x, 6, 2) <= 3 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x >> 6) == ((x >> 6u8) & 3) && (x >> 6) <= 3) by (bit_vector); }
pub broadcast proof fn bit_u8_6(x: u8) ensures #[trigger] (x & 64) == 64 * b2i(bb(x, 6)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x & 64) == (if (x >> 6u8) & 1 == 1 { 64u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn fld_u8_6_1(x: u8) ensures #[trigger] ((x >> 6) & 1) == fld(x, 6, 1), fld(x, 6, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 6) & 1) == ((x >> 6u8) & 1) && ((x >> 6) & 1) <= 1) by (bit_vector); }
pub broadcast proof fn shr_u8_7(x: u8) ensures #[trigger] (x >> 7) == fld(x, 7, 1), fld(x, 7, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x >> 7) == ((x >> 7u8) & 1) && (x >> 7) <= 1) by (bit_vector); }
pub broadcast proof fn bit_u8_7(x: u8) ensures #[trigger] (x & 128) == 128 * b2i(bb(x, 7)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x & 128) == (if (x >> 7u8) & 1 == 1 { 128u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_0_1(x: u8) ensures #[trigger] fld(x, 0, 1) == 1 * b2i(bb(x, 0)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 1) == (if (x >> 0u8) & 1 == 1 { 1u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_1_1(x: u8) ensures #[trigger] fld(x, 1, 1) == 1 * b2i(bb(x, 1)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 1u8) & 1) == (if (x >> 1u8) & 1 == 1 { 1u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_2_1(x: u8) ensures #[trigger] fld(x, 2, 1) == 1 * b2i(bb(x, 2)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 2u8) & 1) == (if (x >> 2u8) & 1 == 1 { 1u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_3_1(x: u8) ensures #[trigger] fld(x, 3, 1) == 1 * b2i(bb(x, 3)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 3u8) & 1) == (if (x >> 3u8) & 1 == 1 { 1u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_4_1(x: u8) ensures #[trigger] fld(x, 4, 1) == 1 * b2i(bb(x, 4)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 4u8) & 1) == (if (x >> 4u8) & 1 == 1 { 1u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_5_1(x: u8) ensures #[trigger] fld(x, 5, 1) == 1 * b2i(bb(x, 5)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 5u8) & 1) == (if (x >> 5u8) & 1 == 1 { 1u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_6_1(x: u8) ensures #[trigger] fld(x, 6, 1) == 1 * b2i(bb(x, 6)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 6u8) & 1) == (if (x >> 6u8) & 1 == 1 { 1u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_7_1(x: u8) ensures #[trigger] fld(x, 7, 1) == 1 * b2i(bb(x, 7)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 7u8) & 1) == (if (x >> 7u8) & 1 == 1 { 1u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_0_2(x: u8) ensures #[trigger] fld(x, 0, 2) == 1 * b2i(bb(x, 0)) + 2 * b2i(bb(x, 1)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 3) == (if (x >> 0u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 1u8) & 1 == 1 { 2u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_1_2(x: u8) ensures #[trigger] fld(x, 1, 2) == 1 * b2i(bb(x, 1)) + 2 * b2i(bb(x, 2)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 1u8) & 3) == (if (x >> 1u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 2u8) & 1 == 1 { 2u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_2_2(x: u8) ensures #[trigger] fld(x, 2, 2) == 1 * b2i(bb(x, 2)) + 2 * b2i(bb(x, 3)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 2u8) & 3) == (if (x >> 2u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 3u8) & 1 == 1 { 2u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_3_2(x: u8) ensures #[trigger] fld(x, 3, 2) == 1 * b2i(bb(x, 3)) + 2 * b2i(bb(x, 4)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 3u8) & 3) == (if (x >> 3u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 4u8) & 1 == 1 { 2u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_4_2(x: u8) ensures #[trigger] fld(x, 4, 2) == 1 * b2i(bb(x, 4)) + 2 * b2i(bb(x, 5)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 4u8) & 3) == (if (x >> 4u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 5u8) & 1 == 1 { 2u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_5_2(x: u8) ensures #[trigger] fld(x, 5, 2) == 1 * b2i(bb(x, 5)) + 2 * b2i(bb(x, 6)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 5u8) & 3) == (if (x >> 5u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 6u8) & 1 == 1 { 2u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_6_2(x: u8) ensures #[trigger] fld(x, 6, 2) == 1 * b2i(bb(x, 6)) + 2 * b2i(bb(x, 7)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 6u8) & 3) == (if (x >> 6u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 7u8) & 1 == 1 { 2u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_0_4(x: u8) ensures #[trigger] fld(x, 0, 4) == 1 * b2i(bb(x, 0)) + 2 * b2i(bb(x, 1)) + 4 * b2i(bb(x, 2)) + 8 * b2i(bb(x, 3)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 0u8) & 15) == (if (x >> 0u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 1u8) & 1 == 1 { 2u8 } else { 0u8 }) + (if (x >> 2u8) & 1 == 1 { 4u8 } else { 0u8 }) + (if (x >> 3u8) & 1 == 1 { 8u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_1_4(x: u8) ensures #[trigger] fld(x, 1, 4) == 1 * b2i(bb(x, 1)) + 2 * b2i(bb(x, 2)) + 4 * b2i(bb(x, 3)) + 8 * b2i(bb(x, 4)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 1u8) & 15) == (if (x >> 1u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 2u8) & 1 == 1 { 2u8 } else { 0u8 }) + (if (x >> 3u8) & 1 == 1 { 4u8 } else { 0u8 }) + (if (x >> 4u8) & 1 == 1 { 8u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_2_4(x: u8) ensures #[trigger] fld(x, 2, 4) == 1 * b2i(bb(x, 2)) + 2 * b2i(bb(x, 3)) + 4 * b2i(bb(x, 4)) + 8 * b2i(bb(x, 5)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 2u8) & 15) == (if (x >> 2u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 3u8) & 1 == 1 { 2u8 } else { 0u8 }) + (if (x >> 4u8) & 1 == 1 { 4u8 } else { 0u8 }) + (if (x >> 5u8) & 1 == 1 { 8u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_3_4(x: u8) ensures #[trigger] fld(x, 3, 4) == 1 * b2i(bb(x, 3)) + 2 * b2i(bb(x, 4)) + 4 * b2i(bb(x, 5)) + 8 * b2i(bb(x, 6)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 3u8) & 15) == (if (x >> 3u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 4u8) & 1 == 1 { 2u8 } else { 0u8 }) + (if (x >> 5u8) & 1 == 1 { 4u8 } else { 0u8 }) + (if (x >> 6u8) & 1 == 1 { 8u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn exp_4_4(x: u8) ensures #[trigger] fld(x, 4, 4) == 1 * b2i(bb(x, 4)) + 2 * b2i(bb(x, 5)) + 4 * b2i(bb(x, 6)) + 8 * b2i(bb(x, 7)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((x >> 4u8) & 15) == (if (x >> 4u8) & 1 == 1 { 1u8 } else { 0u8 }) + (if (x >> 5u8) & 1 == 1 { 2u8 } else { 0u8 }) + (if (x >> 6u8) & 1 == 1 { 4u8 } else { 0u8 }) + (if (x >> 7u8) & 1 == 1 { 8u8 } else { 0u8 })) by (bit_vector); }
pub broadcast proof fn half_u8(x: u8) ensures #[trigger] (x >> 1) == x as int / 2 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x >> 1) == x / 2) by (bit_vector); }
pub broadcast proof fn shl_u16_2(x: u16) requires 0 <= x < 16384 ensures #[trigger] (x << 2) == x as int * 4 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 2) == x * 4) by (bit_vector) requires 0 <= x < 16384; }
pub broadcast proof fn shl_u16_4(x: u16) requires 0 <= x < 4096 ensures #[trigger] (x << 4) == x as int * 16 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 4) == x * 16) by (bit_vector) requires 0 <= x < 4096; }
pub broadcast proof fn shl_u16_8(x: u16) requires 0 <= x < 256 ensures #[trigger] (x << 8) == x as int * 256 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 8) == x * 256) by (bit_vector) requires 0 <= x < 256; }
pub broadcast proof fn shl_u16_11(x: u16) requires 0 <= x < 32 ensures #[trigger] (x << 11) == x as int * 2048 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 11) == x * 2048) by (bit_vector) requires 0 <= x < 32; }
pub broadcast proof fn shl_u16_14(x: u16) requires 0 <= x < 4 ensures #[trigger] (x << 14) == x as int * 16384 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 14) == x * 16384) by (bit_vector) requires 0 <= x < 4; }
pub broadcast proof fn shl_u32_1(x: u32) requires 0 <= x < 2147483648 ensures #[trigger] (x << 1) == x as int * 2 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 1) == x * 2) by (bit_vector) requires 0 <= x < 2147483648; }
pub broadcast proof fn shl_u32_2(x: u32) requires 0 <= x < 1073741824 ensures #[trigger] (x << 2) == x as int * 4 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 2) == x * 4) by (bit_vector) requires 0 <= x < 1073741824; }
pub broadcast proof fn shl_u32_8(x: u32) requires 0 <= x < 16777216 ensures #[trigger] (x << 8) == x as int * 256 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 8) == x * 256) by (bit_vector) requires 0 <= x < 16777216; }
pub broadcast proof fn shl_u32_16(x: u32) requires 0 <= x < 65536 ensures #[trigger] (x << 16) == x as int * 65536 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 16) == x * 65536) by (bit_vector) requires 0 <= x < 65536; }
pub broadcast proof fn shl_u32_24(x: u32) requires 0 <= x < 256 ensures #[trigger] (x << 24) == x as int * 16777216 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 24) == x * 16777216) by (bit_vector) requires 0 <= x < 256; }
pub broadcast proof fn shl_u8_1(x: u8) requires 0 <= x < 128 ensures #[trigger] (x << 1) == x as int * 2 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 1) == x * 2) by (bit_vector) requires 0 <= x < 128; }
pub broadcast proof fn shl_u8_2(x: u8) requires 0 <= x < 64 ensures #[trigger] (x << 2) == x as int * 4 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 2) == x * 4) by (bit_vector) requires 0 <= x < 64; }
pub broadcast proof fn shl_u8_3(x: u8) requires 0 <= x < 32 ensures #[trigger] (x << 3) == x as int * 8 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 3) == x * 8) by (bit_vector) requires 0 <= x < 32; }
pub broadcast proof fn shl_u8_4(x: u8) requires 0 <= x < 16 ensures #[trigger] (x << 4) == x as int * 16 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 4) == x * 16) by (bit_vector) requires 0 <= x < 16; }
pub broadcast proof fn shl_i32_1(x: i32) requires 0 <= x < 1073741824 ensures #[trigger] (x << 1) == x as int * 2 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 1) == x * 2) by (bit_vector) requires 0 <= x < 1073741824; }
pub broadcast proof fn shl_i32_8(x: i32) requires 0 <= x < 8388608 ensures #[trigger] (x << 8) == x as int * 256 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 8) == x * 256) by (bit_vector) requires 0 <= x < 8388608; }
pub broadcast proof fn shl_i32_12(x: i32) requires 0 <= x < 524288 ensures #[trigger] (x << 12) == x as int * 4096 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 12) == x * 4096) by (bit_vector) requires 0 <= x < 524288; }
pub broadcast proof fn shl_i32_18(x: i32) requires 0 <= x < 8192 ensures #[trigger] (x << 18) == x as int * 262144 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 18) == x * 262144) by (bit_vector) requires 0 <= x < 8192; }
pub broadcast proof fn shl_i32_19(x: i32) requires 0 <= x < 4096 ensures #[trigger] (x << 19) == x as int * 524288 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 19) == x * 524288) by (bit_vector) requires 0 <= x < 4096; }
pub broadcast proof fn shl_i32_20(x: i32) requires 0 <= x < 2048 ensures #[trigger] (x << 20) == x as int * 1048576 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 20) == x * 1048576) by (bit_vector) requires 0 <= x < 2048; }
pub broadcast proof fn shl_i32_22(x: i32) requires 0 <= x < 512 ensures #[trigger] (x << 22) == x as int * 4194304 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 22) == x * 4194304) by (bit_vector) requires 0 <= x < 512; }
pub broadcast proof fn shl_i32_23(x: i32) requires 0 <= x < 256 ensures #[trigger] (x << 23) == x as int * 8388608 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 23) == x * 8388608) by (bit_vector) requires 0 <= x < 256; }
pub broadcast proof fn shl_i32_24(x: i32) requires 0 <= x < 128 ensures #[trigger] (x << 24) == x as int * 16777216 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((x << 24) == x * 16777216) by (bit_vector) requires 0 <= x < 128; }
#[verifier::opaque]
pub open spec fn pop16(x: u16) -> int { ((((x) >> 0u16) & 1) + (((x) >> 1u16) & 1) + (((x) >> 2u16) & 1) + (((x) >> 3u16) & 1) + (((x) >> 4u16) & 1) + (((x) >> 5u16) & 1) + (((x) >> 6u16) & 1) + (((x) >> 7u16) & 1) + (((x) >> 8u16) & 1) + (((x) >> 9u16) & 1) + (((x) >> 10u16) & 1) + (((x) >> 11u16) & 1) + (((x) >> 12u16) & 1) + (((x) >> 13u16) & 1) + (((x) >> 14u16) & 1) + (((x) >> 15u16) & 1)) as int }
pub broadcast proof fn pop_byte(x: u8) ensures #[trigger] pop16(x as u16) == pc(x, 8), pc(x, 8) <= 8 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((((x as u16) >> 0u16) & 1) + (((x as u16) >> 1u16) & 1) + (((x as u16) >> 2u16) & 1) + (((x as u16) >> 3u16) & 1) + (((x as u16) >> 4u16) & 1) + (((x as u16) >> 5u16) & 1) + (((x as u16) >> 6u16) & 1) + (((x as u16) >> 7u16) & 1) + (((x as u16) >> 8u16) & 1) + (((x as u16) >> 9u16) & 1) + (((x as u16) >> 10u16) & 1) + (((x as u16) >> 11u16) & 1) + (((x as u16) >> 12u16) & 1) + (((x as u16) >> 13u16) & 1) + (((x as u16) >> 14u16) & 1) + (((x as u16) >> 15u16) & 1) == (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 4u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 5u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 6u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 7u8) & 1 == 1 { 1u16 } else { 0u16 }) && (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 4u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 5u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 6u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 7u8) & 1 == 1 { 1u16 } else { 0u16 }) <= 8) by (bit_vector); }
pub broadcast proof fn pop_and_1(x: u8) ensures #[trigger] pop16((x as u16) & 1) == pc(x, 1), pc(x, 1) <= 1 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((((x as u16) & 1) >> 0u16) & 1) + ((((x as u16) & 1) >> 1u16) & 1) + ((((x as u16) & 1) >> 2u16) & 1) + ((((x as u16) & 1) >> 3u16) & 1) + ((((x as u16) & 1) >> 4u16) & 1) + ((((x as u16) & 1) >> 5u16) & 1) + ((((x as u16) & 1) >> 6u16) & 1) + ((((x as u16) & 1) >> 7u16) & 1) + ((((x as u16) & 1) >> 8u16) & 1) + ((((x as u16) & 1) >> 9u16) & 1) + ((((x as u16) & 1) >> 10u16) & 1) + ((((x as u16) & 1) >> 11u16) & 1) + ((((x as u16) & 1) >> 12u16) & 1) + ((((x as u16) & 1) >> 13u16) & 1) + ((((x as u16) & 1) >> 14u16) & 1) + ((((x as u16) & 1) >> 15u16) & 1) == (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) && (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) <= 1) by (bit_vector); }
pub broadcast proof fn pop_and_2(x: u8) ensures #[trigger] pop16((x as u16) & 3) == pc(x, 2), pc(x, 2) <= 2 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((((x as u16) & 3) >> 0u16) & 1) + ((((x as u16) & 3) >> 1u16) & 1) + ((((x as u16) & 3) >> 2u16) & 1) + ((((x as u16) & 3) >> 3u16) & 1) + ((((x as u16) & 3) >> 4u16) & 1) + ((((x as u16) & 3) >> 5u16) & 1) + ((((x as u16) & 3) >> 6u16) & 1) + ((((x as u16) & 3) >> 7u16) & 1) + ((((x as u16) & 3) >> 8u16) & 1) + ((((x as u16) & 3) >> 9u16) & 1) + ((((x as u16) & 3) >> 10u16) & 1) + ((((x as u16) & 3) >> 11u16) & 1) + ((((x as u16) & 3) >> 12u16) & 1) + ((((x as u16) & 3) >> 13u16) & 1) + ((((x as u16) & 3) >> 14u16) & 1) + ((((x as u16) & 3) >> 15u16) & 1) == (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) && (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) <= 2) by (bit_vector); }
pub broadcast proof fn pop_and_3(x: u8) ensures #[trigger] pop16((x as u16) & 7) == pc(x, 3), pc(x, 3) <= 3 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((((x as u16) & 7) >> 0u16) & 1) + ((((x as u16) & 7) >> 1u16) & 1) + ((((x as u16) & 7) >> 2u16) & 1) + ((((x as u16) & 7) >> 3u16) & 1) + ((((x as u16) & 7) >> 4u16) & 1) + ((((x as u16) & 7) >> 5u16) & 1) + ((((x as u16) & 7) >> 6u16) & 1) + ((((x as u16) & 7) >> 7u16) & 1) + ((((x as u16) & 7) >> 8u16) & 1) + ((((x as u16) & 7) >> 9u16) & 1) + ((((x as u16) & 7) >> 10u16) & 1) + ((((x as u16) & 7) >> 11u16) & 1) + ((((x as u16) & 7) >> 12u16) & 1) + ((((x as u16) & 7) >> 13u16) & 1) + ((((x as u16) & 7) >> 14u16) & 1) + ((((x as u16) & 7) >> 15u16) & 1) == (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) && (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) <= 3) by (bit_vector); }
pub broadcast proof fn pop_and_4(x: u8) ensures #[trigger] pop16((x as u16) & 15) == pc(x, 4), pc(x, 4) <= 4 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((((x as u16) & 15) >> 0u16) & 1) + ((((x as u16) & 15) >> 1u16) & 1) + ((((x as u16) & 15) >> 2u16) & 1) + ((((x as u16) & 15) >> 3u16) & 1) + ((((x as u16) & 15) >> 4u16) & 1) + ((((x as u16) & 15) >> 5u16) & 1) + ((((x as u16) & 15) >> 6u16) & 1) + ((((x as u16) & 15) >> 7u16) & 1) + ((((x as u16) & 15) >> 8u16) & 1) + ((((x as u16) & 15) >> 9u16) & 1) + ((((x as u16) & 15) >> 10u16) & 1) + ((((x as u16) & 15) >> 11u16) & 1) + ((((x as u16) & 15) >> 12u16) & 1) + ((((x as u16) & 15) >> 13u16) & 1) + ((((x as u16) & 15) >> 14u16) & 1) + ((((x as u16) & 15) >> 15u16) & 1) == (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) && (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) <= 4) by (bit_vector); }
pub broadcast proof fn pop_and_5(x: u8) ensures #[trigger] pop16((x as u16) & 31) == pc(x, 5), pc(x, 5) <= 5 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((((x as u16) & 31) >> 0u16) & 1) + ((((x as u16) & 31) >> 1u16) & 1) + ((((x as u16) & 31) >> 2u16) & 1) + ((((x as u16) & 31) >> 3u16) & 1) + ((((x as u16) & 31) >> 4u16) & 1) + ((((x as u16) & 31) >> 5u16) & 1) + ((((x as u16) & 31) >> 6u16) & 1) + ((((x as u16) & 31) >> 7u16) & 1) + ((((x as u16) & 31) >> 8u16) & 1) + ((((x as u16) & 31) >> 9u16) & 1) + ((((x as u16) & 31) >> 10u16) & 1) + ((((x as u16) & 31) >> 11u16) & 1) + ((((x as u16) & 31) >> 12u16) & 1) + ((((x as u16) & 31) >> 13u16) & 1) + ((((x as u16) & 31) >> 14u16) & 1) + ((((x as u16) & 31) >> 15u16) & 1) == (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 4u8) & 1 == 1 { 1u16 } else { 0u16 }) && (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 4u8) & 1 == 1 { 1u16 } else { 0u16 }) <= 5) by (bit_vector); }
pub broadcast proof fn pop_and_6(x: u8) ensures #[trigger] pop16((x as u16) & 63) == pc(x, 6), pc(x, 6) <= 6 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((((x as u16) & 63) >> 0u16) & 1) + ((((x as u16) & 63) >> 1u16) & 1) + ((((x as u16) & 63) >> 2u16) & 1) + ((((x as u16) & 63) >> 3u16) & 1) + ((((x as u16) & 63) >> 4u16) & 1) + ((((x as u16) & 63) >> 5u16) & 1) + ((((x as u16) & 63) >> 6u16) & 1) + ((((x as u16) & 63) >> 7u16) & 1) + ((((x as u16) & 63) >> 8u16) & 1) + ((((x as u16) & 63) >> 9u16) & 1) + ((((x as u16) & 63) >> 10u16) & 1) + ((((x as u16) & 63) >> 11u16) & 1) + ((((x as u16) & 63) >> 12u16) & 1) + ((((x as u16) & 63) >> 13u16) & 1) + ((((x as u16) & 63) >> 14u16) & 1) + ((((x as u16) & 63) >> 15u16) & 1) == (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 4u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 5u8) & 1 == 1 { 1u16 } else { 0u16 }) && (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 4u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 5u8) & 1 == 1 { 1u16 } else { 0u16 }) <= 6) by (bit_vector); }
pub broadcast proof fn pop_and_7(x: u8) ensures #[trigger] pop16((x as u16) & 127) == pc(x, 7), pc(x, 7) <= 7 { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((((x as u16) & 127) >> 0u16) & 1) + ((((x as u16) & 127) >> 1u16) & 1) + ((((x as u16) & 127) >> 2u16) & 1) + ((((x as u16) & 127) >> 3u16) & 1) + ((((x as u16) & 127) >> 4u16) & 1) + ((((x as u16) & 127) >> 5u16) & 1) + ((((x as u16) & 127) >> 6u16) & 1) + ((((x as u16) & 127) >> 7u16) & 1) + ((((x as u16) & 127) >> 8u16) & 1) + ((((x as u16) & 127) >> 9u16) & 1) + ((((x as u16) & 127) >> 10u16) & 1) + ((((x as u16) & 127) >> 11u16) & 1) + ((((x as u16) & 127) >> 12u16) & 1) + ((((x as u16) & 127) >> 13u16) & 1) + ((((x as u16) & 127) >> 14u16) & 1) + ((((x as u16) & 127) >> 15u16) & 1) == (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 4u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 5u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 6u8) & 1 == 1 { 1u16 } else { 0u16 }) && (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 4u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 5u8) & 1 == 1 { 1u16 } else { 0u16 }) + (if (x >> 6u8) & 1 == 1 { 1u16 } else { 0u16 }) <= 7) by (bit_vector); }
pub broadcast proof fn pop_bit_0(x: u8) ensures #[trigger] pop16((x & 1) as u16) == b2i(bb(x, 0)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert(((((x & 1) as u16) >> 0u16) & 1) + ((((x & 1) as u16) >> 1u16) & 1) + ((((x & 1) as u16) >> 2u16) & 1) + ((((x & 1) as u16) >> 3u16) & 1) + ((((x & 1) as u16) >> 4u16) & 1) + ((((x & 1) as u16) >> 5u16) & 1) + ((((x & 1) as u16) >> 6u16) & 1) + ((((x & 1) as u16) >> 7u16) & 1) + ((((x & 1) as u16) >> 8u16) & 1) + ((((x & 1) as u16) >> 9u16) & 1) + ((((x & 1) as u16) >> 10u16) & 1) + ((((x & 1) as u16) >> 11u16) & 1) + ((((x & 1) as u16) >> 12u16) & 1) + ((((x & 1) as u16) >> 13u16) & 1) + ((((x & 1) as u16) >> 14u16) & 1) + ((((x & 1) as u16) >> 15u16) & 1) == (if (x >> 0u8) & 1 == 1 { 1u16 } else { 0u16 })) by (bit_vector); }
pub broadcast proof fn pop_bit_1(x: u8) ensures #[trigger] pop16(((x >> 1) & 1) as u16) == b2i(bb(x, 1)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((((((x >> 1) & 1) as u16) >> 0u16) & 1) + (((((x >> 1) & 1) as u16) >> 1u16) & 1) + (((((x >> 1) & 1) as u16) >> 2u16) & 1) + (((((x >> 1) & 1) as u16) >> 3u16) & 1) + (((((x >> 1) & 1) as u16) >> 4u16) & 1) + (((((x >> 1) & 1) as u16) >> 5u16) & 1) + (((((x >> 1) & 1) as u16) >> 6u16) & 1) + (((((x >> 1) & 1) as u16) >> 7u16) & 1) + (((((x >> 1) & 1) as u16) >> 8u16) & 1) + (((((x >> 1) & 1) as u16) >> 9u16) & 1) + (((((x >> 1) & 1) as u16) >> 10u16) & 1) + (((((x >> 1) & 1) as u16) >> 11u16) & 1) + (((((x >> 1) & 1) as u16) >> 12u16) & 1) + (((((x >> 1) & 1) as u16) >> 13u16) & 1) + (((((x >> 1) & 1) as u16) >> 14u16) & 1) + (((((x >> 1) & 1) as u16) >> 15u16) & 1) == (if (x >> 1u8) & 1 == 1 { 1u16 } else { 0u16 })) by (bit_vector); }
pub broadcast proof fn pop_bit_2(x: u8) ensures #[trigger] pop16(((x >> 2) & 1) as u16) == b2i(bb(x, 2)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((((((x >> 2) & 1) as u16) >> 0u16) & 1) + (((((x >> 2) & 1) as u16) >> 1u16) & 1) + (((((x >> 2) & 1) as u16) >> 2u16) & 1) + (((((x >> 2) & 1) as u16) >> 3u16) & 1) + (((((x >> 2) & 1) as u16) >> 4u16) & 1) + (((((x >> 2) & 1) as u16) >> 5u16) & 1) + (((((x >> 2) & 1) as u16) >> 6u16) & 1) + (((((x >> 2) & 1) as u16) >> 7u16) & 1) + (((((x >> 2) & 1) as u16) >> 8u16) & 1) + (((((x >> 2) & 1) as u16) >> 9u16) & 1) + (((((x >> 2) & 1) as u16) >> 10u16) & 1) + (((((x >> 2) & 1) as u16) >> 11u16) & 1) + (((((x >> 2) & 1) as u16) >> 12u16) & 1) + (((((x >> 2) & 1) as u16) >> 13u16) & 1) + (((((x >> 2) & 1) as u16) >> 14u16) & 1) + (((((x >> 2) & 1) as u16) >> 15u16) & 1) == (if (x >> 2u8) & 1 == 1 { 1u16 } else { 0u16 })) by (bit_vector); }
pub broadcast proof fn pop_bit_3(x: u8) ensures #[trigger] pop16(((x >> 3) & 1) as u16) == b2i(bb(x, 3)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((((((x >> 3) & 1) as u16) >> 0u16) & 1) + (((((x >> 3) & 1) as u16) >> 1u16) & 1) + (((((x >> 3) & 1) as u16) >> 2u16) & 1) + (((((x >> 3) & 1) as u16) >> 3u16) & 1) + (((((x >> 3) & 1) as u16) >> 4u16) & 1) + (((((x >> 3) & 1) as u16) >> 5u16) & 1) + (((((x >> 3) & 1) as u16) >> 6u16) & 1) + (((((x >> 3) & 1) as u16) >> 7u16) & 1) + (((((x >> 3) & 1) as u16) >> 8u16) & 1) + (((((x >> 3) & 1) as u16) >> 9u16) & 1) + (((((x >> 3) & 1) as u16) >> 10u16) & 1) + (((((x >> 3) & 1) as u16) >> 11u16) & 1) + (((((x >> 3) & 1) as u16) >> 12u16) & 1) + (((((x >> 3) & 1) as u16) >> 13u16) & 1) + (((((x >> 3) & 1) as u16) >> 14u16) & 1) + (((((x >> 3) & 1) as u16) >> 15u16) & 1) == (if (x >> 3u8) & 1 == 1 { 1u16 } else { 0u16 })) by (bit_vector); }
pub broadcast proof fn pop_bit_4(x: u8) ensures #[trigger] pop16(((x >> 4) & 1) as u16) == b2i(bb(x, 4)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((((((x >> 4) & 1) as u16) >> 0u16) & 1) + (((((x >> 4) & 1) as u16) >> 1u16) & 1) + (((((x >> 4) & 1) as u16) >> 2u16) & 1) + (((((x >> 4) & 1) as u16) >> 3u16) & 1) + (((((x >> 4) & 1) as u16) >> 4u16) & 1) + (((((x >> 4) & 1) as u16) >> 5u16) & 1) + (((((x >> 4) & 1) as u16) >> 6u16) & 1) + (((((x >> 4) & 1) as u16) >> 7u16) & 1) + (((((x >> 4) & 1) as u16) >> 8u16) & 1) + (((((x >> 4) & 1) as u16) >> 9u16) & 1) + (((((x >> 4) & 1) as u16) >> 10u16) & 1) + (((((x >> 4) & 1) as u16) >> 11u16) & 1) + (((((x >> 4) & 1) as u16) >> 12u16) & 1) + (((((x >> 4) & 1) as u16) >> 13u16) & 1) + (((((x >> 4) & 1) as u16) >> 14u16) & 1) + (((((x >> 4) & 1) as u16) >> 15u16) & 1) == (if (x >> 4u8) & 1 == 1 { 1u16 } else { 0u16 })) by (bit_vector); }
pub broadcast proof fn pop_bit_5(x: u8) ensures #[trigger] pop16(((x >> 5) & 1) as u16) == b2i(bb(x, 5)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((((((x >> 5) & 1) as u16) >> 0u16) & 1) + (((((x >> 5) & 1) as u16) >> 1u16) & 1) + (((((x >> 5) & 1) as u16) >> 2u16) & 1) + (((((x >> 5) & 1) as u16) >> 3u16) & 1) + (((((x >> 5) & 1) as u16) >> 4u16) & 1) + (((((x >> 5) & 1) as u16) >> 5u16) & 1) + (((((x >> 5) & 1) as u16) >> 6u16) & 1) + (((((x >> 5) & 1) as u16) >> 7u16) & 1) + (((((x >> 5) & 1) as u16) >> 8u16) & 1) + (((((x >> 5) & 1) as u16) >> 9u16) & 1) + (((((x >> 5) & 1) as u16) >> 10u16) & 1) + (((((x >> 5) & 1) as u16) >> 11u16) & 1) + (((((x >> 5) & 1) as u16) >> 12u16) & 1) + (((((x >> 5) & 1) as u16) >> 13u16) & 1) + (((((x >> 5) & 1) as u16) >> 14u16) & 1) + (((((x >> 5) & 1) as u16) >> 15u16) & 1) == (if (x >> 5u8) & 1 == 1 { 1u16 } else { 0u16 })) by (bit_vector); }
pub broadcast proof fn pop_bit_6(x: u8) ensures #[trigger] pop16(((x >> 6) & 1) as u16) == b2i(bb(x, 6)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((((((x >> 6) & 1) as u16) >> 0u16) & 1) + (((((x >> 6) & 1) as u16) >> 1u16) & 1) + (((((x >> 6) & 1) as u16) >> 2u16) & 1) + (((((x >> 6) & 1) as u16) >> 3u16) & 1) + (((((x >> 6) & 1) as u16) >> 4u16) & 1) + (((((x >> 6) & 1) as u16) >> 5u16) & 1) + (((((x >> 6) & 1) as u16) >> 6u16) & 1) + (((((x >> 6) & 1) as u16) >> 7u16) & 1) + (((((x >> 6) & 1) as u16) >> 8u16) & 1) + (((((x >> 6) & 1) as u16) >> 9u16) & 1) + (((((x >> 6) & 1) as u16) >> 10u16) & 1) + (((((x >> 6) & 1) as u16) >> 11u16) & 1) + (((((x >> 6) & 1) as u16) >> 12u16) & 1) + (((((x >> 6) & 1) as u16) >> 13u16) & 1) + (((((x >> 6) & 1) as u16) >> 14u16) & 1) + (((((x >> 6) & 1) as u16) >> 15u16) & 1) == (if (x >> 6u8) & 1 == 1 { 1u16 } else { 0u16 })) by (bit_vector); }
pub broadcast proof fn pop_bit_7(x: u8) ensures #[trigger] pop16(((x >> 7) & 1) as u16) == b2i(bb(x, 7)) { reveal(bb); reveal(fld); reveal(pc); reveal(pop16); assert((((((x >> 7) & 1) as u16) >> 0u16) & 1) + (((((x >> 7) & 1) as u16) >> 1u16) & 1) + (((((x >> 7) & 1) as u16) >> 2u16) & 1) + (((((x >> 7) & 1) as u16) >> 3u16) & 1) + (((((x >> 7) & 1) as u16) >> 4u16) & 1) + (((((x >> 7) & 1) as u16) >> 5u16) & 1) + (((((x >> 7) & 1) as u16) >> 6u16) & 1) + (((((x >> 7) & 1) as u16) >> 7u16) & 1) + (((((x >> 7) & 1) as u16) >> 8u16) & 1) + (((((x >> 7) & 1) as u16) >> 9u16) & 1) + (((((x >> 7) & 1) as u16) >> 10u16) & 1) + (((((x >> 7) & 1) as u16) >> 11u16) & 1) + (((((x >> 7) & 1) as u16) >> 12u16) & 1) + (((((x >> 7) & 1) as u16) >> 13u16) & 1) + (((((x >> 7) & 1) as u16) >> 14u16) & 1) + (((((x >> 7) & 1) as u16) >> 15u16) & 1) == (if (x >> 7u8) & 1 == 1 { 1u16 } else { 0u16 })) by (bit_vector); }
pub broadcast group arith { and_u8_1, and_u16_1, and_u8_2, and_u16_2, and_u8_3, and_u16_3, and_u8_4, and_u16_4, and_u8_5, and_u16_5, and_u8_6, and_u16_6, and_u8_7, and_u16_7, and_u8_8, and_u16_8, shr_u8_1, bit_u8_1, fld_u8_1_1, fld_u8_1_2, fld_u8_1_3, fld_u8_1_4, fld_u8_1_5, fld_u8_1_6, shr_u8_2, bit_u8_2, fld_u8_2_1, fld_u8_2_2, fld_u8_2_3, fld_u8_2_4, fld_u8_2_5, shr_u8_3, bit_u8_3, fld_u8_3_1, fld_u8_3_2, fld_u8_3_3, fld_u8_3_4, shr_u8_4, bit_u8_4, fld_u8_4_1, fld_u8_4_2, fld_u8_4_3, shr_u8_5, bit_u8_5, fld_u8_5_1, fld_u8_5_2, shr_u8_6, bit_u8_6, fld_u8_6_1, shr_u8_7, bit_u8_7, exp_0_1, exp_1_1, exp_2_1, exp_3_1, exp_4_1, exp_5_1, exp_6_1, exp_7_1, exp_0_2, exp_1_2, exp_2_2, exp_3_2, exp_4_2, exp_5_2, exp_6_2, exp_0_4, exp_1_4, exp_2_4, exp_3_4, exp_4_4, half_u8, shl_u16_2, shl_u16_4, shl_u16_8, shl_u16_11, shl_u16_14, shl_u32_1, shl_u32_2, shl_u32_8, shl_u32_16, shl_u32_24, shl_u8_1, shl_u8_2, shl_u8_3, shl_u8_4, shl_i32_1, shl_i32_8, shl_i32_12, shl_i32_18, shl_i32_19, shl_i32_20, shl_i32_22, shl_i32_23, shl_i32_24, pop_byte, pop_and_1, pop_and_2, pop_and_3, pop_and_4, pop_and_5, pop_and_6, pop_and_7, pop_bit_0, pop_bit_1, pop_bit_2, pop_bit_3, pop_bit_4, pop_bit_5, pop_bit_6, pop_bit_7 }
// GEN-END

//@@insert orchains


pub proof fn lemma_expand(v: u16) requires v < 4096 ensures
    (v >> 10) == v as int / 1024, ((v >> 8) & 3) == (v as int / 256) % 4, (v & 255) == v as int % 256,
    (((v as u32) & 127) | 128) == 128 + v as int % 128, ((v as u32) >> 7) == v as int / 128,
    (128 | ((v as u32) & 127)) == 128 + v as int % 128,
{
    assert((v >> 10) == v / 1024 && ((v >> 8) & 3) == (v / 256) % 4 && (v & 255) == v % 256) by (bit_vector);
    assert((((v as u32) & 127) | 128) == 128 + (v as u32) % 128 && ((v as u32) >> 7) == (v as u32) / 128) by (bit_vector);
    assert((128 | ((v as u32) & 127)) == 128 + (v as u32) % 128) by (bit_vector);
}
pub broadcast proof fn or2(x: u32) requires x < 256 ensures #[trigger] ((x << 16) | x) == x * 0x1_0001, {
    assert(((x << 16) | x) == x * 0x1_0001) by (bit_vector) requires x < 256; }
pub broadcast proof fn or3(x: u32) requires x < 256 ensures #[trigger] ((x << 24) | (x << 8)) == x * 0x100_0100 {
    assert(((x << 24) | (x << 8)) == x * 0x100_0100) by (bit_vector) requires x < 256; }
pub broadcast proof fn or4(x: u32) requires x < 256 ensures #[trigger] ((x << 24) | (x << 16) | (x << 8) | x) == x * 0x101_0101 {
    assert(((x << 24) | (x << 16) | (x << 8) | x) == x * 0x101_0101) by (bit_vector) requires x < 256; }
pub broadcast group expand { or2, or3, or4 }
pub broadcast proof fn lemma_rotr(x: u32, n: u32) requires x < 256, 8 <= n <= 31 ensures #[trigger] rotr(x, n) == x * pow2((32 - n) as nat) {
    assert(((x >> n) | (x << ((32 - n) as u32))) == (x << ((32 - n) as u32)) && x <= (0xffff_ffffu32 >> ((32 - n) as u32))) by (bit_vector) requires x < 256, 8 <= n <= 31;
    let k = (32 - n) as u32;
    lemma_u32_shr_is_div(0xffff_ffff, k);
    lemma_pow2_pos(k as nat);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(0xffff_ffff, pow2(k as nat) as int);
    assert(x * pow2(k as nat) <= 0xffff_ffff) by (nonlinear_arith)
        requires x <= 0xffff_ffff as int / pow2(k as nat) as int, pow2(k as nat) > 0,
            0xffff_ffff == pow2(k as nat) as int * (0xffff_ffff as int / pow2(k as nat) as int) + (0xffff_ffff as int % pow2(k as nat) as int),
            0xffff_ffff as int % pow2(k as nat) as int >= 0 {}
    lemma_u32_shl_is_mul(x, k);
}
pub proof fn lemma_sx(x: i32, nbits: u32)
    requires 1 <= nbits <= 31, 0 <= x, x < pow2(nbits as nat)
    ensures ({ let s = (32 - nbits) as u32; ((x << s) >> s) as int == sx(x as int, pow2(nbits as nat) as int) })
{
    let s = (32 - nbits) as u32;
    let m = (1i64 << nbits);
    lemma_m(nbits);
    assert(m == pow2(nbits as nat));
    assert(((x << s) >> s) == (if 2 * (x as i64) >= m { x as int - m as int } else { x as int })) by (bit_vector)
        requires 1 <= nbits <= 31, 0 <= x, (x as i64) < m, m == (1i64 << nbits), s == 32 - nbits;
}
pub proof fn lemma_m(n: u32) requires n <= 31 ensures (1i64 << n) == pow2(n as nat) decreases n {
    if n == 0 { assert((1i64 << 0) == 1) by (bit_vector); lemma2_to64(); }
    else {
        lemma_m((n - 1) as u32);
        lemma_pow2_unfold(n as nat);
        let k = (n - 1) as u32;
        assert((1i64 << n) == 2 * (1i64 << k)) by (bit_vector) requires 1 <= n <= 31, k == n - 1;
    }
}
// ------------------------------------------------------------------ dependencies (assumed contracts)
#[verifier::external_body]
fn vx_panic() -> (r: !) requires false { panic!() }
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_expect<T>(o: Option<T>) -> (r: T) requires o is Some ensures o == Some(r) { o.unwrap() }

/// `bytes.chunks_exact(2).zip(0i32..)`
#[verifier::external_body]
pub struct VxHalfwords<'a> { b: &'a [u8] }
impl<'a> VxHalfwords<'a> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(&'a [u8], i32)>)
        requires old(self).bytes().len() < 0x8000_0000,
        ensures
            final(self).bytes() == old(self).bytes(),
            old(self).pos() < old(self).bytes().len() as int / 2 ==> {
                &&& r is Some
                &&& (r->0).0@ == old(self).bytes().subrange(2 * old(self).pos(), 2 * old(self).pos() + 2)
                &&& (r->0).1 == old(self).pos()
                &&& final(self).pos() == old(self).pos() + 1
            },
            old(self).pos() >= old(self).bytes().len() as int / 2 ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_halfwords<'a>(b: &'a [u8]) -> (r: VxHalfwords<'a>) ensures r.bytes() == b@, r.pos() == 0 { unimplemented!() }

/// `tags.binary_search_by(|(a, _)| a.cmp(&x))`
#[verifier::external_body]
fn vx_bsearch(tags: &[(u32, Tag)], x: u32) -> (r: Result<usize, usize>)
    requires tags_ok(tags@),
    ensures match r { Ok(k) => tag_at(tags@, k as int, x as int), Err(_) => forall|k: int| 0 <= k < tags@.len() ==> (#[trigger] tags@[k]).0 != x },
{ unimplemented!() }

pub assume_specification[ u16::count_ones ](x: u16) -> (r: u32)
    ensures r == pop16(x);
pub open spec fn rotr(x: u32, n: u32) -> u32 { (x >> n) | (x << ((32 - n) as u32)) }
pub assume_specification[ u32::rotate_right ](x: u32, n: u32) -> (r: u32)
    ensures 1 <= n <= 31 ==> r == rotr(x, n);

//@@insert patterns

//@@insert sign_extend

//@@insert thumb_expand_imm

//@@slices analyze 15
} // verus!
fn main() {}
