//! Bounded replay for the Thumb decoder: an independent decoder (from the ARM manuals) is compared
//! with `thumb::analyze` on generated code.  Used to look for a failing input; never counted as proof.
use super::{out, Rng, Stats};
use crate::thumb::{self, Tag};

pub type Res = (Vec<i32>, Vec<i32>, bool, bool, Option<u64>);

fn sx(v: i64, bits: u32) -> i64 {
    if v >= 1 << (bits - 1) {
        v - (1 << bits)
    } else {
        v
    }
}

fn undefined16(h: u16, v7: bool) -> bool {
    if h & 0xff00 == 0x4700 {
        return h & 7 != 0;
    }
    if h >> 12 != 0b1011 {
        return false;
    }
    let b = |k: u16| (h >> k) & 1 == 1;
    if !b(10) && b(8) {
        return !v7; // CBZ / CBNZ
    }
    match (h >> 8) & 15 {
        0b0110 => h & 0xffec != 0xb660,
        0b0111 | 0b1000 => true,
        0b1010 => h & 0xc0 == 0x80,
        0b1111 => !v7 && ![0xbf00, 0xbf10, 0xbf20, 0xbf30, 0xbf40].contains(&h),
        _ => false,
    }
}

fn expand_imm(v: u32) -> u64 {
    let i = (v & 255) as u64;
    match v >> 8 {
        0 => i,
        1 => i << 16 | i,
        2 => i << 24 | i << 8,
        3 => i << 24 | i << 16 | i << 8 | i,
        _ => ((0x80 | (v & 0x7f)).rotate_right(v >> 7)) as u64,
    }
}

/// None: not well-formed Thumb code
pub fn oracle(bytes: &[u8], addr: u32, v7: bool, tags: &[(u32, Tag)]) -> Option<Res> {
    let n = bytes.len() / 2;
    let hw = |i: usize| u16::from_le_bytes([bytes[2 * i], bytes[2 * i + 1]]);
    let (mut bls, mut bs, mut ind, mut sp, mut stack) = (vec![], vec![], false, false, Some(0u64));
    let mut i = 0usize;
    while i < n {
        let a = addr + 2 * i as u32;
        if let Some(k) = tags.iter().position(|t| t.0 == a && t.1 == Tag::Data) {
            match tags[k + 1..].iter().find(|t| t.1 == Tag::Thumb) {
                Some(t) => i += std::cmp::max(1, (t.0 - a) as usize / 2),
                None => break,
            }
            continue;
        }
        let h = hw(i);
        let pc = 2 * i as i64 + 4;
        let branch = |off: i64, bs: &mut Vec<i32>, stack: &mut Option<u64>| {
            if off >= 0 && (off as usize) < bytes.len() {
                *stack = None;
            }
            bs.push(off as i32);
        };
        if h < 0xe800 {
            if undefined16(h, v7) {
                return None;
            }
            if h >> 12 == 0b1101 && (h >> 9) & 7 != 7 {
                branch(sx(((h & 255) << 1) as i64, 9) + pc, &mut bs, &mut stack);
            } else if h >> 11 == 0b11100 {
                branch(sx(((h & 0x7ff) << 1) as i64, 12) + pc, &mut bs, &mut stack);
            } else if h & 0xff80 == 0x4780 {
                ind = true;
            } else if h & 0xff80 == 0x4700 {
                ind |= h != 0x4770;
            } else if h & 0xfe00 == 0xb400 {
                sp = true;
                stack = stack.map(|s| s + 4 * (h & 0x1ff).count_ones() as u64);
            } else if h & 0xff80 == 0xb080 {
                sp = true;
                stack = stack.map(|s| s + 4 * (h & 0x7f) as u64);
            } else if h & 0xf500 == 0xb100 {
                // CBZ / CBNZ
                let off = ((h >> 9) & 1) as i64 * 64 + ((h >> 3) & 31) as i64 * 2 + pc;
                if (off as usize) < bytes.len() {
                    stack = None;
                }
            }
            i += 1;
            continue;
        }
        if i + 1 >= n {
            return None;
        }
        let g = hw(i + 1);
        let branch_grp = h >> 11 == 0b11110 && g >> 15 == 1;
        if !v7 && !branch_grp {
            return None;
        }
        let (hi, g1) = (h as i64, g as i64);
        let s = (hi >> 10) & 1;
        let (j1, j2) = ((g1 >> 13) & 1, (g1 >> 11) & 1);
        let off4 = sx(
            s << 24 | (1 - (j1 ^ s)) << 23 | (1 - (j2 ^ s)) << 22 | (hi & 0x3ff) << 12 | (g1 & 0x7ff) << 1,
            25,
        );
        let imm12 = ((h as u32 >> 10) & 1) << 11 | ((g as u32 >> 12) & 7) << 8 | (g as u32 & 255);
        let rd_sp = (g >> 8) & 15 == 13;
        let mut grow = |n: u64| {
            sp = true;
            stack = stack.map(|s| s + n);
        };
        if v7 && h & 0xffd0 == 0xe900 && h & 0x20 != 0 && g & 0xa000 != 0 {
            return None;
        }
        if branch_grp && g & 0x5000 == 0x5000 {
            bls.push((off4 + pc) as i32);
        } else if !v7 {
        } else if branch_grp && g & 0x5000 == 0x1000 {
            branch(off4 + pc, &mut bs, &mut stack);
        } else if branch_grp && g & 0x5000 == 0 && (h >> 6) & 15 < 14 {
            let off = sx(s << 20 | j2 << 19 | j1 << 18 | (hi & 0x3f) << 12 | (g1 & 0x7ff) << 1, 21);
            branch(off + pc, &mut bs, &mut stack);
        } else if h == 0xe92d {
            grow(4 * (g & 0x5fff).count_ones() as u64);
        } else if h & 0xfbef == 0xf1ad && g >> 15 == 0 && rd_sp {
            grow(expand_imm(imm12));
        } else if h & 0xfbff == 0xf2ad && g >> 15 == 0 && rd_sp {
            grow(imm12 as u64);
        } else if h & 0xffbf == 0xed2d && g & 0x0e00 == 0x0a00 {
            grow(4 * (g & 255) as u64);
        } else if h == 0xf84d && g & 0x0b00 == 0x0900 {
            grow((g & 255) as u64);
        }
        i += 2;
    }
    Some((bls, bs, ind, sp, stack))
}

pub fn show(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// which property does the difference belong to?
fn diff(a: &Res, b: &Res, tags: &[(u32, Tag)]) -> Vec<&'static str> {
    let mut v = vec![];
    if a.0 != b.0 || a.1 != b.1 {
        v.push("C01");
    }
    if a.2 != b.2 {
        v.push("C02");
    }
    if a.3 != b.3 || a.4 != b.4 {
        v.push("C04");
    }
    if !v.is_empty() && tags.iter().any(|t| t.1 == Tag::Data) {
        v.push("C03");
    }
    v
}

pub fn compare(bytes: &[u8], addr: u32, v7: bool, tags: &[(u32, Tag)], st: &mut Stats) {
    let want = match oracle(bytes, addr, v7, tags) {
        Some(w) => w,
        None => return,
    };
    st.evaluations += 1;
    if !want.0.is_empty() || !want.1.is_empty() || want.2 || want.3 {
        st.nontrivial.insert(bytes.to_vec());
    }
    let tags2 = tags.to_vec();
    let got = std::panic::catch_unwind(|| thumb::analyze(bytes, addr, v7, &tags2));
    let tg = tags.iter().map(|t| format!("{:x}{}", t.0, if t.1 == Tag::Data { "d" } else { "t" })).collect::<Vec<_>>().join(",");
    match got {
        Err(_) => out("C01,C02,C03,C04", &format!("analyze({}, {:#x}, v7={}, [{}]) panics; expected {:?}", show(bytes), addr, v7, tg, want)),
        Ok(got) => {
            let d = diff(&got, &want, tags);
            if !d.is_empty() {
                out(&d.join(","), &format!("analyze({}, {:#x}, v7={}, [{}]) = {:?}; the architecture says {:?}", show(bytes), addr, v7, tg, got, want));
            }
        }
    }
}

fn le(h: &[u16]) -> Vec<u8> {
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}

/// a halfword (pair) biased towards what the decoder singles out
fn insn(r: &mut Rng, out: &mut Vec<u16>) {
    let x = r.next() as u16;
    let y = (r.next() >> 7) as u16;
    match r.below(20) {
        0 => out.push(0xd000 | x & 0xfff),
        1 => out.push(0xe000 | x & 0x7ff),
        2 => out.push(0x4700 | x & 0xf8),
        3 => out.push(0xb400 | x & 0x1ff),
        4 => out.push(0xb080 | x & 0x7f),
        5 | 6 => out.extend([0xf000 | x & 0x7ff, 0xd000 | y & 0x2fff]),
        7 => out.extend([0xf000 | x & 0x7ff, 0x9000 | y & 0x2fff]),
        8 => out.extend([0xf000 | x & 0x7ff, 0x8000 | y & 0x2fff]),
        9 => out.extend([0xe92d, y & 0x5fff]),
        10 => out.extend([0xf1ad | x & 0x410, 0x0d00 | y & 0x70ff]),
        11 => out.extend([0xf2ad | x & 0x400, 0x0d00 | y & 0x70ff]),
        12 => out.extend([0xed2d | x & 0x40, 0x0a00 | y & 0xf1ff]),
        13 => out.extend([0xf84d, 0x0900 | y & 0xf4ff]),
        14 => out.extend([0xe800 | x & 0x1fff, y]),
        15 => out.extend([(0xf000 | x & 0xfff), y]),
        // near misses: the special encodings with one bit flipped
        16 => {
            let mut v = vec![];
            let k = [0xe92du16, 0xf1ad, 0xf2ad, 0xed2d, 0xf84d, 0xf000][r.below(6)];
            v.extend([k ^ (1 << r.below(16)), [y & 0x5fff, 0x0d00 | y & 0x70ff, 0x0a00 | y & 0xf1ff, 0x0900 | y & 0xf4ff, 0xd000 | y & 0x2fff][r.below(5)]]);
            if v[0] < 0xe800 {
                v.pop();
            }
            out.extend(v)
        }
        _ => {
            if x >= 0xe800 {
                out.push(x);
                out.push(y)
            } else {
                out.push(x)
            }
        }
    }
}

pub fn run(r: &mut Rng, iters: u64, st: &mut Stats) {
    super::parallel(r, st, |k, r, st| worker(k, r, iters / super::WORKERS, st))
}

fn worker(k: u64, r: &mut Rng, iters: u64, st: &mut Stats) {
    let mine = |h: u16| h as u64 % super::WORKERS == k;
    // every 16-bit encoding, alone and behind a small offset
    for h in (0..0xe800u16).filter(|h| mine(*h)) {
        for v7 in [false, true] {
            compare(&le(&[h]), 0x1000, v7, &[], st);
            compare(&le(&[0x46c0, 0x46c0, h, 0x46c0]), 0x1000, v7, &[], st);
        }
    }
    // every first halfword of a 32-bit encoding against interesting second halfwords
    for h in (0xe800..=0xffffu16).filter(|h| mine(*h)) {
        for g in [0xd123u16, 0xf814, 0x9000, 0xb801, 0x8123, 0xa802, 0x0d21, 0x4d21, 0x1d21, 0x7dff, 0x5fff, 0x4010, 0x0a12, 0x8b20, 0x0d04, 0x0904, 0x0b10, 0x0f10, 0x0000, 0xffff] {
            for v7 in [false, true] {
                compare(&le(&[h, g]), 0x1000, v7, &[], st);
            }
        }
    }
    // every second halfword for the encodings that matter
    for g in (0..=0xffffu16).filter(|h| mine(*h)) {
        for h in [0xf000u16, 0xf400, 0xf3bf, 0xf7ff, 0xf123, 0xe92d, 0xe90d, 0xf1ad, 0xf5bd, 0xf2ad, 0xf6ad, 0xed2d, 0xed6d, 0xf84d, 0xf84c, 0xf85d] {
            compare(&le(&[h, g]), 0x1000, true, &[], st);
        }
        compare(&le(&[0xf123, g]), 0x1000, false, &[], st);
    }
    // T3 / T4 / BL: all J1/J2/S combinations with random immediates, at random positions
    for _ in 0..iters {
        let v7 = r.below(4) != 0;
        let addr = (r.next() as u32 & 0xffff_fffe) % 0x1000_0000;
        let mut hs = vec![];
        let mut tags: Vec<(u32, Tag)> = vec![];
        for _ in 0..1 + r.below(12) {
            if r.below(7) == 0 {
                // literal data, sometimes several `$d` in a row, sometimes odd sized
                let a = addr + 2 * hs.len() as u32;
                if tags.last().map(|t| t.0 < a).unwrap_or(true) {
                    tags.push((a, Tag::Data));
                    for _ in 0..1 + r.below(4) {
                        hs.push(r.next() as u16)
                    }
                    let a = addr + 2 * hs.len() as u32;
                    match r.below(4) {
                        0 => {
                            tags.push((a, Tag::Data));
                            hs.push(r.next() as u16);
                            hs.push(r.next() as u16);
                            if r.below(2) == 0 {
                                tags.push((addr + 2 * hs.len() as u32, Tag::Thumb));
                            }
                        }
                        1 => tags.push((addr + 2 * hs.len() as u32 + 1, Tag::Thumb)),
                        2 => {}
                        _ => tags.push((a, Tag::Thumb)),
                    }
                }
            } else {
                insn(r, &mut hs)
            }
        }
        if r.below(3) == 0 {
            // tags that belong to other functions
            tags.insert(0, (addr.wrapping_sub(100) % 0x1000_0000, [Tag::Data, Tag::Thumb][r.below(2)]));
            let e = addr + 2 * hs.len() as u32;
            tags.push((e + 2 * r.below(3) as u32 + 2, [Tag::Data, Tag::Thumb][r.below(2)]));
        }
        tags.sort_by_key(|t| t.0);
        tags.dedup_by_key(|t| t.0);
        let mut b = le(&hs);
        if r.below(5) == 0 {
            b.push(r.next() as u8)
        }
        compare(&b, addr, v7, &tags, st);
    }
}
