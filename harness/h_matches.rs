//! Complete check of the trusted contract of `thumb::matches`: every halfword x every pattern literal
//! the decoder uses (VX_LITERALS, extracted from the current source on this run).
use super::{out, Rng, Stats};

pub fn run(_: &mut Rng, _iters: u64, st: &mut Stats) {
    let lits = std::env::var("VX_LITERALS").unwrap_or_default();
    for lit in lits.split(' ').filter(|l| !l.is_empty()) {
        let key: Vec<char> = lit[2..].chars().filter(|c| *c != '_').collect();
        let (mut mask, mut val) = (0u16, 0u16);
        for (n, c) in key.iter().enumerate() {
            let b = 1u16 << (15 - n);
            match c {
                '0' => mask |= b,
                '1' => {
                    mask |= b;
                    val |= b
                }
                _ => {}
            }
        }
        st.nontrivial.insert(lit.as_bytes().to_vec());
        for h in 0..=0xffffu16 {
            st.evaluations += 1;
            let b = h.to_le_bytes();
            let got = std::panic::catch_unwind(|| crate::thumb::vx_acc::matches(&b, lit));
            if got.ok() != Some(h & mask == val) {
                out("C01,C02,C03,C04", &format!("matches({:02x} {:02x}, {:?}) should be {}", b[0], b[1], lit, h & mask == val));
                break;
            }
        }
    }
}
