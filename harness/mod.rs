// appended (as `mod vx_harness`) to a scratch copy of the crate; see tools/harness.py
use std::collections::HashSet;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<Vec<u8>>,
}

static FAILS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// report a failing input
pub fn out(props: &str, what: &str) {
    if FAILS.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 400 {
        return;
    }
    println!("FAIL {} {}", props, what.replace('\n', "\\n"));
}

pub const WORKERS: u64 = 8;
/// runs `f(worker, rng, stats)` on every worker and merges the statistics
pub fn parallel(r: &mut Rng, st: &mut Stats, f: impl Fn(u64, &mut Rng, &mut Stats) + Sync) {
    let f = &f;
    let parts: Vec<Stats> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..WORKERS)
            .map(|k| {
                let mut rng = Rng(r.next());
                s.spawn(move || {
                    let mut st = Stats::default();
                    f(k, &mut rng, &mut st);
                    st
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for p in parts {
        st.evaluations += p.evaluations;
        st.nontrivial.extend(p.nontrivial);
    }
}

pub fn main() {
    let a: Vec<String> = std::env::var("VX_HARNESS").unwrap().split(' ').map(|s| s.to_string()).collect();
    let seed: u64 = a[1].parse().unwrap();
    let iters: u64 = a[2].parse().unwrap();
    let mut r = Rng(seed);
    let mut st = Stats::default();
    std::panic::set_hook(Box::new(|_| {}));
    match &*a[0] {
        //@@dispatch
        _ => println!("UNAVAILABLE {}", a[0]),
    }
    println!("STATS {} {}", st.evaluations, st.nontrivial.len());
}

//@@mods
