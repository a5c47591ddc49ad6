//! Splits an index space over threads.
use std::sync::atomic::{AtomicU64, Ordering};

/// runs f on every index below n, on all cores; f gets the accumulator of its thread
pub fn par<A: Send>(n: u64, new: impl Fn() -> A + Sync, f: impl Fn(u64, &mut A) + Sync) -> Vec<A> {
    let next = AtomicU64::new(0);
    let chunk = (n / 512).clamp(1, 4096);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
            let mut acc = new();
            loop {
                let a = next.fetch_add(chunk, Ordering::Relaxed);
                if a >= n { return acc; }
                for i in a..(a + chunk).min(n) { f(i, &mut acc); }
            }
        }).unwrap()).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// number of words of length at most len over k letters
pub fn words(k: u64, len: u32) -> u64 { (0..=len).map(|l| k.pow(l)).sum() }
/// the i-th word, shortest first
pub fn word(k: u64, mut i: u64, out: &mut Vec<usize>) {
    out.clear();
    let mut l = 0;
    while i >= k.pow(l) { i -= k.pow(l); l += 1; }
    for _ in 0..l { out.push((i % k) as usize); i /= k; }
}
#[derive(Default)]
pub struct Acc { pub states: u64, pub steps: u64, pub ok: u64, pub yes: u64, pub viols: Vec<(String, String, String)>, pub samples: Vec<String> }
impl Acc {
    pub fn viol(&mut self, key: &str, subject: &str, what: String) { if self.viols.len() < 200 { self.viols.push((key.into(), subject.into(), what)); } }
}
/// adds the accumulators to the report; a part of the exploration is named by `part`
pub fn collect(rep: &mut crate::report::Report, part: &str, accs: Vec<Acc>) {
    let (mut s, mut y) = (0, 0);
    let mut viols = vec![];
    let mut samples = vec![];
    for a in accs {
        rep.states += a.states; rep.transitions += a.steps; rep.validated += a.ok;
        s += a.states; y += a.yes;
        viols.extend(a.viols); samples.extend(a.samples);
    }
    viols.sort_by(|a, b| (&a.0, a.1.len(), &a.1).cmp(&(&b.0, b.1.len(), &b.1)));
    samples.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
    if let Some(x) = samples.get(samples.len() / 2) { rep.sample(format!("{}: {}", part, x)); }
    for (k, sub, w) in viols.into_iter().take(300) { rep.viol(&k, &sub, w); }
    rep.set(&format!("{}_inputs", part), s);
    rep.set(&format!("{}_accepted", part), y);
}
