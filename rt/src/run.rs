//! Exploration engines that run generated codecs against the reference
//! semantics and against explored environments.
use crate::ast::*;
use crate::env::*;
use crate::sem;
use crate::vals::Gen;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

// ------------------------------------------------------------- instrumentation
/// allocator that notices requests out of proportion to the input
pub struct Alloc;
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);
const HUGE: usize = 512 << 20;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[inline]
fn note(n: usize) {
    if n > LARGEST.load(Relaxed) {
        LARGEST.store(n, Relaxed);
        if n > HUGE && WATCH.load(Relaxed) {
            let m = b"HUGE\n";
            extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
            unsafe { write(2, m.as_ptr(), m.len()); _exit(98) }
        }
    }
}
/// a measure of how much a value holds
fn weight(v: &Val) -> usize { match v { Val::A(v) | Val::R(v) => 16 + v.iter().map(weight).sum::<usize>(), Val::S(s) => s.len(), Val::V(_, x) => weight(x), _ => 16 } }
/// what the code under test may reserve at once for an input of n bytes
fn allowance(n: usize) -> usize { (1 << 20) + 64 * n }

static CASE: AtomicU64 = AtomicU64::new(0);
static BUSY: AtomicBool = AtomicBool::new(false);
thread_local! { static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub struct Codec {
    pub enc: fn(&Val, &[Val], &mut dyn Write) -> Result<(), String>,
    pub dec: fn(&[Val], &mut dyn BufRead) -> Result<Val, String>,
    #[cfg(feature = "async")]
    pub enc_a: for<'a> fn(&'a Val, &'a [Val], &'a mut aio::AWr<'a>) -> Fut<'a, ()>,
    #[cfg(feature = "async")]
    pub dec_a: for<'a> fn(&'a [Val], &'a mut aio::ARd<'a>) -> Fut<'a, Val>,
    /// named constants, getters and setters with their values
    pub probe: fn(&mut dyn FnMut(String, u128)),
}
#[cfg(feature = "async")]
pub type Fut<'a, T> = std::pin::Pin<Box<dyn std::future::Future<Output = Result<T, String>> + 'a>>;

#[derive(Clone, Debug, PartialEq)]
pub enum O<T> { Ok(T), Err(String), Panic(String) }
impl<T> O<T> {
    fn ok(&self) -> Option<&T> { match self { O::Ok(v) => Some(v), _ => None } }
    fn class(&self) -> &'static str { match self { O::Ok(_) => "ok", O::Err(_) => "error", O::Panic(_) => "panic" } }
}
impl O<Val> { fn show(&self) -> String { match self { O::Ok(v) => format!("Ok({})", v.show()), O::Err(e) => format!("Err({})", e), O::Panic(p) => format!("PANIC({})", p) } } }
impl O<()> { fn show(&self) -> String { match self { O::Ok(_) => "Ok".into(), O::Err(e) => format!("Err({})", e), O::Panic(p) => format!("PANIC({})", p) } } }

pub fn hex(b: &[u8]) -> String { if b.is_empty() { return "-".into() } b.iter().map(|x| format!("{:02x}", x)).collect() }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Out {
    pub states: u64, pub transitions: u64, pub impls: u64, pub validated: u64, pub capped: u64, pub skipped: u64,
    pub nviol: usize, keys: Vec<String>, pub samples: Vec<String>, idx: usize, log: Option<std::fs::File>, only: Option<u64>,
}
impl Out {
    fn viol(&mut self, key: &str, what: String) {
        self.nviol += 1;
        if self.keys.iter().filter(|k| **k == key).count() >= 2 || self.keys.len() > 40 { return; }
        self.keys.push(key.to_string());
        let what = if what.chars().count() > 4000 { format!("{} ... {}", what.chars().take(2500).collect::<String>(), what.chars().rev().take(1200).collect::<Vec<_>>().into_iter().rev().collect::<String>()) } else { what };
        println!("VIOL\t{}\t{}\t{}", self.idx, key, what.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " "));
    }
    fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 2 { let s = f(); self.samples.push(s) } }
}

pub struct Cx<'a> { pub spec: &'a Spec, pub codec: &'a Codec, pub tier: Tier, pub out: Out, pub args: Vec<Val> }

/// sentinel bytes behind a message
const TAIL: [u8; 3] = [0xa5, 0x5a, 0xc3];

impl<'a> Cx<'a> {
    fn q(&self, quick: usize, thorough: usize) -> usize { if self.tier == Tier::Quick { quick } else { thorough } }
    /// runs the code under test once
    fn guard<T>(&mut self, size: usize, desc: &dyn Fn() -> String, f: impl FnOnce() -> Result<T, String>) -> O<T> {
        CASE.fetch_add(1, Relaxed);
        self.out.impls += 1;
        if let Some(l) = &mut self.out.log {
            use std::io::Seek;
            let d = format!("{}\t{}", self.out.idx, desc());
            let _ = l.set_len(0); let _ = l.seek(std::io::SeekFrom::Start(0)); let _ = l.write_all(d.as_bytes());
        }
        LARGEST.store(0, Relaxed);
        WATCH.store(true, Relaxed);
        BUSY.store(true, Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        BUSY.store(false, Relaxed);
        WATCH.store(false, Relaxed);
        let big = LARGEST.load(Relaxed);
        // compressed data says more than its size
        let size = if self.loose() { size * 64 } else { size };
        if big > allowance(size) { let d = desc(); self.out.viol("allocation", format!("requested {} bytes at once for {} bytes of data: {}", big, size, d)); }
        match r { Ok(Ok(v)) => O::Ok(v), Ok(Err(e)) => O::Err(e), Err(_) => O::Panic(PANIC.with(|p| p.borrow().clone())) }
    }
    fn enc_with<'p>(&mut self, v: &Val, plan: &'p [(usize, Wv)], every: Option<usize>) -> (O<()>, Wr<'p>) {
        let mut w = Wr::new(plan);
        w.every = every;
        let (c, args) = (self.codec, self.args.clone());
        let r = self.guard(weight(v), &|| format!("encode args={} value={} writer={:?} every={:?}", Val::A(args.clone()).show(), v.show(), plan, every), || (c.enc)(v, &args, &mut w));
        (r, w)
    }
    fn enc(&mut self, v: &Val) -> (O<()>, Vec<u8>) { let (r, w) = self.enc_with(v, &[], None); (r, w.out) }
    fn dec_with<'p>(&mut self, data: &'p [u8], plan: &'p [Ev], rest: usize) -> (O<Val>, Rd<'p>) {
        let mut rd = Rd::new(data, plan).rest(rest);
        let (c, args) = (self.codec, self.args.clone());
        let r = self.guard(data.len(), &|| format!("decode args={} bytes={} reader=[{}]/{}", Val::A(args.clone()).show(), hex(data), show(plan), rest), || (c.dec)(&args, &mut rd));
        (r, rd)
    }
    fn dec(&mut self, data: &[u8]) -> (O<Val>, usize, bool) { let (r, rd) = self.dec_with(data, &[], 0); (r, rd.pos, rd.eof_seen) }

    /// values of the root with what the model says about them
    fn values(&mut self, cap: usize, rich: bool) -> Vec<(Val, sem::R<(Vec<u8>, Val)>)> {
        let vs = Gen::new(self.spec, cap, rich).root();
        let mut out = vec![];
        for v in vs {
            let m = sem::encode(self.spec, &self.args, &v);
            self.out.states += 1;
            out.push((v, m));
        }
        out
    }
    /// values the format can carry: the model decodes their encoding to them
    fn good(&mut self, cap: usize, rich: bool) -> Vec<(Val, Vec<u8>, Val)> {
        let mut out: Vec<(Val, Vec<u8>, Val)> = vec![];
        for (v, m) in self.values(cap, rich) {
            if let Ok((b, n)) = m {
                let d = sem::decode(self.spec, &self.args, &b);
                if d.used == b.len() && d.res.as_ref() == Ok(&n) { out.push((v, b, n)) } else { self.out.skipped += 1; }
            }
        }
        let most = self.q(300, 2000).min(cap);
        let more = self.harvest(most);
        let seen: std::collections::HashSet<Vec<u8>> = out.iter().map(|x| x.1.clone()).collect();
        out.extend(more.into_iter().filter(|x| !seen.contains(&x.1)));
        out
    }
    /// values that messages carry, found by enumerating byte strings in the model alone:
    /// consistent by construction, however many fields depend on one another
    fn harvest(&mut self, most: usize) -> Vec<(Val, Vec<u8>, Val)> {
        let al = self.alphabet();
        let maxlen = if self.spec.open || self.spec.alphabet.is_some() { 8 } else { 24 };
        let mut left = self.q(6000, 60000);
        let mut seen = std::collections::HashSet::new();
        let mut out: Vec<(Val, Vec<u8>, Val)> = vec![];
        let mut level: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..maxlen {
            let mut next = vec![];
            let mut found: Vec<(Val, Vec<u8>, Val)> = vec![];
            for s in level {
                if left == 0 { break; }
                left -= 1;
                let m = sem::decode(self.spec, &self.args, &s);
                self.out.states += 1;
                if let Ok(v) = &m.res {
                    if let Ok((b, n)) = sem::encode(self.spec, &self.args, v) {
                        let d = sem::decode(self.spec, &self.args, &b);
                        if d.used == b.len() && d.res.as_ref() == Ok(&n) && seen.insert(b.clone()) { found.push((v.clone(), b, n)) }
                    }
                }
                if m.hit_end && next.len() < 200_000 { for c in &al { let mut t = s.clone(); t.extend(c); next.push(t); } }
            }
            // an even share of every length, spread over what was found
            let share = (most / 4).max(1);
            let k = (found.len() + share - 1) / share.max(1);
            out.extend(found.into_iter().step_by(k.max(1)));
            if left == 0 || next.is_empty() { break; }
            // when there are more than can be visited, an even spread of them
            let k = (next.len() + left - 1) / left;
            level = next.into_iter().step_by(k.max(1)).collect();
        }
        out.truncate(most);
        out
    }
    /// up to n values with pairwise different encodings of different length where possible
    fn few(&mut self, n: usize, maxlen: usize) -> Vec<(Val, Vec<u8>, Val)> {
        let all = self.good(400, false);
        let mut out: Vec<(Val, Vec<u8>, Val)> = vec![];
        for pass in 0..2 {
            for x in &all {
                if out.len() >= n { break; }
                if x.1.len() > maxlen || out.iter().any(|y| y.1 == x.1) { continue; }
                if pass == 0 && out.iter().any(|y| y.1.len() == x.1.len()) { continue; }
                out.push(x.clone());
            }
        }
        out
    }
    /// gzip may be written in many ways; whatever the model reads as the same counts
    fn loose(&self) -> bool { self.spec.ffi_names().any(|n| n == "gzip") }
    fn same_bytes(&self, o: &[u8], b: &[u8], n: &Val) -> bool {
        if o == b { return true; }
        if !self.loose() { return false; }
        let d = sem::decode(self.spec, &self.args, o);
        d.used == o.len() && matches!(d.res, Ok(x) if self.same_val(&x, n, b))
    }
    fn same_val(&self, x: &Val, n: &Val, b: &[u8]) -> bool { x == n || self.loose() && matches!(sem::encode(self.spec, &self.args, x), Ok((b2, n2)) if b2 == b && n2 == *n) }
    fn at(&self, v: &Val) -> String { if self.args.is_empty() { v.show() } else { format!("args {} value {}", Val::A(self.args.clone()).show(), v.show()) } }

    // --------------------------------------------------------------- engines
    pub fn round(&mut self) {
        let cap = self.q(1200, 5000).max(self.spec.big);
        for (v, b, n) in self.good(cap, true) {
            let (r, o) = self.enc(&v);
            self.out.transitions += 2;
            let O::Ok(()) = r else { self.out.viol(&format!("round/encode-{}", r.class()), format!("{} does not encode: {}", self.at(&v), r.show())); continue };
            let mut s = o.clone();
            if !self.spec.open { s.extend(TAIL); }
            let (d, used, _) = self.dec(&s);
            match &d {
                O::Ok(x) if self.same_val(x, &n, &b) => {
                    if used != o.len() { self.out.viol("round/consumed", format!("{} encodes to {} but decoding {} consumes {} bytes", self.at(&v), hex(&o), hex(&s), used)); }
                    // a value with a field that its condition leaves out need not be computed with like the one without
                    if !matches!(sem::encode(self.spec, &self.args, x), Ok((b2, _)) if b2 == b) { self.out.skipped += 1; continue; }
                    let (r2, o2) = self.enc(x);
                    if r2.ok().is_none() || o2 != o { self.out.viol("round/reencode", format!("{} encodes to {}; decoded {} encodes to {} {}", self.at(&v), hex(&o), x.show(), hex(&o2), r2.show())); }
                    self.out.validated += 1;
                    self.out.sample(|| format!("{} <-> {}", v.show(), hex(&b)));
                }
                _ => self.out.viol(&format!("round/decode-{}", d.class()), format!("{} encodes to {} which decodes to {}", self.at(&v), hex(&o), d.show())),
            }
        }
    }
    pub fn wire(&mut self) {
        let cap = self.q(1200, 5000).max(self.spec.big);
        for (v, b, n) in self.good(cap, true) {
            let (r, o) = self.enc(&v);
            self.out.transitions += 2;
            match &r {
                O::Ok(()) if self.same_bytes(&o, &b, &n) => { self.out.validated += 1; self.out.sample(|| format!("{} -> {}", v.show(), hex(&b))); }
                O::Ok(()) => self.out.viol("wire/bytes", format!("{} encodes to {}, specified {}", self.at(&v), hex(&o), hex(&b))),
                _ => self.out.viol(&format!("wire/encode-{}", r.class()), format!("{} specified as {} does not encode: {}", self.at(&v), hex(&b), r.show())),
            }
            let mut s = b.clone();
            if !self.spec.open { s.extend(TAIL); }
            let (d, used, _) = self.dec(&s);
            match &d {
                O::Ok(x) if *x == n && used == b.len() => self.out.validated += 1,
                _ => self.out.viol(&format!("wire/decode-{}", d.class()), format!("{} (then {} other bytes) is {} but decodes to {} consuming {}", hex(&b), s.len() - b.len(), self.at(&n), d.show(), used)),
            }
        }
    }
    pub fn bad(&mut self) {
        let cap = self.q(1500, 6000).max(self.spec.big);
        let mut all = self.values(cap, true);
        // values consistent in all but one place, which another consistent value provides
        let most = self.q(12, 40);
        let pure: Vec<Val> = self.harvest(most).into_iter().map(|x| x.0).collect();
        let mut seen: std::collections::HashSet<Val> = all.iter().map(|x| x.0.clone()).collect();
        for a in &pure { for b in &pure {
            let mut mixed = vec![];
            crossings(a, b, &mut mixed);
            for v in mixed { if all.len() < 4 * cap && seen.insert(v.clone()) { let m = sem::encode(self.spec, &self.args, &v); self.out.states += 1; all.push((v, m)); } }
        } }
        for (v, m) in all {
            let e = match m { Err(e) => e, Ok((b, n)) => {
                // consistent values are the business of the other engines, but a panic is one anywhere
                let d = sem::decode(self.spec, &self.args, &b);
                if d.used != b.len() || d.res != Ok(n) { self.out.skipped += 1; }
                let (r, _) = self.enc(&v);
                self.out.transitions += 1;
                match r { O::Panic(_) => self.out.viol("bad/panic", format!("encoding {}: {}", self.at(&v), r.show())), _ => self.out.validated += 1 }
                continue;
            } };
            let (r, o) = self.enc(&v);
            self.out.transitions += 1;
            match &r {
                O::Err(_) => { self.out.validated += 1; self.out.sample(|| format!("{} rejected ({:?})", v.show(), e)); }
                O::Panic(_) => self.out.viol("bad/panic", format!("encoding {} ({:?}): {}", self.at(&v), e, r.show())),
                O::Ok(()) => self.out.viol(&format!("bad/accepted {:?}", e), format!("encoding {} must fail ({:?}) but wrote {}", self.at(&v), e, hex(&o))),
            }
        }
    }
    fn check_bytes(&mut self, data: &[u8], mode: &str) -> (bool, bool) {
        let m = sem::decode(self.spec, &self.args, data);
        let (d, used, eof) = self.dec(data);
        self.out.states += 1;
        let tell = |cx: &Cx| if cx.args.is_empty() { hex(data) } else { format!("{} with args {}", hex(data), Val::A(cx.args.clone()).show()) };
        match (&m.res, &d) {
            (_, O::Panic(_)) => { let t = tell(self); self.out.viol(&format!("{}/panic", mode), format!("decoding {}: {}", t, d.show())) }
            (Ok(v), O::Ok(x)) if v == x => {
                if used != m.used { let t = tell(self); self.out.viol(&format!("{}/consumed", mode), format!("decoding {} gives {} and consumes {} bytes, specified {}", t, v.show(), used, m.used)); }
                else { self.out.validated += 1; self.out.sample(|| format!("{} -> {}", hex(data), v.show())); }
            }
            (Ok(v), _) => { let t = tell(self); self.out.viol(&format!("{}/decode-{}", mode, d.class()), format!("{} is {} but decodes to {}", t, v.show(), d.show())) }
            (Err(e), O::Ok(x)) => { let t = tell(self); self.out.viol(&format!("{}/accepted {:?}", mode, e), format!("{} is malformed ({:?}) but decodes to {}", t, e, x.show())) }
            (Err(_), O::Err(_)) => self.out.validated += 1,
        }
        (eof || m.hit_end, m.res.is_ok())
    }
    fn alphabet(&self) -> Vec<Vec<u8>> {
        if let Some(a) = &self.spec.alphabet { return a.clone(); }
        let mut v: Vec<u8> = vec![0, 1, 2, 0x80, 0xff];
        let mut add = |b: u8| if !v.contains(&b) && v.len() < 9 { v.push(b) };
        for b in literals(self.spec) { add(b) }
        v.into_iter().map(|b| vec![b]).collect()
    }
    /// every start of a message of the length the specification asks for: decoded, and encoded back
    fn complete(&mut self) {
        let n = self.spec.complete;
        if n == 0 { return; }
        for i in 0..1u64 << (8 * n) {
            // what follows the enumerated bytes reads as zero
            let mut data = i.to_be_bytes()[8 - n..].to_vec();
            data.extend([0; 80]);
            let data = &data[..];
            self.out.transitions += 1;
            self.check_bytes(data, "complete");
            let m = sem::decode(self.spec, &self.args, data);
            let Ok(v) = &m.res else { continue };
            let Ok((b, _)) = sem::encode(self.spec, &self.args, v) else { continue };
            let (r, o) = self.enc(v);
            self.out.transitions += 1;
            match &r {
                O::Ok(()) if o == b => self.out.validated += 1,
                O::Ok(()) => self.out.viol("complete/bytes", format!("{} encodes to {}, specified {}", self.at(v), hex(&o), hex(&b))),
                _ => self.out.viol(&format!("complete/encode-{}", r.class()), format!("{} specified as {} does not encode: {}", self.at(v), hex(&b), r.show())),
            }
        }
    }
    /// every byte string over the alphabet, grown only where the decoder asked for more
    pub fn bytes(&mut self) {
        self.complete();
        let cap = self.q(10000, 80000);
        let al = self.alphabet();
        let maxlen = if self.spec.open || self.spec.alphabet.is_some() { 8 } else { 24 };
        let mut level: Vec<Vec<u8>> = vec![vec![]];
        let mut n = 0;
        let mut depth = 0;
        'search: while !level.is_empty() && depth < maxlen {
            let mut next = vec![];
            for s in level {
                if n >= cap { self.out.capped += 1; break 'search; }
                n += 1;
                self.out.transitions += 1;
                let (more, _) = self.check_bytes(&s, "bytes");
                if more { for c in &al { let mut t = s.clone(); t.extend(c); next.push(t); } }
            }
            level = next;
            depth += 1;
        }
        // well-formed messages with up to two bytes replaced, and with hostile counts
        let cap = self.q(10000, 60000);
        let mut n = 0;
        let mut al: Vec<u8> = al.into_iter().filter(|x| x.len() == 1).map(|x| x[0]).collect();
        for b in [0, 1, 0x7f, 0x80, 0xff] { if !al.contains(&b) { al.push(b) } }
        let take = self.q(16, 60);
        for (_, b, _) in self.few(take, 40) {
            for i in 0..b.len() {
                for x in &al {
                    if *x == b[i] { continue; }
                    if n >= cap { self.out.capped += 1; return; }
                    let mut t = b.clone();
                    t[i] = *x;
                    n += 1;
                    self.out.transitions += 1;
                    self.check_bytes(&t, "bytes");
                    for j in i + 1..b.len().min(i + 4) {
                        for y in al.iter().take(6) {
                            if *y == b[j] || n >= cap { continue; }
                            let mut u = t.clone();
                            u[j] = *y;
                            n += 1;
                            self.out.transitions += 1;
                            self.check_bytes(&u, "bytes");
                        }
                    }
                }
                // eight bytes at once: lengths of any width at their limits
                for w in [2usize, 4, 8, 16] {
                    if i + w > b.len() { continue; }
                    for f in [0xffu8, 0x7f] {
                        let mut t = b.clone();
                        for k in 0..w { t[i + k] = if k == 0 { f } else { 0xff }; }
                        self.out.transitions += 1;
                        self.check_bytes(&t, "bytes");
                        t[i..i + w].reverse();
                        self.check_bytes(&t, "bytes");
                    }
                }
            }
        }
    }
    pub fn trunc(&mut self) {
        let vals = self.q(120, 600);
        for (v, b, n) in self.few(vals, 64) {
            for k in 0..=b.len() {
                self.out.transitions += 1;
                self.check_bytes(&b[..k], "trunc");
            }
            // every position of a failure: before each byte, with bytes arriving singly or all at once
            for k in 0..=b.len() {
                for single in [true, false] {
                    let mut plan = vec![];
                    if single { for _ in 0..k { plan.push(Ev::Chunk(1)); } } else if k > 0 { plan.push(Ev::Chunk(k)); }
                    plan.push(Ev::Fail);
                    for _ in 0..3 { plan.push(Ev::Fail); }
                    let (d, rd) = self.dec_with(&b, &plan, 0);
                    self.out.states += 1;
                    self.out.transitions += 1;
                    let (failed, pos) = (rd.failed, rd.pos);
                    match (&d, failed) {
                        (O::Err(_), true) => self.out.validated += 1,
                        (O::Ok(x), false) if *x == n && pos == b.len() => self.out.validated += 1,
                        _ => self.out.viol(&format!("fail/{}", d.class()), format!("{} = {}: reader failing after {} bytes ({}, failure {}): {} having consumed {}", self.at(&v), hex(&b), k, show(&plan), if failed { "seen" } else { "not seen" }, d.show(), pos)),
                    }
                }
            }
        }
    }
    pub fn frag(&mut self) {
        let vals = self.q(30, 120);
        let full = self.q(9, 12);
        let few = self.few(vals, 40);
        for (v, b, n) in &few {
            let mut s = b.clone();
            if !self.spec.open { s.extend(&TAIL[..1]); }
            let l = s.len();
            let mut plans: Vec<(Vec<Ev>, usize)> = vec![(vec![], 1), (vec![], 2), (vec![], 3)];
            if l <= full && l > 0 {
                for m in 0..1u32 << (l - 1) {
                    let mut p = vec![];
                    let mut run = 1;
                    for i in 0..l - 1 { if m >> i & 1 == 1 { p.push(Ev::Chunk(run)); run = 1; } else { run += 1; } }
                    p.push(Ev::Chunk(run));
                    plans.push((p, 0));
                }
            } else {
                for i in 1..l { plans.push((vec![Ev::Chunk(i)], 0)); for j in i + 1..l { if l <= 24 || j - i <= 4 { plans.push((vec![Ev::Chunk(i), Ev::Chunk(j - i)], 0)); } } }
            }
            // interruptions: one or two, anywhere
            for i in 0..=l {
                let mut p = vec![Ev::Chunk(1); i];
                p.push(Ev::Intr);
                plans.push((p.clone(), 1));
                p.push(Ev::Intr);
                plans.push((p.clone(), 0));
                p.pop();
                for j in i + 1..=l.min(i + 4) { let mut q = p.clone(); for _ in i..j { q.push(Ev::Chunk(1)); } q.push(Ev::Intr); plans.push((q, 1)); }
                if i > 0 { plans.push((vec![Ev::Chunk(i), Ev::Intr], 0)); }
            }
            for (p, rest) in plans {
                let (d, rd) = self.dec_with(&s, &p, rest);
                let pos = rd.pos;
                self.out.states += 1;
                self.out.transitions += 1;
                match &d {
                    O::Ok(x) if x == n && pos == b.len() => { self.out.validated += 1; self.out.sample(|| format!("{} delivered [{}]/{}", hex(b), show(&p), rest)); }
                    _ => self.out.viol(&format!("frag/{}{}", d.class(), if p.contains(&Ev::Intr) { "-interrupted" } else { "" }), format!("{} = {} delivered as [{}] then {}: {} consuming {}", self.at(v), hex(&s), show(&p), if rest == 0 { "the rest".to_string() } else { format!("{} at a time", rest) }, d.show(), pos)),
                }
            }
            // malformed input, too, is judged alike however it arrives
            for k in 0..b.len() {
                let whole = self.dec(&b[..k]).0;
                for rest in [1, 2] {
                    let (d, _) = self.dec_with(&b[..k], &[], rest);
                    self.out.states += 1;
                    if d.class() != whole.class() || d.ok() != whole.ok() { self.out.viol("frag/prefix", format!("{} at once: {}, {} at a time: {}", hex(&b[..k]), whole.show(), rest, d.show())); } else { self.out.validated += 1; }
                }
            }
        }
        // back to back
        if !self.spec.open {
            let c = self.codec;
            let args = self.args.clone();
            let k = self.q(8, 20);
            let few: Vec<_> = few.into_iter().take(k).collect();
            for a in &few { for b in &few { for rest in [0usize, 1, 3] {
                let mut s = a.1.clone();
                s.extend(&b.1);
                s.extend(&a.1);
                let want = vec![a.2.clone(), b.2.clone(), a.2.clone()];
                let mut rd = Rd::new(&s, &[]).rest(rest);
                let r = self.guard(s.len(), &|| format!("three messages back to back {} by {}", hex(&s), rest), || { let mut v = vec![]; for _ in 0..3 { v.push((c.dec)(&args, &mut rd)?); } Ok(Val::A(v)) });
                self.out.states += 1;
                self.out.transitions += 2;
                if r.ok() != Some(&Val::A(want.clone())) || rd.pos != s.len() { let p = rd.pos; self.out.viol("frag/stream", format!("messages {} back to back in {} decode to {} leaving {} bytes", Val::A(want).show(), hex(&s), r.show(), s.len() - p)); } else { self.out.validated += 1; }
            } } }
        }
    }
    pub fn short(&mut self) {
        let vals = self.q(60, 240);
        for (v, _, _) in self.few(vals, 64) {
            let (r, w) = self.enc_with(&v, &[], None);
            let full = w.out.clone();
            let O::Ok(()) = r else { self.out.viol(&format!("short/encode-{}", r.class()), format!("{}: {}", self.at(&v), r.show())); continue };
            for e in [1, 2, 3] {
                let (r, w) = self.enc_with(&v, &[], Some(e));
                let out = w.out.clone();
                self.out.states += 1;
                if r.ok().is_none() || out != full { self.out.viol("short/every", format!("{} written {} bytes at a time gives {} {}, in full {}", self.at(&v), e, r.show(), hex(&out), hex(&full))); } else { self.out.validated += 1; }
            }
            let cap = self.q(1500, 10000);
            let mut stack: Vec<Vec<(usize, Wv)>> = vec![vec![]];
            let mut n = 0;
            // breadth first over deviations from a writer that takes everything
            let mut depth = 0;
            while depth < 3 && !stack.is_empty() {
                let mut next = vec![];
                for p in stack {
                    if n > cap { self.out.capped += 1; next.clear(); break; }
                    n += 1;
                    let (r, w) = self.enc_with(&v, &p, None);
                    let (calls, failed, out, sizes) = (w.calls, w.failed, w.out.clone(), w.sizes.clone());
                    self.out.states += 1;
                    self.out.transitions += 1;
                    let good = if failed { matches!(r, O::Err(_)) && full.starts_with(&out) } else { r.ok().is_some() && out == full };
                    if good { self.out.validated += 1; self.out.sample(|| format!("{} writer {:?}", v.show(), p)); }
                    else { self.out.viol(&format!("short/{}-{}", r.class(), if failed { "failure" } else { "short" }), format!("{} to a writer with {:?}: {}, wrote {}, full encoding {}", self.at(&v), p, r.show(), hex(&out), hex(&full))); }
                    if failed { continue; }
                    let from = p.last().map_or(0, |x| x.0 + 1);
                    for c in from..calls {
                        let len = sizes[c];
                        let mut acts = vec![Wv::Fail, Wv::Zero, Wv::Intr];
                        if len > 1 { acts.push(Wv::Short(1)); }
                        if len > 2 { acts.push(Wv::Short(len - 1)); }
                        for a in acts { let mut q = p.clone(); q.push((c, a)); next.push(q); }
                    }
                }
                stack = next;
                depth += 1;
            }
        }
    }
    /// values of many sizes: bytes and value as specified, whatever the sizes of the reads and writes,
    /// and an error wherever the input ends or the environment fails
    pub fn large(&mut self) {
        let cap = self.q(5000, 20000);
        let b64 = self.spec.ffi_names().any(|n| n == "base64");
        // the transforms of the tests look at all they are given each time
        let mapped = crate::fam::has(self.spec, "xform");
        let steps = [1usize, 3, 255, 256, 1000, 4096, 8191, 8192, 65535, 65536];
        for (v, m) in self.values(cap, true) {
            let (b, n) = match m {
                Ok(x) => x,
                Err(e) => {
                    let (r, o) = self.enc(&v);
                    self.out.transitions += 1;
                    match r { O::Err(_) => self.out.validated += 1, r => self.out.viol(&format!("large/bad-{}", r.class()), format!("a value of {} bytes that must not encode ({:?}): {}, wrote {} bytes; {}", o.len(), e, r.show(), o.len(), self.at(&v))) }
                    continue;
                }
            };
            let d = sem::decode(self.spec, &self.args, &b);
            if d.used != b.len() || d.res.as_ref() != Ok(&n) { self.out.skipped += 1; continue; }
            let l = b.len();
            let (r, w) = self.enc_with(&v, &[], None);
            let (o, calls) = (w.out, w.calls);
            self.out.states += 1;
            self.out.transitions += 1;
            if r.ok().is_none() || !self.same_bytes(&o, &b, &n) {
                let at = o.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(o.len().min(l));
                let what = format!("a value of {} bytes: {}, {} bytes written, different from byte {}; {}", l, r.show(), o.len(), at, self.at(&v));
                self.out.viol("large/encode", what);
                continue;
            }
            self.out.validated += 1;
            self.out.sample(|| format!("a value of {} bytes", l));
            let small = l < 200 || l > 600 && l % 256 > 3;
            for e in steps {
                // the base64 writer answers short writes with Ok(0)
                if e >= l || small && e > 3 || b64 || mapped && e < 200 && l > 3000 { continue; }
                let (r, w) = self.enc_with(&v, &[], Some(e));
                let out = w.out;
                self.out.transitions += 1;
                if r.ok().is_some() && out == o { self.out.validated += 1 } else { let what = format!("a value of {} bytes written at most {} at a time: {}, {} bytes; {}", l, e, r.show(), out.len(), self.at(&v)); self.out.viol("large/short-writes", what) }
            }
            if !small && !self.loose() && !b64 {
                for k in [0, calls / 2, calls.saturating_sub(1)] { for a in [Wv::Fail, Wv::Zero, Wv::Intr, Wv::Short(1)] {
                    let plan = [(k, a)];
                    let (r, w) = self.enc_with(&v, &plan, None);
                    let (failed, out) = (w.failed, w.out);
                    self.out.transitions += 1;
                    if if failed { r.class() == "error" && o.starts_with(&out) } else { r.ok().is_some() && out == o } { self.out.validated += 1 } else { let what = format!("a value of {} bytes, write {} answered {:?}: {}, {} bytes; {}", l, k, a, r.show(), out.len(), self.at(&v)); self.out.viol("large/write-failure", what) }
                } }
            }
            let mut s = b.clone();
            if !self.spec.open { s.extend(TAIL); }
            for e in std::iter::once(0).chain(steps) {
                if e >= l.max(1) || small && e > 3 || mapped && e > 0 && e < 200 && l > 3000 { continue; }
                let (r, rd) = self.dec_with(&s, &[], e);
                let pos = rd.pos;
                self.out.states += 1;
                self.out.transitions += 1;
                match &r {
                    O::Ok(x) if self.same_val(x, &n, &b) && pos == l => self.out.validated += 1,
                    _ => { let what = format!("{} bytes read {} at a time: {}, {} consumed; {}", l, e, r.class(), pos, self.at(&v)); self.out.viol("large/decode", what) }
                }
            }
            if small { continue; }
            for k in [0, 1, 2, l / 2, 255, 256, 4096, 8192, 65535, 65536, 65537, l.saturating_sub(1)] {
                if k >= l { continue; }
                if !self.loose() {
                    let m = sem::decode(self.spec, &self.args, &b[..k]);
                    let (r, ..) = self.dec(&b[..k]);
                    self.out.states += 1;
                    if match (&m.res, &r) { (Ok(x), O::Ok(y)) => x == y, (Err(_), O::Err(_)) => true, _ => false } { self.out.validated += 1 } else { let what = format!("the first {} of {} bytes: {}; {}", k, l, r.class(), self.at(&v)); self.out.viol("large/truncated", what) }
                }
                let plan = [Ev::Chunk(k), Ev::Fail, Ev::Fail, Ev::Fail, Ev::Fail];
                let (r, rd) = self.dec_with(&b, if k == 0 { &plan[1..] } else { &plan[..] }, 0);
                let failed = rd.failed;
                self.out.transitions += 1;
                if !failed || r.class() == "error" { self.out.validated += 1 } else { let what = format!("the reader fails after {} of {} bytes: {}; {}", k, l, r.class(), self.at(&v)); self.out.viol("large/read-failure", what) }
            }
        }
    }
    #[cfg(not(feature = "async"))]
    pub fn large_async(&mut self) { panic!("built without async") }
    /// the same values, bytes and failures in async code
    #[cfg(feature = "async")]
    pub fn large_async(&mut self) {
        let cap = self.q(5000, 20000);
        for (v, m) in self.values(cap, true) {
            let (s, so) = self.enc(&v);
            let (a, ao, calls, ..) = self.enc_async(&v, &[]);
            self.out.transitions += 1;
            if s.class() != a.class() || so != ao && s.ok().is_some() { let what = format!("{} bytes: sync {} async {} ({} bytes); {}", so.len(), s.show(), a.show(), ao.len(), self.at(&v)); self.out.viol("large-async/encode", what); continue; }
            self.out.validated += 1;
            let Ok((b, n)) = m else { continue };
            let d = sem::decode(self.spec, &self.args, &b);
            if d.used != b.len() || d.res.as_ref() != Ok(&n) { self.out.skipped += 1; continue; }
            let l = b.len();
            let small = l < 200 || l > 600 && l % 256 > 3;
            if !small { for k in [0, calls / 2, calls.saturating_sub(1)] { for w in [Wv::Pend, Wv::Fail, Wv::Zero, Wv::Short(1)] {
                let plan = [(k, w)];
                let (r, out, _, failed, _) = self.enc_async(&v, &plan);
                self.out.transitions += 1;
                if if failed { r.class() == "error" && b.starts_with(&out) } else { r.ok().is_some() && out == b } { self.out.validated += 1 } else { let what = format!("a value of {} bytes, write {} answered {:?}: {}, {} bytes; {}", l, k, w, r.show(), out.len(), self.at(&v)); self.out.viol("large-async/write", what) }
            } } }
            let mut t = b.clone();
            if !self.spec.open { t.extend(TAIL); }
            for e in [0usize, 1, 256, 4096, 8192, 65536] {
                if e >= l.max(1) || small && e > 1 { continue; }
                let plan: Vec<Ev> = if e == 0 { vec![Ev::Pend] } else { (0..l.min(3 * e) / e).flat_map(|_| [Ev::Pend, Ev::Chunk(e)]).collect() };
                let (r, pos, ..) = self.dec_async(&t, &plan, e);
                self.out.states += 1;
                self.out.transitions += 1;
                match &r { O::Ok(x) if *x == n && pos == l => self.out.validated += 1, _ => { let what = format!("{} bytes read {} at a time: {}, {} consumed; {}", l, e, r.class(), pos, self.at(&v)); self.out.viol("large-async/decode", what) } }
            }
            if small { continue; }
            for k in [0, 1, l / 2, 255, 256, 8192, 65535, 65536, l.saturating_sub(1)] { if k < l {
                let (x, ..) = self.dec(&b[..k]);
                let (y, ..) = self.dec_async(&b[..k], &[], 0);
                self.out.states += 1;
                if x.class() == y.class() && x.ok() == y.ok() { self.out.validated += 1 } else { let what = format!("the first {} of {} bytes: sync {} async {}; {}", k, l, x.class(), y.class(), self.at(&v)); self.out.viol("large-async/truncated", what) }
            } }
        }
    }
    #[cfg(feature = "async")]
    fn enc_async<'p>(&mut self, v: &Val, plan: &'p [(usize, Wv)]) -> (O<()>, Vec<u8>, usize, bool, Vec<usize>) {
        let mut w = aio::AWr(Wr::new(plan));
        let (c, args) = (self.codec, self.args.clone());
        let r = {
            // the future borrows the writer for its whole life
            let wr: &mut aio::AWr<'p> = &mut w;
            let wr: &'static mut aio::AWr<'static> = unsafe { std::mem::transmute(wr) };
            let v2: &'static Val = unsafe { std::mem::transmute(v) };
            let a2: &'static [Val] = unsafe { std::mem::transmute(&args[..]) };
            self.guard(weight(v), &|| format!("encode_async args={} value={} writer={:?}", Val::A(args.clone()).show(), v.show(), plan), || aio::block((c.enc_a)(v2, a2, wr)))
        };
        (r, w.0.out, w.0.calls, w.0.failed, w.0.sizes)
    }
    #[cfg(feature = "async")]
    fn dec_async<'p>(&mut self, data: &'p [u8], plan: &'p [Ev], rest: usize) -> (O<Val>, usize, usize, bool) {
        let mut rd = aio::ARd(Rd::new(data, plan).rest(rest));
        let (c, args) = (self.codec, self.args.clone());
        let r = {
            let r: &mut aio::ARd<'p> = &mut rd;
            let r: &'static mut aio::ARd<'static> = unsafe { std::mem::transmute(r) };
            let a2: &'static [Val] = unsafe { std::mem::transmute(&args[..]) };
            self.guard(data.len(), &|| format!("decode_async args={} bytes={} reader=[{}]/{}", Val::A(args.clone()).show(), hex(data), show(plan), rest), || aio::block((c.dec_a)(a2, r)))
        };
        (r, rd.0.pos, rd.0.fills, rd.0.failed)
    }
    #[cfg(feature = "async")]
    pub fn asyncs(&mut self) {
        // same bytes, same failures for every value
        let cap = self.q(500, 2000);
        for (v, _) in self.values(cap, true) {
            let (s, so) = self.enc(&v);
            let (a, ao, ..) = self.enc_async(&v, &[]);
            self.out.transitions += 1;
            if s.class() != a.class() || so != ao && s.ok().is_some() { self.out.viol(&format!("async/encode sync-{} async-{}", s.class(), a.class()), format!("{}: sync {} {}, async {} {}", self.at(&v), s.show(), hex(&so), a.show(), hex(&ao))); } else { self.out.validated += 1; }
        }
        let few = { let n = self.q(24, 100); self.few(n, 40) };
        let mut strings: Vec<Vec<u8>> = vec![vec![]];
        let al = self.alphabet();
        let cap = self.q(1500, 8000);
        let mut i = 0;
        while i < strings.len() && i < cap {
            let s = strings[i].clone();
            i += 1;
            let eof = self.async_same(&s);
            if eof && strings.len() < cap && s.len() < 16 { for c in &al { let mut t = s.clone(); t.extend(c); strings.push(t); } }
        }
        for (v, b, n) in &few {
            let mut s = b.clone();
            for k in 0..b.len() { self.async_same(&b[..k]); for x in [0u8, 1, 0xff, b[k] ^ 0x80] { let mut t = b.clone(); t[k] = x; self.async_same(&t); } }
            if !self.spec.open { s.extend(&TAIL[..1]); }
            // decoding: pending polls and splits
            let l = s.len();
            let mut plans: Vec<(Vec<Ev>, usize)> = vec![(vec![], 1), (vec![], 2)];
            for i in 0..=l {
                let mut p = vec![Ev::Chunk(1); i];
                p.push(Ev::Pend);
                plans.push((p.clone(), 1));
                plans.push((p.clone(), 0));
                p.push(Ev::Pend);
                plans.push((p.clone(), 0));
                p.pop();
                for j in i + 1..=l.min(i + 5) { let mut q = p.clone(); for _ in i..j { q.push(Ev::Chunk(1)); } q.push(Ev::Pend); plans.push((q, 0)); }
                if i > 0 { plans.push((vec![Ev::Chunk(i), Ev::Pend], 0)); plans.push((vec![Ev::Pend, Ev::Chunk(i)], 0)); plans.push((vec![Ev::Chunk(i)], 0)); }
            }
            // pending before every byte
            plans.push((std::iter::repeat([Ev::Pend, Ev::Chunk(1)]).take(l + 1).flatten().collect(), 0));
            for (p, rest) in plans {
                let (d, pos, ..) = self.dec_async(&s, &p, rest);
                self.out.states += 1;
                self.out.transitions += 1;
                match &d {
                    O::Ok(x) if x == n && pos == b.len() => { self.out.validated += 1; self.out.sample(|| format!("{} polled [{}]/{}", hex(b), show(&p), rest)); }
                    _ => self.out.viol(&format!("async/schedule-{}", d.class()), format!("{} = {} polled as [{}]/{}: {} consuming {}", self.at(v), hex(&s), show(&p), rest, d.show(), pos)),
                }
            }
            for k in 0..b.len() {
                let p: Vec<Ev> = std::iter::repeat(Ev::Chunk(1)).take(k).chain([Ev::Pend, Ev::Fail, Ev::Fail, Ev::Fail]).collect();
                let (d, _, _, failed) = self.dec_async(&b, &p, 0);
                self.out.states += 1;
                if failed != matches!(d, O::Err(_)) || matches!(d, O::Panic(_)) { self.out.viol(&format!("async/fail-{}", d.class()), format!("{} = {} failing after {}: {}", self.at(v), hex(&b), k, d.show())); } else { self.out.validated += 1; }
            }
            // encoding: pending, short and failing writes
            let (_, full) = self.enc(v);
            let cap = self.q(500, 4000);
            let mut stack: Vec<Vec<(usize, Wv)>> = vec![vec![]];
            let mut m = 0;
            for _ in 0..3 {
                let mut next = vec![];
                for p in stack {
                    if m > cap { self.out.capped += 1; next.clear(); break; }
                    m += 1;
                    let (r, out, calls, failed, sizes) = self.enc_async(v, &p);
                    self.out.states += 1;
                    self.out.transitions += 1;
                    let good = if failed { matches!(r, O::Err(_)) && full.starts_with(&out) } else { r.ok().is_some() && out == full };
                    if good { self.out.validated += 1; } else { self.out.viol(&format!("async/write-{}-{}", r.class(), failed), format!("{} to a writer with {:?}: {}, wrote {}, full {}", self.at(v), p, r.show(), hex(&out), hex(&full))); }
                    if failed { continue; }
                    let from = p.last().map_or(0, |x| x.0 + 1);
                    for c in from..calls {
                        let mut acts = vec![Wv::Pend, Wv::Fail, Wv::Zero];
                        if sizes[c] > 1 { acts.push(Wv::Short(1)); }
                        for a in acts { let mut q = p.clone(); q.push((c, a)); next.push(q); }
                    }
                }
                stack = next;
            }
        }
    }
    #[cfg(feature = "async")]
    fn async_same(&mut self, s: &[u8]) -> bool {
        let (d, used, eof) = self.dec(s);
        let (a, aused, ..) = self.dec_async(s, &[], 0);
        self.out.states += 1;
        self.out.transitions += 1;
        if d.class() != a.class() || d.ok() != a.ok() || d.ok().is_some() && used != aused { let t = self.args.clone(); self.out.viol(&format!("async/decode sync-{} async-{}", d.class(), a.class()), format!("{} args {}: sync {} ({} bytes), async {} ({} bytes)", hex(s), Val::A(t).show(), d.show(), used, a.show(), aused)); } else { self.out.validated += 1; }
        eof
    }
    #[cfg(not(feature = "async"))]
    pub fn asyncs(&mut self) { panic!("built without async") }

    pub fn probe(&mut self) {
        let want = crate::glue::probe_expect(self.spec);
        let mut got = vec![];
        (self.codec.probe)(&mut |n, v| got.push((n, v)));
        for (i, (n, v)) in want.iter().enumerate() {
            self.out.states += 1;
            match got.get(i) {
                Some((m, w)) if m == n && w == v => self.out.validated += 1,
                Some((_, w)) => self.out.viol("probe", format!("{} is {:#x}, specified {:#x}", n, w, v)),
                None => self.out.viol("probe", format!("{} is missing", n)),
            }
        }
    }
    /// every representation value of one- and two-byte roots
    pub fn reprs(&mut self) {
        let bytes = match &self.spec.root_decl().body.ty { Ty::Enum(s, ..) | Ty::Bits(s, ..) => s.bytes(), _ => return };
        if bytes > 2 { return; }
        let all: u32 = if bytes == 1 { 256 } else { 65536 };
        for x in 0..all {
            let d: Vec<u8> = x.to_be_bytes()[4 - bytes..].to_vec();
            self.out.transitions += 1;
            let m = sem::decode(self.spec, &self.args, &d);
            self.check_bytes(&d, "repr");
            if let Ok(v) = m.res {
                let (r, o) = self.enc(&v);
                if r.ok().is_none() || o != d { self.out.viol("repr/encode", format!("{} decoded from {} encodes to {} {}", v.show(), hex(&d), hex(&o), r.show())); } else { self.out.validated += 1; }
            }
        }
    }
}

/// a with one of its parts as it is in b; parts in the same place have the same type
fn crossings(a: &Val, b: &Val, out: &mut Vec<Val>) {
    if a == b { return; }
    match (a, b) {
        (Val::R(x), Val::R(y)) => for i in 0..x.len().min(y.len()) {
            let mut inner = vec![];
            crossings(&x[i], &y[i], &mut inner);
            for v in inner { let mut z = x.clone(); z[i] = v; out.push(Val::R(z)); }
        },
        (Val::A(x), Val::A(y)) => {
            out.push(b.clone());
            for i in 0..x.len() { for j in 0..y.len() {
                let mut inner = vec![];
                crossings(&x[i], &y[j], &mut inner);
                for v in inner { let mut z = x.clone(); z[i] = v; out.push(Val::A(z)); }
            } }
        }
        (Val::V(i, x), Val::V(j, y)) if i == j => {
            let mut inner = vec![];
            crossings(x, y, &mut inner);
            out.extend(inner.into_iter().map(|v| Val::V(*i, Box::new(v))));
        }
        _ => out.push(b.clone()),
    }
}

/// bytes that appear as literals in a specification
fn literals(spec: &Spec) -> Vec<u8> {
    let mut out = vec![];
    let text = spec.text();
    // the decimal numbers of the text, one byte each, and string characters
    let mut num = None::<u64>;
    let mut in_str = false;
    let mut prev = ' ';
    for c in text.chars().chain([' ']) {
        if c == '"' { in_str = !in_str; prev = c; continue; }
        if in_str { if c != '\\' && c.is_ascii() { out.push(c as u8); } prev = c; continue; }
        if c.is_ascii_digit() && (num.is_some() || !prev.is_alphanumeric() && prev != '_') { num = Some(num.unwrap_or(0).wrapping_mul(10).wrapping_add(c as u64 - 48)); }
        else if let Some(n) = num.take() { if n < 256 { out.push(n as u8); } }
        prev = c;
    }
    out
}

/// entry point of a shard binary
pub fn main(codecs: &[(usize, &Codec)]) -> ! {
    let av: Vec<String> = std::env::args().collect();
    let (family, mode, tier) = (av[1].clone(), av[2].clone(), if av[3] == "thorough" { Tier::Thorough } else { Tier::Quick });
    let log = av.get(4).filter(|x| x.starts_with("log=")).map(|p| std::fs::File::create(&p[4..]).expect("log"));
    let skip: Vec<usize> = av.iter().filter_map(|x| x.strip_prefix("skip=")).flat_map(|x| x.split(',').map(|y| y.parse().unwrap())).collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let inside = BUSY.load(Relaxed);
        PANIC.with(|p| *p.borrow_mut() = m.clone());
        if !inside { eprintln!("harness panic: {} at {:?}", m, i.location()); }
    }));
    // a run of the code under test that takes this long hangs
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CASE.load(Relaxed);
            if BUSY.load(Relaxed) && c == last.0 { last.1 += 1; if last.1 > 20 { eprintln!("HANG"); std::process::exit(97); } } else { last = (c, 0); }
        }
    });
    let (family, feat) = family.split_once(':').unwrap_or((&family, ""));
    let specs = crate::fam::specs(family, tier);
    let mut outs = (vec![], None);
    let mut log = log;
    for (idx, codec) in codecs {
        if skip.contains(idx) { continue; }
        let spec = &specs[*idx];
        if !crate::fam::has(spec, feat) { continue; }
        let out = Out { states: 0, transitions: 0, impls: 0, validated: 0, capped: 0, skipped: 0, nviol: 0, keys: vec![], samples: vec![], idx: *idx, log: log.take(), only: None };
        let t0 = std::time::Instant::now();
        let mut cx = Cx { spec, codec, tier, out, args: vec![] };
        for m in mode.split('+') {
            if m == "probe" { cx.probe(); continue; }
            for a in &spec.args {
                cx.args = a.clone();
                match m {
                    "round" => cx.round(), "wire" => cx.wire(), "bad" => cx.bad(), "bytes" => cx.bytes(), "trunc" => cx.trunc(),
                    "frag" => cx.frag(), "short" => cx.short(), "async" => cx.asyncs(), "reprs" => cx.reprs(), "large" => cx.large(), "largeasync" => cx.large_async(),
                    x => panic!("mode {}", x),
                }
            }
        }
        let _ = cx.out.only;
        log = cx.out.log.take();
        if std::env::var("PS_TIMES").is_ok() { eprintln!("TIME {:.2} {} {}", t0.elapsed().as_secs_f64(), idx, spec.text().chars().take(160).collect::<String>().replace('\n', " ")); }
        println!("STAT\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", idx, cx.out.states, cx.out.transitions, cx.out.impls, cx.out.validated, cx.out.capped, cx.out.skipped, cx.out.nviol);
        if let Some(s) = cx.out.samples.first() { println!("SAMPLE\t{}\t{}", idx, s.replace('\n', " ").replace('\t', " ")); }
        outs.0.push(());
    }
    outs.1 = Some(());
    println!("DONE");
    std::process::exit(0)
}
