//! C24: generated code depends on nothing but the specification: runs, processes, history, layout, order and company of declarations.
use super::corpus::*;
use super::{space, tok, total};
use crate::fe::*;
use crate::par::*;
use crate::report::{fnv, Report};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::process::Command;

fn all_options() -> Vec<Opt> {
    let mut v = vec![];
    for derives in 0..4 { for m in 0..8u8 { v.push(Opt { is_async: m & 1 != 0, anyhow: m & 2 != 0, debug: m & 4 != 0, derives }); } }
    v
}
fn verdict(f: &Fe) -> &'static str { match f { Fe::Code(_) => "accepted", Fe::Parse(_) => "a syntax error", Fe::Reject(_) => "rejected", Fe::Panic(..) => "a panic" } }

// ---- the same specification again
/// specification and options of every run
fn runs(tier: &str) -> Vec<(Case, Opt)> {
    let thorough = tier == "thorough";
    let few = [PLAIN, Opt { is_async: true, anyhow: true, debug: true, derives: 3 }];
    let mut v = vec![];
    for c in written() { for o in all_options() { v.push((c.clone(), o)); } }
    for c in families(if thorough { rt::run::Tier::Thorough } else { rt::run::Tier::Quick }) { for o in if thorough { all_options() } else { few.to_vec() } { v.push((c.clone(), o)); } }
    v
}
/// `drv c24shard MODE TIER`: prints a hash of the result of every run; MODE is the order of the runs
pub fn shard(a: &[String]) -> ! {
    crate::watch::watch();
    let rs = runs(&a[1]);
    let n = rs.len();
    let mut out = vec![String::new(); n];
    let mut go = |i: usize| { let (c, o) = &rs[i]; let f = front(&c.root, &Res { files: c.files.clone(), fail: None }, *o); fnv(&format!("{:?}", f)) };
    match a[0].as_str() {
        "forward" => for i in 0..n { out[i] = go(i) },
        "backward" => for i in (0..n).rev() { out[i] = go(i) },
        // every run twice, with another in between
        "twice" => for i in 0..n { let x = go(i); go((i * 7 + 3) % n); let y = go(i); out[i] = if x == y { x } else { format!("{}/{}", x, y) } },
        // on many threads at once
        _ => { let t: Vec<Vec<(usize, String)>> = par(n as u64, Vec::new, |i, acc: &mut Vec<(usize, String)>| { let (c, o) = &rs[i as usize]; let f = front(&c.root, &Res { files: c.files.clone(), fail: None }, *o); acc.push((i as usize, fnv(&format!("{:?}", f)))); }); for v in t { for (i, h) in v { out[i] = h } } }
    }
    for h in out { println!("{}", h) }
    std::process::exit(0)
}
fn again(rep: &mut Report) {
    let exe = std::env::current_exe().unwrap();
    let tier = rep.tier.clone();
    let modes: Vec<&str> = if tier == "thorough" { ["forward", "backward", "twice", "threads"].repeat(6) } else { vec!["forward", "forward", "backward", "twice", "twice", "threads", "forward", "backward"] };
    let rs = runs(&tier);
    let mut outs: Vec<Vec<String>> = vec![];
    for group in modes.chunks(8) {
        outs.extend(std::thread::scope(|s| {
            let hs: Vec<_> = group.iter().map(|m| { let (exe, tier) = (&exe, &tier); s.spawn(move || {
                let c = Command::new(exe).args(["c24shard", m, tier]).stdout(std::process::Stdio::piped()).spawn().unwrap();
                let pid = c.id();
                let o = c.wait_with_output().unwrap();
                if !o.status.success() { return Err((format!("{:?}", o.status), crate::watch::unfinished(pid).join("\n==== or, at the same time:\n"))) }
                Ok(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect::<Vec<_>>())
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        }).into_iter().filter_map(|r| match r { Ok(v) => Some(v), Err((s, t)) => { rep.viol("the front end crashes or hangs", &t, s); None } }));
    }
    if outs.is_empty() { return }
    for (i, (c, o)) in rs.iter().enumerate() {
        let set: BTreeSet<&str> = outs.iter().map(|v| v[i].as_str()).collect();
        rep.states += 1; rep.transitions += outs.len() as u64;
        if set.len() == 1 && !outs[0][i].contains('/') { rep.validated += 1 } else { rep.viol("the result differs from run to run", &super::rustc::show(&c.root, &c.files), format!("{:?}: {:?}", o, set)); }
    }
    rep.set("runs of each specification", outs.len());
    rep.set("specifications and options run again", rs.len());
}

// ---- layout, order and company
/// the items of the generated module, in an order of their own
fn items(code: &str) -> Result<Vec<String>, String> {
    use quote::ToTokens;
    let t: proc_macro2::TokenStream = code.parse().map_err(|e| format!("{:?}", e))?;
    let f: syn::File = syn::parse2(t).map_err(|e| e.to_string())?;
    let mut v: Vec<String> = vec![];
    for i in f.items { match i { syn::Item::Mod(m) => for i in m.content.map(|c| c.1).unwrap_or_default() { v.push(i.to_token_stream().to_string()) }, i => v.push(i.to_token_stream().to_string()) } }
    v.sort();
    Ok(v)
}
fn declarations(toks: &[String]) -> Vec<Vec<String>> {
    let mut v = vec![vec![]];
    let mut depth = 0i32;
    for t in toks {
        match t.as_str() { "{" | "(" | "[" => depth += 1, "}" | ")" | "]" => depth -= 1, _ => () }
        v.last_mut().unwrap().push(t.clone());
        if depth == 0 && t == ";" { v.push(vec![]) }
    }
    if v.last().unwrap().is_empty() { v.pop(); }
    v
}
/// constants and enums can only use what is declared before them: the pairs of declarations whose order matters
fn ordered(ds: &[Vec<String>]) -> Vec<(usize, usize)> {
    let key = |d: &Vec<String>| match d[0].as_str() {
        "const" => Some(d[1].clone()),
        "type" => { let eq = d.iter().position(|t| t == "=")?; if matches!(d.get(eq + 1).map(|x| x.as_str()), Some("enum" | "bitfield")) { Some(d[1].clone()) } else { None } }
        _ => None,
    };
    let names: Vec<Option<String>> = ds.iter().map(key).collect();
    let mut v = vec![];
    for (i, d) in ds.iter().enumerate() { if names[i].is_some() { for (j, n) in names.iter().enumerate() { if let Some(n) = n { if i != j && d[2..].contains(n) { v.push((j, i)) } } } } }
    v
}
fn permutations(n: usize, full: usize) -> Vec<Vec<usize>> {
    if n <= full {
        fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) { if cur.len() == n { out.push(cur.clone()); return } for i in 0..n { if !cur.contains(&i) { cur.push(i); rec(cur, n, out); cur.pop(); } } }
        let mut v = vec![];
        rec(&mut vec![], n, &mut v);
        return v;
    }
    let id: Vec<usize> = (0..n).collect();
    let mut v = vec![id.iter().rev().cloned().collect::<Vec<_>>()];
    for i in 0..n { for j in i + 1..n { let mut p = id.clone(); p.swap(i, j); v.push(p); } }
    for k in 1..n { let mut p = id.clone(); p.rotate_left(k); v.push(p); }
    for i in 0..n { for to in [0, n - 1] { let mut p = id.clone(); let x = p.remove(i); p.insert(to, x); v.push(p); } }
    v.sort(); v.dedup();
    v
}
const FILL: &[&str] = &["\n", "\t", "\r\n", "  ", "// x\n", "//\n", "/* x */", "/* * / */", "/**/", "\n// \"\n"];
const COMPANY: &[&str] = &[
    "type ZzA = container { zz_a: u8, zz_b: u16 { zz_a == 1 } } ;", "type ZzB = u32 ;", "type ZzC = enum u8 { ZzX = 1 , ZzY = default } ;", "type ZzD = bitfield u16 { ZZ_P = 1 , ZZ_Q } ;", "const ZZ_K : u32 = 7 ;",
    "type ZzE ( zz_p : u8 ) = container { zz_c : u8 [ zz_p ] } ;", "type ZzF = container { zz_e : u8 , zz_d : ZzF [ zz_e ] } ;", "type ZzG = f32 ;",
    "import_ffi v128 as type ;", "import_ffi frame as transform ;", "import_ffi bits as function ;", "type ZzH = container + tagged_enum { zz_f : u8 { true } , zz_g : u16 } ;", "type ZzI = container { a : u8 , b : u16 , c : u8 [ a ] } ;",
];
/// text, case and whether only the layout differs from the case
fn tight(toks: &[String]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let p = &toks[i - 1];
            let both = format!("{}{}", p, t);
            let ok = tok::reference(&both).map(|v| v.len() == 2 && v[0].2 - v[0].1 == p.len()).unwrap_or(false) && !(p == "/" || t == "/");
            if !ok { s.push(' ') }
        }
        s.push_str(t);
    }
    s
}
struct Job { case: Case, toks: Vec<String>, full: usize, gaps: bool }
#[derive(Default)]
struct A { acc: Acc, kinds: BTreeMap<&'static str, u64> }
fn compare(j: &Job, a: &mut A) {
    if j.toks.is_empty() { return }
    let res = Res { files: j.case.files.clone(), fail: None };
    let base_text = j.toks.join(" ");
    let base = front(&base_text, &res, PLAIN);
    let sub = |t: &str| super::rustc::show(t, &j.case.files);
    // layout
    let mut one = |text: String, kind: &'static str, a: &mut A| {
        a.acc.states += 1; a.acc.steps += 1;
        *a.kinds.entry(kind).or_default() += 1;
        let f = front(&text, &res, PLAIN);
        let same = match (&f, &base) { (Fe::Code(x), Fe::Code(y)) => x == y, (x, y) => verdict(x) == verdict(y) };
        if same { a.acc.ok += 1 } else { a.acc.viol("layout makes a difference", &sub(&text), match (&f, &base) { (Fe::Code(_), Fe::Code(_)) => "other code".into(), (f, b) => format!("{} instead of {}", verdict(f), verdict(b)) }) }
    };
    if j.gaps {
        one(j.case.root.clone(), "as written", a);
        one(tight(&j.toks), "without spaces", a);
        for f in FILL { if f.starts_with('\n') || f.starts_with('\t') || *f == "\r\n" { one(j.toks.join(f), "the same in all gaps", a); } one(j.toks.join(&format!(" {}", f)), "the same in all gaps", a); }
        let n = j.toks.len();
        for g in 0..=n { for f in FILL { one(format!("{} {} {}", j.toks[..g].join(" "), f, j.toks[g..].join(" ")), "in one gap", a); } }
    }
    // order
    let ds = declarations(&j.toks);
    if ds.is_empty() { return }
    let pairs = ordered(&ds);
    let broken = pairs.iter().any(|(x, y)| x > y);
    let base_items = match &base { Fe::Code(c) => Some(items(c).unwrap()), _ => None };
    let calls = |a: &mut A, kind: &'static str| { a.acc.states += 1; a.acc.steps += 1; *a.kinds.entry(kind).or_default() += 1; };
    if !broken && ds.len() > 1 && verdict(&base) != "a syntax error" {
        for p in permutations(ds.len(), j.full) {
            if p.windows(2).all(|w| w[0] < w[1]) { continue }
            let at: Vec<usize> = { let mut v = vec![0; p.len()]; for (k, i) in p.iter().enumerate() { v[*i] = k } v };
            if pairs.iter().any(|(x, y)| at[*x] > at[*y]) { continue }
            let text = p.iter().map(|i| ds[*i].join(" ")).collect::<Vec<_>>().join("\n");
            calls(a, "another order");
            let f = front(&text, &res, PLAIN);
            let what = match (&f, &base_items) {
                (Fe::Code(c), Some(b)) => { let i = items(c).unwrap(); if i == *b { None } else { Some(format!("other items: {}", diff(&i, b))) } }
                (f, _) if verdict(f) == verdict(&base) => None,
                (f, _) => Some(format!("{} instead of {}: {:?}", verdict(f), verdict(&base), f).chars().take(300).collect()),
            };
            match what { None => a.acc.ok += 1, Some(w) => a.acc.viol("the order of declarations makes a difference", &sub(&text), w) }
        }
    }
    // company
    if let Some(b) = &base_items {
        a.acc.yes += 1;
        for c in COMPANY {
            let d: Vec<&str> = c.split(' ').collect();
            if j.toks.windows(2).any(|w| w[0] == d[0] && w[1] == d[1]) { continue }
            for end in [false, true] {
                let text = if end { format!("{}\n{}", base_text, c) } else { format!("{}\n{}", c, base_text) };
                calls(a, "another declaration");
                let f = front(&text, &res, PLAIN);
                let what = match &f {
                    Fe::Code(c) => { let i = items(c).unwrap(); let have: BTreeSet<&String> = i.iter().collect(); let missing: Vec<&String> = b.iter().filter(|x| !have.contains(x)).collect(); if missing.is_empty() { None } else { Some(format!("items differ: {}", diff(&i, b))) } }
                    f => Some(format!("{}: {:?}", verdict(f), f).chars().take(300).collect()),
                };
                match what { None => a.acc.ok += 1, Some(w) => a.acc.viol("another declaration makes a difference", &sub(&text), w) }
            }
        }
    }
}
fn diff(i: &[String], b: &[String]) -> String {
    let (x, y): (BTreeSet<&String>, BTreeSet<&String>) = (i.iter().collect(), b.iter().collect());
    let (p, q) = (x.difference(&y).next().map(|s| s.as_str()).unwrap_or(""), y.difference(&x).next().map(|s| s.as_str()).unwrap_or(""));
    let k = p.bytes().zip(q.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| s.chars().skip(k.saturating_sub(60)).take(160).collect::<String>();
    format!("... {} ... instead of ... {} ...", cut(p), cut(q))
}
pub fn check(rep: &mut Report) {
    let thorough = rep.tier == "thorough";
    again(rep);
    let mut jobs: Vec<Job> = vec![];
    for c in written() { let toks = total::tokens(&c.root); jobs.push(Job { toks, case: c, full: if thorough { 6 } else { 5 }, gaps: true }); }
    for (i, c) in families(if thorough { rt::run::Tier::Thorough } else { rt::run::Tier::Quick }).into_iter().enumerate() { let toks = total::tokens(&c.root); jobs.push(Job { toks, case: c, full: 4, gaps: thorough || i % 16 == 0 }); }
    // small programs of declarations, many of which are rejected
    let mut seen: HashMap<String, ()> = HashMap::new();
    let mut extra = vec![];
    space::programs("quick", &mut |kind, make| {
        if !matches!(kind, "two declarations" | "a declaration") && !(thorough && kind == "three declarations") { return }
        let text = super::rules::text(&make());
        if seen.insert(text.clone(), ()).is_none() { extra.push(text) }
    });
    rep.set("small programs", extra.len());
    for t in extra { let toks = total::tokens(&t); jobs.push(Job { toks, case: Case { name: "small".into(), root: t, files: HashMap::new() }, full: 3, gaps: false }); }
    let accs = par(jobs.len() as u64, A::default, |i, a: &mut A| compare(&jobs[i as usize], a));
    let mut kinds: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut list = vec![];
    for a in accs { for (k, n) in a.kinds { *kinds.entry(k).or_default() += n } list.push(a.acc) }
    collect(rep, "variants", list);
    for (k, n) in kinds { rep.set(k, n); }
    for j in jobs.iter().step_by(jobs.len() / 6 + 1) { rep.sample(j.case.root.replace('\n', " ")); }
    rep.notes.push("hash seeds of the standard library are chosen by the system: every specification is compiled in several processes and repeatedly in one, which samples them".into());
}
