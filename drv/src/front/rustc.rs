//! C23: what the front end accepts compiles.
use super::comp::*;
use super::corpus::*;
use super::total;
use crate::fe::*;
use crate::par::par;
use crate::report::Report;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

struct Job { case: String, opt: Opt, code: String, kind: &'static str, edition: &'static str }
struct Todo { root: String, files: HashMap<String, String>, opts: Vec<Opt>, kind: &'static str }
fn all_options() -> Vec<Opt> {
    let mut v = vec![];
    for derives in 0..4 { for m in 0..8u8 { v.push(Opt { is_async: m & 1 != 0, anyhow: m & 2 != 0, debug: m & 4 != 0, derives }); } }
    v
}
pub fn show(root: &str, files: &HashMap<String, String>) -> String { let mut v: Vec<_> = files.iter().collect(); v.sort(); format!("{}{}", root.trim(), v.iter().map(|(n, t)| format!("\n-- {}\n{}", n, t.trim())).collect::<String>()) }
fn name(o: &Opt) -> String { format!("{}{}{}derives {}", if o.is_async { "async " } else { "" }, if o.anyhow { "anyhow " } else { "" }, if o.debug { "debug " } else { "" }, o.derives) }

/// specifications whose names end up in generated code, and the names that are replaced in them
const NAMES: &[(&str, &[&str])] = &[
    ("type Enu = enum u8 { AA = 1, BB = 2, CC = default }; type One = container { fa: Enu, fb: Enu[2] { fa == Enu::AA } };", &["Enu", "AA", "CC", "One", "fa"]),
    ("type Bit = bitfield u16 { FA = 1, FB }; type One = container { fa: Bit, fb: u8 { fa.FA && fa == Bit::FB } };", &["Bit", "FA"]),
    ("const CON: u32 = 4; type One = container { fa: u32, fb: u8[CON] { fa == CON } };", &["CON"]),
    ("type Ali = u16[2]; type One = container { fa: Ali[..] }; type Nul = container { };", &["Ali", "Nul"]),
    ("type Arg(pa: u8, pb: u16 ? 3) = container { va: u8[pa], vb: u8[pb], vc: u8 { pa == 1 } }; type One = container { fa: u8, fb: Arg(fa), fc: One[fa] };", &["Arg", "pa", "pb", "va", "vc"]),
    ("import_ffi v32 as type; import_ffi utf8 as type; import_ffi utf16 as type; type One = container { fa: v32, fb: utf8(4), fc: utf16(2), fd: utf8 };", &["One", "fa", "fb", "fd"]),
    ("type One = container { fa: u8, fb: u32[fa], fc: bool, fd: u16 { fc }, fe: u8[..\"\\00\"], fs: u8[fa * 2 + 1] { fa > 3 && fc || fa == 2 }, fn1: container [fa] { ga: u8[..] }, fx: u8[fd ?: 1] };", &["One", "fa", "fb", "fc", "fd", "fe", "fn1", "ga"]),
    ("type Tag(ca: u8) = container +tagged_enum { ta: u8 { ca == 1 }, tb: container { tc: u16, td: u8[ca] } { ca == 2 }, te: u32 };", &["Tag", "ca", "ta", "tb", "tc", "td"]),
    ("import_ffi add as transform; import_ffi frame as transform; type Len = container { n: u64 = blen(c), c: container [n] { q: u8[..] }, k: u8 = 1, d: u8[4] -> frame -> add(k) { n == 2 } };", &["Len", "n", "c", "q", "k", "d"]),
];
const OTHER: &[&str] = &["Send", "Sync", "Unpin", "Clone", "AsRef", "From", "Into", "Iterator", "Default", "Sized", "TryFrom", "Drop", "Fn", "Copy", "Debug", "PartialEq", "Eq", "Hash", "usize", "i128", "str", "char", "tokio", "anyhow", "flate2", "core", "alloc", "_ps", "async_trait", "async", "await", "dyn", "try", "union", "gen", "yield", "macro", "crate", "super", "Self", "self", "static", "extern", "abstract", "where", "main", "a_b", "__", "_a", "aB", "AB_"];
fn idents(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in t { match t { proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => idents(g.stream(), out), _ => () } }
}
fn clashes(out: &mut Vec<Todo>, rep: &mut Report, thorough: bool) {
    let both = vec![Opt { is_async: true, anyhow: true, debug: true, derives: 3 }, Opt { is_async: true, debug: true, ..PLAIN }];
    let mut ids: BTreeSet<String> = OTHER.iter().map(|x| x.to_string()).collect();
    for (text, _) in NAMES { for o in &both {
        match big(|| front(text, &Res::default(), *o)) {
            Fe::Code(c) => if let Ok(c) = c.parse() { idents(c, &mut ids) },
            f => rep.viol("not accepted", text, format!("{:?}", f)),
        }
    } }
    // one each of numbered names
    let stem = |x: &str| { let t = x.trim_end_matches(|c: char| c.is_ascii_digit()); if t.len() < x.len() && t.ends_with('_') { t.to_string() } else { x.to_string() } };
    let mut stems = HashSet::new();
    ids.retain(|x| x != "rt" && stems.insert(stem(x)));
        for (text, places) in NAMES { let toks = total::tokens(text); for p in *places { for i in &ids {
        if toks.contains(i) && !thorough { continue }
        let root: Vec<&str> = toks.iter().map(|t| if t == p { i.as_str() } else { t.as_str() }).collect();
        out.push(Todo { root: root.join(" "), files: HashMap::new(), opts: if thorough { both.clone() } else { vec![both[1]] }, kind: "names" });
    } } }
}
/// whether the specification has two fields of one generated struct, one of them in a container in another, with the same name
fn doubled(text: &str) -> bool {
    fn walk(t: &protospec_build::ast::Type, seen: &mut HashSet<String>, dup: &mut bool) {
        if let protospec_build::ast::RawType::Container(c) = &t.raw_type {
            for f in &c.items { if let protospec_build::ast::ContainerItem::Field(n, f) = f { match &f.type_.raw_type { protospec_build::ast::RawType::Container(_) => walk(&f.type_, seen, dup), _ => if !seen.insert(n.name.clone()) && n.name != "pad" { *dup = true } } } }
        }
    }
    let Ok(p) = protospec_build::parse(text) else { return false };
    p.declarations.iter().any(|d| if let protospec_build::ast::Declaration::Type(t) = d { let mut dup = false; walk(&t.value.type_, &mut HashSet::new(), &mut dup); dup } else { false })
}
pub fn check(rep: &mut Report) {
    let thorough = rep.tier == "thorough";
    let libs = libs();
    let mut todo: Vec<Todo> = vec![];
    let all = all_options();
    for c in written() { todo.push(Todo { root: c.root, files: c.files, opts: all.clone(), kind: "corpus" }); }
    let o4 = vec![PLAIN, Opt { is_async: true, ..PLAIN }, Opt { anyhow: true, debug: true, derives: 3, ..PLAIN }, Opt { is_async: true, anyhow: true, debug: true, derives: 1 }];
    for c in families(if thorough { rt::run::Tier::Thorough } else { rt::run::Tier::Quick }) { todo.push(Todo { root: c.root, files: c.files, opts: if thorough { all.clone() } else { o4.clone() }, kind: "families" }); }
    clashes(&mut todo, rep, thorough);
    // programs that differ a little from the written ones
    let mut seen: HashSet<String> = HashSet::new();
    let some = |seen: &mut HashSet<String>, todo: &mut Vec<Todo>, k: &str, r: &str, f: &HashMap<String, String>, fail: Option<&str>| {
        if fail.is_some() || k.contains(" (") { return }
        if seen.insert(show(r, f)) { todo.push(Todo { root: r.to_string(), files: f.clone(), opts: if thorough { o4.clone() } else { vec![PLAIN] }, kind: "mutants" }); }
    };
    total::mutants(if thorough { 2 } else { 0 }, if thorough { Some(0) } else { None }, &mut |k, r, f, fail| some(&mut seen, &mut todo, k, r, f, fail));
    // small programs, of which most are rejected
    let skip: &[&str] = if thorough || std::env::var("C23_ALL").is_ok() { &[] } else { &["three operands", "three declarations"] };
    let parts: Vec<Vec<(u64, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64).map(|k| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
            let (mut i, mut v) = (0u64, vec![]);
            super::space::programs("quick", &mut |kind, make| {
                i += 1;
                if (i / 64) % 8 != k || skip.contains(&kind) { return }
                let text = super::rules::text(&make());
                // of the largest space a fixed third
                if !skip.is_empty() && kind == "two operands" && text.bytes().fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 3 != 0 { return }
                if let Fe::Code(_) = front(&text, &Res::default(), PLAIN) { v.push((i, text)); }
            });
            v
        }).unwrap()).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut small: Vec<(u64, String)> = parts.into_iter().flatten().collect();
    small.sort();
    for (_, t) in small { if seen.insert(t.clone()) { todo.push(Todo { root: t, files: HashMap::new(), opts: if thorough { o4.clone() } else { vec![PLAIN] }, kind: "small programs" }); } }
    // code
    type Acc = (Vec<(u64, u64, usize, Opt, String)>, BTreeMap<&'static str, [u64; 3]>, HashSet<u64>);
    let accs: Vec<Acc> = par(todo.len() as u64, || -> Acc { (vec![], BTreeMap::new(), HashSet::new()) }, |i, acc: &mut Acc| {
        use std::hash::{Hash, Hasher};
        let t = &todo[i as usize];
        for (k, o) in t.opts.iter().enumerate() {
            let e = acc.1.entry(t.kind).or_default();
            e[0] += 1;
            if let Fe::Code(code) = front(&t.root, &Res { files: t.files.clone(), fail: None }, *o) {
                e[1] += 1;
                let mut h = std::collections::hash_map::DefaultHasher::new();
                code.hash(&mut h);
                if acc.2.insert(h.finish()) { acc.0.push((h.finish(), i, k, *o, code)); }
            }
        }
    });
    let mut stat: BTreeMap<&'static str, [u64; 3]> = BTreeMap::new();
    let mut found = vec![];
    for a in accs { for (k, e) in a.1 { let x = stat.entry(k).or_default(); for j in 0..2 { x[j] += e[j] } } found.extend(a.0); }
    found.sort_by_key(|x| (x.1, x.2));
    let mut have = HashSet::new();
    let mut jobs: Vec<Job> = vec![];
    for (h, i, _, o, code) in found {
        let t = &todo[i as usize];
        if !have.insert(h) { continue }
        stat.get_mut(t.kind).unwrap()[2] += 1;
        let case = show(&t.root, &t.files);
        if t.kind == "corpus" { for e in ["2018", "2024"] { if o4.contains(&o) { jobs.push(Job { case: case.clone(), opt: o, code: code.clone(), kind: t.kind, edition: e }); } } }
        jobs.push(Job { case, opt: o, code, kind: t.kind, edition: "2021" });
    }
    if std::env::var("C23_DRY").is_ok() { eprintln!("{:?}", stat); std::process::exit(3) }
    let mut crates = 0;
    let mut secs = 0.0;
    for edition in ["2018", "2021", "2024"] {
        let js: Vec<&Job> = jobs.iter().filter(|j| j.edition == edition).collect();
        let codes: Vec<String> = js.iter().map(|j| j.code.clone()).collect();
        let (bad, st) = compile(&libs, "C23", edition, &codes, 40);
        for (i, e) in bad {
            let j = js[i];
            // the finding is about the class of programs, of which there are many
            if (e.starts_with("E0124 ") || e.starts_with("E0425 ")) && doubled(&j.case.split("\n-- ").next().unwrap()) { rep.viol("does not compile", "a container inside another has a field named like one of the outer container: E0124, E0425", e); continue }
            rep.viol("does not compile", &format!("{}\n[{}, edition {}]", j.case, name(&j.opt), edition), e);
        }
        crates += st.crates; secs += st.secs;
        rep.set(&format!("modules compiled with edition {}", edition), js.len());
    }
    rep.set("crates", crates); rep.set("rustc_s", secs);
    for (k, e) in stat { rep.states += e[0]; rep.transitions += e[1]; rep.validated += e[2]; rep.set(&format!("{} [front end runs, accepted, distinct modules]", k), e.to_vec()); }
    for j in jobs.iter().step_by(jobs.len() / 8 + 1) { rep.sample(format!("{} [{}]: {}", j.kind, name(&j.opt), j.case.replace('\n', " "))); }
}
