//! C28: the position a rejection names, for every fault in every surrounding and layout. « » enclose what is at fault,
//! ‹ › what it clashes with.
use super::tok;
use crate::fe::*;
use crate::par::*;
use crate::report::Report;

/// faults whatever value is expected; a: u8, w: u16, b: bool, o: u8 that may be absent, f: F (bitfield), d: u8[2], e: E (enum)
const ANY: &[&str] = &["«nope»", "«nope(a)»", "f.«nope»", "F::«nope»", "E::«nope»", "«Nope»::x", "«o»", "d[«nope»]", "d[«o» :> u64]", "«a»[1]", "«a»[1u64]", "«a.x»", "(«a» ? a : a)", "(«w» ? a : a)", "len(«nope»)",
    "«len(a, a)»", "«len()»", "(«d :> u8»)", "(«f.x :> u8»)", "(a + «b»)", "(a == «w» ? a : a)", "(a < «b» ? a : a)", "(b && «a» ? a : a)", "(!«a» ? a : a)", "(a + «true»)", "(a + «d»)", 
    "(e == «1» ? a : a)", "(e == «F::x» ? a : a)", "(«\"é\" + a»)", "(a + «\"é\"»)", "(«d + d»)", "(«-a»)", "(a + «-1»)", "((a :> «Nope») ? a : a)"];
/// the same without fields
const CONST: &[&str] = &["«nope»", "«nope(1u8)»", "F::«nope»", "E::«nope»", "«Nope»::x", "(true ? «nope» : 1u8)", "(1u8 + «true»)", "(«1u8» ? 1u8 : 1u8)", "(!«1u8» ? 1u8 : 1u8)"];
/// not at fault where a wider value is expected
const TYPED: &[&str] = &["(a + «w»)", "(a + «300»)", "(a + «1u16»)"];
const CTYPED: &[&str] = &["(1u8 + «2u16»)", "(1u8 + «300»)"];
/// around an expression of type u8 is one of the same type
const AROUND: &[&str] = &["@", "(@)", "a + @", "@ + a", "b ? @ : a", "b ? a : @", "@ == a ? a : a", "a == @ ? a : a", "((@) :> u16) :> u8", "~@", "d[(@) :> u64]", "o ?: @", "a * (a + @)", "a << @", "b && a < @ ? a : a", "!(@ > a) ? a : a"];
const CAROUND: &[&str] = &["@", "(@)", "1u8 + @", "@ + 1u8", "true ? @ : 1u8", "false ? 1u8 : @", "@ == 1u8 ? 1u8 : 2u8", "((@) :> u16) :> u8", "~@", "1u8 << @"];
const SITES: &[&str] = &["r: u8 = @", "r: u16 { (@) == 1 }", "r: u8[@]", "r: container [@] { q: u8[..] }", ".pad: @", "r: u8[2] -> xor(@)", "r: u8[2] -> xor { (@) == 1 }", "r: P(@)", "r: P(1, @)", "r: P(@)[2]", "r: container { q: u8, s: u8 = @ }", "r: container { q: u8 { (@) == 1 } } { b }"];
const CSITES: &[&str] = &["const K: u8 = @;", "type K = enum u8 { q = @ };", "type K = enum u8 { q = 1, r = @ };", "type K = bitfield u8 { q = @ };", "type K(m: u8, n: u8 ? @) = u8[m];", "type K(m: u8 ? @) = container { x: u8[m] };", "type K = u8[@];", "type K = u8[2] -> xor(@);", "type K = container { x: u8 = @ };"];
const WORLD: &str = "import_ffi xor as transform; type E = enum u8 { p = 1, q = 2 }; type F = bitfield u8 { x = 1, y = 2 }; type P(j: u8, k: u8 ? 1) = container { x: u8[j], y: u8 { k == 1 } };";
const FIELDS: &str = "a: u8, w: u16, b: bool, o: u8 { b }, f: F, e: E, d: u8[2]";
/// faults of declarations
const DECLS: &[&str] = &[
    "type T = «Nope»;", "type T = «Nope»[2];", "type T = container { a: «Nope» };", "type T = container { a: «Nope»[..] };", "type T = container { a: container { b: «Nope»(1) } };", "type A(x: «Nope») = u8[1];",
    "type A = u8[..] -> «nope»;", "type T = container { a: u8[..] -> «nope» };", "type T = container { a: u8[..] -> «nope»(1) };", "type T = container { a: u8 -> «nope» };",
    "‹type A = u8›; «type A = u16»;", "‹type A = u8›; const C: u8 = 1; «type A = container { x: u8 }»;", "‹const C: u8 = 1›; «const C: u8 = 2»;", "‹type A = enum u8 { x = 1 }›; «type A = bitfield u8 { y = 1 }»;", "‹import_ffi v8 as type›; «type v8 = u8»;", "‹import_ffi v8 as type›; «import_ffi v8 as type»;", "‹import_ffi xor as transform›; «import_ffi xor as transform»;",
    "type T = container { ‹a: u8›, b: u8, «a: u16» };", "type T = container { c: u8, in: container { ‹a: u8›, b: u8, «a: u16» } };", "type A(m: u8) = container +tagged_enum { ‹a: u8 { m == 1 }›, «a: u16» };",
    "type E = enum u8 { A = 1, B = 2, «A = 3» };", "type E = enum u8 { A = 1, «A» };", "type E = bitfield u8 { ‹A = 1›, B = 2, «A = 4» };", "type E = bitfield u8 { B = 1, ‹A = 2›, «a = 4» };", "type E = enum u8 { A = 1, B = 2, «C = 1» };", "type E = enum u8 { A = 2, B = 1, «C» };", "type E = enum u8 { A = default, «B = default» };",
    "type E = enum u8 { A = «300» };", "type E = enum u8 { A = «-1» };", "type E = enum i8 { A = «200» };", "type E = enum u8 { A = 1, «B = 255 + 1» };", "type E = enum u8 { A = 255, «B» };", "type E = enum u8 { A = 1, B = «true» };", "type F = bitfield u8 { A = «\"x\"» };",
    "type A = «container { a: A }»;", "type A = «container { a: B }»; type B = container { b: A };",
    "const C: u8 = «300»;", "const C: i8 = «128»;", "const C: bool = «1»;", "const C: u8 = «true»;", "const C: u8 = 1u8 + «1u16»;", "«const C: u8 = 255 + 1»;", "«const C: u8 = 1 / 0»;", "const A: u8 = 1; «const C: u8 = A - 2»;", "const A: u8 = «B»; const B: u8 = 1;", "«const C: container { a: u8 } = 1;»", "const C: «Nope» = 1;", "const C: u8 = 1; type T = container { a: u8, b: u8 = a + «C + 1u16» + 2u8 };",
    "«import_ffi nope as type»;", "«import_ffi nope as transform»;", "«import_ffi nope as function»;", "«import_ffi utf8 as transform»;", "import x from «\"nope\"»;", "«import x from \"nope\"»;",
    "type A(x: u8) = u8[x]; type T = container { a: «A(1, 2)» };", "type A(x: u8) = u8[x]; type T = container { a: «A» };", "type A(x: u8) = u8[x]; type T = «A»;", "type A(x: u8) = u8[x]; type T = container { b: bool, a: A(«b») };", "type A(x: u8) = u8[x]; type T = container { w: u16, a: A(«w»)[2] };", "type A(x: u8, y: bool) = container { a: u8[x], b: u8 { y } }; type T = container { a: A(1, «2») };", "type A = u8; type T = «A(1)»;",
    "import_ffi v8 as type; type T = container { a: «v8(1)» };", "type T = container { a: «utf8(1, 2)» };", "import_ffi utf8 as type; type T = container { a: «utf8(1, 2)» };", "import_ffi utf8 as type; type T = container { b: bool, a: utf8(«b») };", "import_ffi xor as transform; type T = container { a: u8[2] -> «xor(1, 2)» };", "import_ffi xor as transform; type T = container { b: bool, a: u8[2] -> xor(«b») };",
    "type A(x: u8, «x: u8») = u8[x];", "type A(x: u8 ? «true») = u8[x];", "type A(x: u8 ? «300») = u8[x];", "type A(x: u8, y: u8 ? «z») = u8[x];", "type A(x: u8 ? «y», y: u8) = u8[x];",
    "type T = container { a: u8 { «1» } };", "type T = container { a: u8, b: u8 { «a» } };", "type T = container { a: u8, b: u8 { a == 1 }, c: u8[«b»] };", "type T = container { a: bool, b: u8[«a»] };", "type T = container { a: u8, b: u8 { «c» == 1 }, c: u8 };", "type T = container { a: bool, .pad: «a» };", "type T = container { a: bool, b: container [«a»] { x: u8 } };",
    "type T = container { «a: u8 = b», b: u8 = a };", "type T = container { «a: u8 = a» };", "type T = container { a: u8 = «blen(b)», b: u8 };", "type T = container { a: u64 = «blen(b)», b: u8 };", "type T = container { a: u64 = «blen(nope)» };", "type T = container { a: u64, b: u8 { «blen(c)» == 1 }, c: container [a] { x: u8 } };",
    "type F = bitfield u8 { x = 1 }; type T = container { a: F, b: u8 { a.«nope» } };", "type F = enum u8 { x = 1 }; type T = container { a: F, b: u8 { a == F::«nope» } };", "type F = enum u8 { x = 1, y = default }; type T = container { a: F, b: u8 { a == F::«y» } };", "type F = bitfield u8 { x = 1 }; type T = container { a: F, b: u8 { «a» } };",
    "type T = container { a: u8 «+nope» };", "type T = container { a: «u8 +nope» };", "type T = container { a: «container { x: u8 }[3]» };", "type T = container { a: «enum u8 { x = 1 }» };", "type T = container { a: «bitfield u8 { x = 1 }» };", "type T = container { c: container { a: «enum u8 { x = 1 }» } };", "type T = container { in: «container +tagged_enum { a: u8 }» };", "type A(«x: container { y: u8 }») = u8[1];",
    "type A(x: u8) = «container { a: u8 } { x == 1 }»;", "type A(x: u8) = «enum u8 { a = 1 } { x == 1 }»;", "«type A = container +tagged_enum { }»;", "type A(x: u8) = container +tagged_enum { a: u8, «b: u8» };", "type A(x: u8) = container +tagged_enum { a: u8 { x == 1 }, b: u8, «c: u8» };", "type A(x: u8) = container +tagged_enum { a: u8 { x == 1 }, «.pad: 3» };",
    "type T = container { a: u8, b: u8 = «a :> container { c: u8 }» };", "type T = container { a: u8, b: u8 = «a :> Nope» };", "type T = container { a: u8, b: bool = «a :> bool» };", "type T = container { a: u8[2], b: u8 = «a :> u8» };",
    "type T = container { a: u8 = «true» };", "type T = container { a: u8[2] = «1» };",
    "type T = container { a: u8, b: u8[a :> «Nope»] };", "type T = container { a: u8 = «sum(b)», b: u8[2] };", "import_ffi sum as function; type T = container { a: u8 = «sum(b)», b: u8 };", "import_ffi pad as function; type T = container { a: u8, .pad: pad(4, «true») };", "import_ffi pad as function; type T = container { a: u64, .pad: «pad(a)» };",
];
/// the first token that continues nothing
const SYNTAX: &[&str] = &["type «=» u8;", "type T «u8»;", "type T = container { a «u8» };", "type T = container { a: u8 «b» };", "type T = u8«]»;", "type T = u8[2 «;»", "type T = «enum» { };", "type T = enum u8 { A = «}» };", "const C «=» 1;", "const C: u8 = «;»", "import_ffi x «type»;", "import «from» \"x\";", "import a from «b»;",
    "type T = container { a: u8 = 1 + «}» };", "type T = container { a: u8 { a == «==» 1 } };", "type T = container { a: u8 -> «(» };", "type T(a: u8 «b»: u8) = u8;", "type T = container { a: u8[1«}» };", "type T = u8; «u8»", "type T = container { a: u8 «?» 1 };", "type T = u8 «type» U = u8;", "type T = container { a: A(1,«,» 2) };", "type T = container { a: u8 = b ? 1 «}» };", "type T = container { a: u8 = b.«1» };", "type T = container { a: u8 = b::«(» };"];

struct Case { kind: &'static str, words: Vec<String>, at: (usize, usize), first: Option<(usize, usize)>, syntax: bool, wide: bool }

fn case(kind: &'static str, t: &str, syntax: bool) -> Case {
    let mut text = String::new();
    let mut marks = [None; 4];
    for c in t.chars() { match "«»‹›".chars().position(|m| m == c) { Some(k) => marks[k] = Some(text.len()), None => text.push(c) } }
    let toks = tok::reference(&text).unwrap_or_else(|e| panic!("{} at {}", text, e));
    let toks: Vec<(usize, usize)> = toks.into_iter().map(|x| (x.1, x.2)).collect();
    let range = |a: Option<usize>, b: Option<usize>| -> Option<(usize, usize)> { let (a, b) = (a?, b?); Some((toks.iter().position(|x| x.0 >= a)?, toks.iter().rposition(|x| x.1 <= b)?)) };
    Case { kind, at: range(marks[0], marks[1]).unwrap_or_else(|| panic!("{}", t)), first: range(marks[2], marks[3]), words: toks.iter().map(|x| text[x.0..x.1].to_string()).collect(), syntax, wide: false }
}
fn cases(deep: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut expr = |kind: &'static str, faults: &[&str], around: &[&str], sites: &[&str], all: &dyn Fn(&str) -> String, wide: bool| {
        for f in faults {
            let mut es: Vec<String> = vec![];
            for a in around { es.push(a.replace('@', f)); }
            if deep { for a in around.iter().skip(1) { for b in around.iter().skip(2) { es.push(b.replace('@', &format!("({})", a.replace('@', f)))); } } }
            for e in es { for s in sites { v.push(case(kind, &all(&s.replace('@', &e)), false)); v.last_mut().unwrap().wide = wide; } }
        }
    };
    for (wide, l) in [(false, ANY), (true, TYPED)] { expr("expressions", l, AROUND, SITES, &|s| format!("{} type T = container {{ {}, {}, z: u8 }}; type Z = u8;", WORLD, FIELDS, s), wide); }
    for (wide, l) in [(false, CONST), (true, CTYPED)] { expr("constant expressions", l, CAROUND, CSITES, &|s| format!("{} {} type Z = u8;", WORLD, s), wide); }
    for d in DECLS { for (a, b) in [("", ""), ("type U = u8;", ""), ("type U = container { a: u8, b: u8 = 1 };", "type V = U[2];"), ("", "type V = u8; const W: u8 = 1;")] { v.push(case("declarations", &format!("{} {} {}", a, d, b), false)); } }
    for d in SYNTAX { for a in ["", "type U = u8;", "const U: u8 = 1; type V = container { a: u8, };"] { v.push(case("syntax", &format!("{} {}", a, d), true)); } }
    v
}
/// every position in a message: line and column of beginning and end
fn spans(m: &str) -> Vec<[u64; 4]> {
    let b = m.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let num = |i: &mut usize| -> Option<u64> { let s = *i; while *i < b.len() && b[*i].is_ascii_digit() { *i += 1; } m[s..*i].parse().ok() };
    let lit = |i: &mut usize, c: u8| -> Option<()> { if b.get(*i) == Some(&c) { *i += 1; Some(()) } else { None } };
    while i < b.len() {
        if !b[i].is_ascii_digit() { i += 1; continue; }
        let mut j = i;
        let mut one = || -> Option<[u64; 4]> {
            let l = num(&mut j)?; lit(&mut j, b':')?; let c = num(&mut j)?; lit(&mut j, b'-')?; let x = num(&mut j)?;
            let k = j;
            if lit(&mut j, b':').is_some() { if let Some(y) = num(&mut j) { return Some([l, c, x, y]); } }
            j = k;
            Some([l, c, l, x])
        };
        match one() { Some(s) => { v.push(s); i = j; } None => { num(&mut i); } }
    }
    v
}
/// where a span begins and ends, as tokens and characters in them
type Where = [(usize, i64); 2];
fn look(c: &Case, gap: &dyn Fn(usize) -> &'static str, a: &mut Acc, base: Option<&(Vec<Where>, String)>) -> Option<(Vec<Where>, String)> {
    let mut text = String::new();
    let mut at = vec![];
    for (i, w) in c.words.iter().enumerate() { text.push_str(gap(i)); let s = text.len(); text.push_str(w); at.push((s, text.len())); }
    a.states += 1; a.steps += 1;
    let m = match front(&text, &Res::default(), PLAIN) {
        Fe::Reject(m) if !c.syntax => m, Fe::Parse(m) if c.syntax => m,
        Fe::Panic(..) => { a.viol("no error but a panic", &text, String::new()); return None }
        Fe::Code(_) if c.wide => { a.ok += 1; return None }
        _ => { a.viol("the fault is not reported", &text, String::new()); return None }
    };
    let got = spans(&m);
    let place = |k: usize| tok::place(&text, k);
    let show = |r: (usize, usize)| { let (s, e) = (place(at[r.0].0), place(at[r.1].1)); format!("{}:{} to {}:{}", s.0, s.1, e.0, e.1) };
    let within = |s: &[u64; 4], r: (usize, usize)| (s[0], s[1]) >= place(at[r.0].0) && (s[2], s[3]) <= place(at[r.1].1) && (s[0], s[1]) < (s[2], s[3]);
    match got.first() {
        None => { a.viol("no position", &text, m); return None }
        Some(s) if !within(s, c.at) => { a.viol(&format!("{}: the position is not that of the fault", c.kind), &text, format!("the fault is {}, but: {}", show(c.at), m)); return None }
        _ => {}
    }
    if let Some(f) = c.first { match got.get(1) {
        Some(s) if within(s, f) => {}
        _ => { a.viol(&format!("{}: the other position is not that of the original", c.kind), &text, format!("the original is {}, but: {}", show(f), m)); return None }
    } }
    // the same place whatever the layout
    let rel = |l: u64, k: u64, end: bool| -> (usize, i64) {
        let i = if end { at.iter().rposition(|x| place(x.0) < (l, k)).unwrap_or(0) } else { at.iter().rposition(|x| place(x.0) <= (l, k)).unwrap_or(0) };
        let p = place(at[i].0);
        (i, if p.0 == l { k as i64 - p.1 as i64 } else { -1000 })
    };
    let w: Vec<Where> = got.iter().map(|s| [rel(s[0], s[1], false), rel(s[2], s[3], true)]).collect();
    if let Some((b, t)) = base { if *b != w { a.viol(&format!("{}: the position depends on the layout", c.kind), &text, format!("{:?} instead of {:?} as in {:?}: {}", w, b, t, m)); return None } }
    a.ok += 1;
    Some((w, text))
}
pub fn check(rep: &mut Report) {
    let deep = rep.tier == "thorough";
    let cs = cases(deep);
    let fill: &[&'static str] = &["\n", "\t ", " /* é” */ ", "\n// «é»\n", " /* a\n b */ ", " \n\n    "];
    for kind in ["declarations", "syntax", "constant expressions", "expressions"] {
        let list: Vec<&Case> = cs.iter().filter(|c| c.kind == kind).collect();
        let accs = par(list.len() as u64, Acc::default, |i, a| {
            let c = list[i as usize];
            let Some(base) = look(c, &|_| " ", a, None) else { return };
            if a.samples.len() < 3 { a.samples.push(base.1.clone()); }
            for f in fill { if look(c, &|_| f, a, Some(&base)).is_none() { return } }
            if kind != "expressions" || deep || i % 4 == 0 {
                for g in 0..c.words.len() { for f in fill { if look(c, &|k| if k == g { f } else { " " }, a, Some(&base)).is_none() { return } } }
            }
            a.yes += 1;
        });
        collect(rep, kind, accs);
    }
}
