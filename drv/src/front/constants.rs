//! C12: the value of every constant expression of a bounded size, as the discriminant it becomes.
use super::rules::{self, D};
use crate::fe::*;
use crate::par::*;
use crate::report::Report;
use rt::ast::*;
use rt::sem;
use Sc::*;

const CMP: [Bop; 6] = [Bop::Eq, Bop::Ne, Bop::Lt, Bop::Gt, Bop::Le, Bop::Ge];
const BOOL: [Bop; 7] = [Bop::Or, Bop::And, Bop::BitOr, Bop::BitAnd, Bop::BitXor, Bop::Eq, Bop::Ne];
fn arith(s: Sc) -> Vec<Bop> {
    let mut v = vec![Bop::Add, Bop::Sub, Bop::Mul, Bop::Div, Bop::Mod, Bop::BitAnd, Bop::BitOr, Bop::BitXor, Bop::Shl];
    v.push(if s.signed() { Bop::ShrS } else { Bop::Shr });
    v
}
/// an integer as an expression; negative ones as negated literals, the least one as a difference
fn int(b: u128, s: Sc, suffix: bool) -> Ex {
    let l = |x| if suffix { lits(x, s) } else { lit(x, s) };
    if s.signed() && b > s.max_bits() {
        let m = (!b).wrapping_add(1) & s.mask();
        if m > s.max_bits() { return Ex::Paren(Box::new(bin(Bop::Sub, un(Uop::Neg, l(m - 1)), l(1)))); }
        return Ex::Paren(Box::new(un(Uop::Neg, l(m))));
    }
    l(b)
}
fn edge(s: Sc) -> Vec<u128> {
    let mut v = vec![0, 1, 2, 3, 5, 7, 8, s.bits() as u128 - 1, s.bits() as u128, s.bits() as u128 + 1, 100, s.max_bits(), s.max_bits() - 1, s.mask(), s.mask() - 1, s.min_bits(), s.min_bits() + 1];
    for x in v.iter_mut() { *x &= s.mask() }
    v.sort();
    v.dedup();
    v
}
/// declarations the expressions refer to
fn world() -> Vec<D> {
    let e = |v: u128, s: Sc| EVal::Ex(lit(v, s));
    vec![
        D::Ty(decl("En", Ty::Enum(U16, true, vec![("A".into(), e(1, U16)), ("B".into(), EVal::Next), ("C".into(), e(515, U16)), ("Z".into(), EVal::Next)]))),
        D::Ty(decl("Sn", Ty::Enum(I8, false, vec![("N".into(), EVal::Ex(un(Uop::Neg, lit(2, I8)))), ("O".into(), EVal::Next), ("P".into(), EVal::Next)]))),
        D::Ty(decl("Bf", Ty::Bits(U8, false, vec![("one".into(), Some(lit(1, U8))), ("mix".into(), Some(lit(0x82, U8))), ("low".into(), Some(lit(7, U8))), ("next".into(), None), ("top".into(), Some(lit(0x80, U8)))]))),
        D::Const("Kb".into(), Ty::Bool, Ex::Bool(true)),
        D::Const("Ku".into(), ti(U8), lit(200, U8)),
        D::Const("Ki".into(), ti(I16), un(Uop::Neg, lit(3, I16))),
        D::Const("Kk".into(), ti(U8), bin(Bop::Div, nm("Ku"), lit(3, U8))),
        D::Const("Ke".into(), rf("En"), Ex::Variant("En".into(), "C".into())),
        D::Const("Kf".into(), rf("Bf"), Ex::Variant("Bf".into(), "mix".into())),
    ]
}
/// every expression of the space with the type of the discriminant it is given to
fn exprs(thorough: bool, out: &mut dyn FnMut(Sc, &dyn Fn() -> Ex)) {
    let b2 = |e: Ex| tern(e, lits(1, U8), lits(2, U8));
    for s in ALL_SC {
        let small = s.bytes() == 1;
        let vals: Vec<u128> = if thorough && small { (0..256).collect() } else { edge(s) };
        for suffix in [true, false] {
            for a in &vals {
                out(s, &|| int(*a, s, suffix));
                for o in [Uop::BitNot, Uop::Neg] { if o == Uop::BitNot || s.signed() { out(s, &|| un(o, int(*a, s, suffix))); out(s, &|| un(o, Ex::Paren(Box::new(un(o, int(*a, s, suffix)))))); } }
                for b in &vals {
                    for o in arith(s) { out(s, &|| bin(o, int(*a, s, suffix), int(*b, s, suffix))); }
                    if suffix { for o in CMP { out(U8, &|| b2(bin(o, int(*a, s, true), int(*b, s, true)))); } }
                }
            }
        }
        // casts, of literals and of results
        for d in ALL_SC {
            for a in &vals { out(d, &|| cast(int(*a, s, true), d)); }
            for a in edge(s) { for o in arith(s) { out(d, &|| cast(bin(o, int(a, s, true), lits(3, s)), d)); } for m in ALL_SC { out(d, &|| cast(cast(int(a, s, true), m), d)); } }
        }
        // two operators, grouped either way and as they bind by themselves
        let few: Vec<u128> = if thorough { edge(s) } else { vec![0, 2, 7, s.max_bits()] };
        for o in arith(s) { for p in arith(s) { for a in &few { for b in &few { for c in &few {
            let x = |v: u128| int(v, s, true);
            out(s, &|| bin(p, bin(o, x(*a), x(*b)), x(*c)));
            out(s, &|| bin(o, x(*a), bin(p, x(*b), x(*c))));
        } } } } }
        for o in arith(s) { for p in CMP { for a in &few { for b in &few { out(U8, &|| b2(bin(p, bin(o, int(*a, s, true), lits(3, s)), int(*b, s, true)))); out(U8, &|| b2(bin(p, int(*a, s, true), bin(o, lits(9, s), int(*b, s, true))))); } } } }
        // widening
        for d in ALL_SC { if d.signed() == s.signed() && d.bytes() > s.bytes() { for a in edge(s) { out(d, &|| int(a, s, true)); for o in arith(d) { for b in [1u128, 3, 255] { out(d, &|| bin(o, int(a, s, true), int(b & d.max_bits(), d, true))); out(d, &|| bin(o, int(b & d.max_bits(), d, true), int(a, s, true))); } } } } }
    }
    // truth values
    let leaf = || -> Vec<Ex> {
        let mut v = vec![Ex::Bool(true), Ex::Bool(false), nm("Kb")];
        for (t, m) in [("one", "one"), ("one", "low"), ("mix", "mix"), ("mix", "low"), ("mix", "top"), ("mix", "one"), ("low", "mix"), ("low", "next"), ("next", "low"), ("top", "mix")] { v.push(Ex::Member(Box::new(Ex::Variant("Bf".into(), t.into())), m.into())); }
        for m in ["one", "mix", "low", "next", "top"] { v.push(Ex::Member(Box::new(nm("Kf")), m.into())); }
        for (a, b) in [("A", "B"), ("C", "C"), ("Z", "C")] { for o in CMP { v.push(bin(o, cast(Ex::Variant("En".into(), a.into()), U16), cast(Ex::Variant("En".into(), b.into()), U16))); } for o in [Bop::Eq, Bop::Ne] { v.push(bin(o, Ex::Variant("En".into(), a.into()), Ex::Variant("En".into(), b.into()))); } }
        for o in [Bop::Eq, Bop::Ne] { for m in ["A", "C"] { v.push(bin(o, nm("Ke"), Ex::Variant("En".into(), m.into()))); } }
        // what is not evaluated may be anything
        v.push(bin(Bop::Or, Ex::Bool(true), bin(Bop::Eq, bin(Bop::Div, lits(1, U8), lits(0, U8)), lits(1, U8))));
        v.push(bin(Bop::And, Ex::Bool(false), bin(Bop::Eq, bin(Bop::Div, lits(1, U8), lits(0, U8)), lits(1, U8))));
        v
    };
    let mut ls = leaf();
    for o in [Bop::Lt, Bop::Gt, Bop::Le, Bop::Ge] { for (a, b) in [(true, false), (true, true), (false, true)] { ls.push(bin(o, Ex::Bool(a), Ex::Bool(b))); } for (a, b) in [("A", "C"), ("B", "B"), ("Z", "B")] { ls.push(bin(o, Ex::Variant("En".into(), a.into()), Ex::Variant("En".into(), b.into()))); } ls.push(bin(o, Ex::Variant("Sn".into(), "N".into()), Ex::Variant("Sn".into(), "P".into()))); }
    for a in &ls {
        out(U8, &|| b2(a.clone()));
        out(U8, &|| b2(un(Uop::Not, Ex::Paren(Box::new(a.clone())))));
        out(U8, &|| b2(un(Uop::BitNot, Ex::Paren(Box::new(a.clone())))));
        for b in &ls { for o in BOOL { out(U8, &|| b2(bin(o, Ex::Paren(Box::new(a.clone())), Ex::Paren(Box::new(b.clone()))))); } }
        for b in ls.iter().take(3) { for c in ls.iter().take(3) { for o in BOOL { for p in BOOL {
            out(U8, &|| b2(bin(p, bin(o, a.clone(), b.clone()), c.clone())));
            out(U8, &|| b2(bin(o, b.clone(), bin(p, c.clone(), Ex::Paren(Box::new(a.clone()))))));
        } } } }
        for s in [U8, I16] { for (x, y) in [(1u128, 2u128), (100, 0)] { out(s, &|| tern(a.clone(), lits(x, s), lits(y, s))); out(s, &|| tern(a.clone(), bin(Bop::Div, lits(x, s), lits(y, s)), lits(7, s))); out(s, &|| tern(a.clone(), lits(x, s), tern(un(Uop::Not, Ex::Paren(Box::new(a.clone()))), lits(9, s), lits(8, s)))); } }
    }
    // names
    for d in ALL_SC {
        let mut n: Vec<Ex> = vec![];
        for (t, m) in [("En", "A"), ("En", "B"), ("En", "C"), ("En", "Z"), ("Sn", "N"), ("Sn", "O"), ("Sn", "P"), ("Bf", "one"), ("Bf", "mix"), ("Bf", "next")] { n.push(Ex::Variant(t.into(), m.into())); }
        for k in ["Ku", "Ki", "Kk", "Ke", "Kf"] { n.push(nm(k)); }
        for i in 0..5u128 { n.push(Ex::Index(Box::new(Ex::Str(b"a\xff\x00z".to_vec())), Box::new(lit(i, U64)))); n.push(Ex::Index(Box::new(Ex::Str(b"a\xff\x00z".to_vec())), Box::new(bin(Bop::Sub, lits(4, U64), lits(i, U64))))); }
        for e in n { out(d, &|| cast(e.clone(), d)); for o in arith(d) { out(d, &|| bin(o, cast(e.clone(), d), lits(3, d))); out(d, &|| bin(o, lits(100, d), cast(e.clone(), d))); } }
        for k in ["Ku", "Ki", "Kk"] { out(d, &|| nm(k)); for o in arith(d) { out(d, &|| bin(o, nm(k), nm(k))); out(d, &|| bin(o, nm(k), lits(3, d))); } }
    }
}

/// the discriminant of the variant A in generated code
fn discriminant(code: &str, s: Sc) -> Option<u128> {
    let e = &code[code.find("enum T")?..];
    let e = &e[e.find("A = ")? + 4..];
    let e = e[..e.find(',')?].replace(' ', "");
    let e = e.strip_suffix(s.name())?;
    let (neg, d) = match e.strip_prefix('-') { Some(d) => (true, d), None => (false, e) };
    let x: u128 = d.parse().ok()?;
    Some(if neg { x.wrapping_neg() } else { x } & s.mask())
}

pub fn check(rep: &mut Report) {
    let thorough = rep.tier == "thorough";
    #[derive(Default)]
    struct A { n: u64, yes: u64, no: u64, typed: u64, skipped: u64, viols: Vec<(String, String, String)>, samples: Vec<String> }
    let accs: Vec<A> = par(8, A::default, |k, a| {
        let w = world();
        let base = {
            let mut decls = vec![];
            let mut consts = vec![];
            for d in &w { match d { D::Ty(d) => decls.push(d.clone()), D::Const(n, t, e) => consts.push((n.clone(), t.clone(), e.clone())), _ => () } }
            let mut s = spec("constants", decls);
            s.consts = consts;
            s
        };
        let mut i = 0u64;
        exprs(thorough, &mut |s, make| {
            i += 1;
            if i / 16 % 8 != k { return }
            let e = make();
            let mut p = w.clone();
            p.push(D::Ty(decl("T", Ty::Enum(s, false, vec![("A".into(), EVal::Ex(e.clone()))]))));
            let text = rules::text(&p);
            let last = text.lines().last().unwrap().to_string();
            a.n += 1;
            // whether the types are right is for the static rules to say (which know no 128-bit values)
            let wide = last.contains("u128") || last.contains("i128");
            let typed = quiet(|| rules::check(&p)).unwrap_or_else(|m| Err(format!("PANIC {}", m)));
            let want = sem_value(&base, &e, s);
            if let Err(m) = &typed { if m.starts_with("PANIC") { eprintln!("{} {}", m, last); } }
            if want.is_some() && matches!(&typed, Err(m) if !wide || !m.contains("overflow") && !m.contains("range")) { a.skipped += 1; return }
            let got = match front(&text, &Res::default(), PLAIN) {
                Fe::Code(c) => Ok(discriminant(&c, s)),
                Fe::Parse(m) => { a.viols.push(("constant expression is not parsed".into(), last, m)); return }
                Fe::Reject(m) => Err(m),
                Fe::Panic(w, m) => { a.viols.push((format!("panic in {}", w), last, m)); return }
            };
            match (&want, &got) {
                (Some(x), Ok(Some(y))) if x == y => { a.yes += 1; if a.n % 20011 == 0 { a.samples.push(format!("{} => {}", last, x)); } }
                (None, Err(_)) => { a.no += 1; if typed.is_ok() { a.typed += 1; } }
                (Some(x), Ok(y)) => a.viols.push(("other value".into(), last, format!("the discriminant is {:?}, specified {} (as {}-bit pattern)", y, x, s.bits()))),
                (Some(x), Err(m)) => a.viols.push(("rejected".into(), last, format!("specified as {}, but rejected: {}", x, m))),
                (None, Ok(y)) => a.viols.push(("accepted".into(), last, format!("{}, but accepted as {:?}", "it has no value", y))),
            }
        });
    });
    let (mut n, mut yes, mut no, mut typed, mut skipped) = (0, 0, 0, 0, 0);
    for a in accs {
        n += a.n; yes += a.yes; no += a.no; typed += a.typed; skipped += a.skipped;
        for s in a.samples.into_iter().take(1) { rep.sample(s); }
        for (k, s, w) in a.viols { rep.viol(&format!("constants/{}", k), &s, w); }
    }
    rep.states += n;
    rep.transitions += n;
    rep.validated += yes + no;
    rep.set("constant expressions [enumerated, with a value, rejected, rejected for their value alone, not of the type asked for]", vec![n, yes, no, typed, skipped]);
}
fn sem_value(base: &Spec, e: &Ex, s: Sc) -> Option<u128> {
    match quiet(|| sem::const_eval_as(base, e, s)) { Ok(Ok(sem::EV::I(b, _))) => Some(b & s.mask()), Ok(Ok(x)) => panic!("{:?}", x), Ok(Err(_)) => None, Err(m) => { eprintln!("MODEL {} {:?}", m, e); None } }
}
