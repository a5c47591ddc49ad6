//! The families of specifications the checks explore, enumerated from the
//! constructors of the language.
use crate::ast::*;
use crate::ast::Sc::*;
use crate::run::Tier;
use crate::run::Tier::*;

pub const ALL: [&str; 22] = ["base", "cond", "calc", "repr", "expr", "consts", "xform", "lens", "foreign", "args", "tagged", "combo", "real", "scope", "large", "gz", "at-calc", "at-cond", "at-lens", "at-args", "at-xform", "at-tagged"];
pub fn specs(p: &str, t: Tier) -> Vec<Spec> {
    let mut v = match p {
        "base" => base(t),
        "cond" => cond(t),
        "calc" => calc(t),
        "repr" => repr(t),
        "expr" => expr(t),
        "consts" => consts(t),
        "xform" => xform(t),
        "lens" => lens(t),
        "foreign" => foreign(t),
        "args" => args(t),
        "tagged" => tagged_enums(t),
        "combo" => combo(t),
        "real" => crate::real::real(),
        "scope" => crate::scope::scope(),
        "large" => crate::large::large(t),
        "gz" => crate::large::gz(t),
        "at-calc" => exprs_at("at-calc", "calc", t),
        "at-cond" => exprs_at("at-cond", "cond", t),
        "at-lens" => exprs_at("at-lens", "lens", t),
        "at-args" => exprs_at("at-args", "args", t),
        "at-xform" => exprs_at("at-xform", "xform", t),
        "at-tagged" => exprs_at("at-tagged", "tagged", t),
        x => panic!("family {}", x),
    };
    // the same text twice explores nothing new
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.text()));
    v
}

fn u(x: u128) -> Ex { lit(x, U64) }
/// literal for an array, container or pad length
fn n(x: u128) -> Ex { lit(x, U64) }
fn c(s: Sc, x: u128) -> Ex { lit(x, s) }
fn eq(a: Ex, b: Ex) -> Ex { bin(Bop::Eq, a, b) }
fn one(fam: &'static str, t: Ty) -> Spec { spec(fam, vec![decl("T", t)]) }
fn en(sc: Sc, le: bool, items: &[(&str, Option<u128>)]) -> Ty { Ty::Enum(sc, le, items.iter().map(|(n, v)| (n.to_string(), match v { Some(x) => EVal::Ex(neg_lit(*x, sc)), None => EVal::Next })).collect()) }
/// a literal, of a negative value with a minus in front
fn neg_lit(x: u128, s: Sc) -> Ex { if s.signed() && x > s.max_bits() { let m = (!x).wrapping_add(1) & s.mask(); if m > s.max_bits() { bin(Bop::Sub, un(Uop::Neg, lit(m - 1, s)), lit(1, s)) } else { un(Uop::Neg, lit(m, s)) } } else { lit(x, s) } }
fn en_def(sc: Sc, le: bool, items: &[(&str, Option<u128>)], d: &str) -> Ty { let Ty::Enum(a, b, mut v) = en(sc, le, items) else { panic!() }; v.push((d.to_string(), EVal::Default)); Ty::Enum(a, b, v) }
fn bf(sc: Sc, le: bool, items: &[(&str, Option<u128>)]) -> Ty { Ty::Bits(sc, le, items.iter().map(|(n, v)| (n.to_string(), v.map(|x| lit(x, sc)))).collect()) }
fn e8() -> Decl { decl("Kind", en(U8, false, &[("A", Some(1)), ("B", Some(2)), ("C", Some(7))])) }
fn e16() -> Decl { decl("Wide", en(U16, true, &[("X", Some(0x102)), ("Y", Some(0x304))])) }
fn b8() -> Decl { decl("Flags", bf(U8, false, &[("one", Some(1)), ("two", Some(2)), ("four", Some(4))])) }
fn b16() -> Decl { decl("Bits", bf(U16, false, &[("low", Some(1)), ("high", Some(0x8000))])) }
fn inner() -> Decl { decl("Inner", cont(vec![it("a", ti(U8)), it("b", ti(U16))])) }
fn varlen() -> Decl { decl("Var", cont(vec![it("n", ti(U8)), it("d", arr(ti(U8), nm("n")))])) }

/// a u64 as another type
fn castu(e: Ex, s: Sc) -> Ex { if s == U64 { e } else { cast(e, s) } }

/// one specification per constructor of the language and the common pairs of them
pub fn base(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "base";
    for s in ALL_SC { v.push(one(f, cont(vec![it("a", ti(s)), it("b", tl(s)), it("z", ti(U8))]))); }
    v.push(one(f, ti(U16)));
    v.push(one(f, tl(I32)));
    v.push(one(f, Ty::Bool));
    v.push(one(f, cont(vec![it("x", Ty::F32), it("y", Ty::F64), it("b", Ty::Bool), it("c", Ty::Bool)])));
    v.push(one(f, cont(vec![it("a", ti(U8)), it("b", cont(vec![it("c", ti(U16)), it("d", cont(vec![it("e", tl(U16)), Item::Pad(n(2)), it("f", Ty::Bool)]))])), Item::Pad(n(1)), it("g", ti(U8))])));
    // arrays of every kind of element, of fixed, field, open and terminated length
    let elems: Vec<(Ty, Vec<Decl>)> = vec![
        (ti(U8), vec![]), (ti(I8), vec![]), (ti(U16), vec![]), (tl(U16), vec![]), (ti(I32), vec![]), (tl(U64), vec![]), (ti(U128), vec![]), (Ty::F32, vec![]), (Ty::F64, vec![]), (Ty::Bool, vec![]),
        (rf("Kind"), vec![e8()]), (rf("Wide"), vec![e16()]), (rf("Flags"), vec![b8()]), (rf("Bits"), vec![b16()]),
        (rf("Inner"), vec![inner()]), (rf("Var"), vec![varlen()]), (rf("v32"), vec![]), (rf("utf8"), vec![]), (arr(ti(U8), n(2)), vec![]), (arr(rf("Inner"), n(2)), vec![inner()]),
    ];
    for (i, (e, ds)) in elems.iter().enumerate() {
        let with = |items: Vec<Item>, open: bool| { let mut d = ds.clone(); d.push(decl("T", cont(items))); let s = spec(f, d); if open { s.open() } else { s } };
        v.push(with(vec![it("n", ti(U8)), it("d", arr(e.clone(), nm("n"))), it("z", ti(U8))], false));
        if t == Thorough || i % 3 == 0 { v.push(with(vec![it("d", arr(e.clone(), n(2))), it("z", ti(U8))], false)); }
        v.push(with(vec![it("h", ti(U8)), it("d", rest(e.clone()))], true));
        if t == Thorough || i % 2 == 0 { v.push(with(vec![it("d", term(e.clone(), b"\xfe")), it("z", ti(U8))], false).alpha(&[b"\x00", b"\x01", b"\x02", b"\xfe", b"\xff"])); }
    }
    v.push(one(f, cont(vec![it("d", term(ti(U8), b"ab")), it("z", ti(U8))])).alpha(&[b"a", b"b", b"\x00"]));
    v.push(one(f, cont(vec![it("n", ti(U16)), it("d", arr(ti(U16), nm("n"))), it("m", tl(U32)), it("e", arr(ti(U8), nm("m")))])));
    v.push(one(f, cont(vec![it("n", ti(U64)), it("d", arr(ti(U32), nm("n")))])));
    v.push(one(f, arr(ti(U16), n(2))));
    v.push(one(f, rest(ti(U16))).open());
    // enums and bitfields as fields and roots
    v.push(spec(f, vec![e8(), e16(), b8(), b16(), decl("T", cont(vec![it("k", rf("Kind")), it("w", rf("Wide")), it("f", rf("Flags")), it("b", rf("Bits"))]))]));
    v.push(spec(f, vec![decl("T", en_def(I16, true, &[("A", Some(1)), ("B", Some(0x100))], "Other"))]));
    // conditions
    v.push(one(f, cont(vec![it("p", ti(U8)), fld("a", ti(U16)).when(eq(nm("p"), c(U8, 1))).i(), fld("b", arr(ti(U8), n(2))).when(bin(Bop::Gt, nm("p"), c(U8, 1))).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("sub", cont(vec![it("a", ti(U8)), it("b", ti(U16))])).when(nm("p")).i(), it("z", ti(U8))])));
    v.push(spec(f, vec![inner(), decl("T", cont(vec![it("p", Ty::Bool), fld("a", rf("Inner")).when(nm("p")).i(), fld("b", rf("utf8")).when(un(Uop::Not, nm("p"))).i()]))]));
    v.push(one(f, cont(vec![it("p", ti(U8)), fld("n", ti(U8)).when(eq(nm("p"), c(U8, 1))).i(), it("z", ti(U8))])));
    // calculated fields
    v.push(one(f, cont(vec![fld("n", ti(U16)).is(castu(call("len", vec![nm("d")]), U16)).i(), it("d", arr(ti(U8), nm("n"))), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("h", ti(U8)), fld("n", ti(U32)).is(castu(call("blen", vec![nm("body")]), U32)).i(), fld("body", contl(nm("n"), vec![it("a", ti(U16)), it("r", rest(ti(U8)))])).i(), it("z", ti(U8))])));
    // length-delimited containers
    v.push(one(f, cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![it("a", ti(U8)), it("r", rest(ti(U8)))])).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![fld("b", contl(n(4), vec![it("a", ti(U16)), it("r", rest(ti(U16)))])).i(), it("z", ti(U8))])));
    // foreign types
    for x in ["v8", "v16", "v32", "v64", "v128"] { v.push(one(f, cont(vec![it("a", rf(x)), it("z", ti(U8))]))); }
    v.push(one(f, cont(vec![it("a", rf("utf8")), it("b", rf("utf8")), it("z", ti(U8))])).alpha(&[b"\x00", b"a", b"\xc3", b"\xa9"]));
    v.push(one(f, cont(vec![it("n", ti(U8)), it("s", rfa("utf8", vec![nm("n")])), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("n", ti(U8)), it("s", rfa("utf16", vec![nm("n")])), it("z", ti(U8))])));
    v.push(one(f, cont(vec![fld("n", ti(U16)).is(castu(call("len", vec![nm("s")]), U16)).i(), it("s", rfa("utf8", vec![nm("n")]))])));
    // references, arguments, defaults, recursion
    v.push(spec(f, vec![inner(), decl("T", cont(vec![it("a", rf("Inner")), it("b", rf("Inner")), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("P", cont(vec![it("d", arr(ti(U8), nm("k"))), fld("e", ti(U8)).when(nm("on")).i()])).p("k", ti(U8)).p("on", Ty::Bool), decl("T", cont(vec![it("n", ti(U8)), it("q", Ty::Bool), it("x", rfa("P", vec![nm("n"), nm("q")])), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("P", cont(vec![it("d", arr(ti(U8), nm("k")))])).po("k", ti(U8), c(U8, 2)), decl("T", cont(vec![it("x", rf("P")), it("y", rfa("P", vec![lits(1, U8)])), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("T", cont(vec![it("n", ti(U8)), it("kids", arr(rf("T"), nm("n")))]))]).alpha(&[b"\x00", b"\x01", b"\x02"]));
    v.push(spec(f, vec![decl("T", cont(vec![it("a", ti(U8)), it("d", arr(ti(U8), nm("k")))])).p("k", ti(U8))]).args(vec![vec![Val::I(0)], vec![Val::I(2)]]));
    // tagged enums
    v.push(spec(f, vec![decl("M", tagged(vec![fld("A", ti(U16)).when(eq(nm("t"), c(U8, 1))).i(), fld("B", cont(vec![it("x", ti(U8)), it("y", ti(U8))])).when(eq(nm("t"), c(U8, 2))).i(), fld("C", arr(ti(U8), n(2))).when(eq(nm("t"), c(U8, 3))).i()])).p("t", ti(U8)), decl("T", cont(vec![it("t", ti(U8)), it("m", rfa("M", vec![nm("t")])), it("z", ti(U8))]))]));
    // transforms
    v.push(one(f, cont(vec![it("a", ti(U8)), fld("b", arr(ti(U8), n(3))).via("xor", vec![], None).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("b", ti(U32)).via("add", vec![], Some(nm("p"))).via("xor", vec![], None).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("n", ti(U8)), fld("b", arr(ti(U8), nm("n"))).via("frame", vec![], None).i(), it("z", ti(U8))])));
    v.push(spec(f, vec![inner(), decl("T", cont(vec![fld("b", rf("Inner")).via("xor", vec![], None).i(), it("z", ti(U8))]))]));
    v.push(one(f, cont(vec![it("k", ti(U8)), fld("sub", cont(vec![it("a", ti(U8)), it("b", ti(U16))])).via("xor", vec![nm("k")], None).i(), it("z", ti(U8))])));
    v
}

pub fn cond(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "cond";
    let conds = || -> Vec<Ex> { vec![eq(nm("p"), c(U8, 1)), bin(Bop::Gt, nm("p"), c(U8, 1)), bin(Bop::Ne, bin(Bop::BitAnd, nm("p"), c(U8, 2)), c(U8, 0)), nm("q"), un(Uop::Not, nm("q")), bin(Bop::Or, nm("q"), eq(nm("p"), c(U8, 0))), bin(Bop::And, nm("q"), bin(Bop::Le, nm("p"), c(U8, 1)))] };
    let kinds: Vec<(Ty, Vec<Decl>)> = vec![(ti(U8), vec![]), (tl(U32), vec![]), (Ty::Bool, vec![]), (Ty::F32, vec![]), (arr(ti(U8), n(2)), vec![]), (arr(ti(U16), nm("p")), vec![]), (rf("Kind"), vec![e8()]), (rf("Flags"), vec![b8()]), (rf("Inner"), vec![inner()]), (rf("utf8"), vec![]), (rf("v32"), vec![]), (term(ti(U8), b"\xfe"), vec![]), (arr(rf("Inner"), n(1)), vec![inner()]), (rfa("utf8", vec![nm("p")]), vec![])];
    let head = || vec![it("p", ti(U8)), it("q", Ty::Bool)];
    // every kind of field under a condition
    for (i, (k, ds)) in kinds.iter().enumerate() {
        let cs = conds();
        let many = if t == Thorough { cs.len() } else { 2 };
        for j in 0..many {
            let mut items = head();
            items.push(fld("a", k.clone()).when(cs[(i + j) % cs.len()].clone()).i());
            items.push(it("z", ti(U8)));
            let mut d = ds.clone();
            d.push(decl("T", cont(items)));
            v.push(spec(f, d));
        }
    }
    // up to four conditional members with different conditions
    let cs = conds();
    for k in 2..=4usize {
        let step = if t == Thorough { 1 } else { 3 };
        for s in (0..cs.len()).step_by(step) {
            let mut items = head();
            for j in 0..k { items.push(fld(&format!("m{}", j), if j % 2 == 0 { ti(U8) } else { ti(U16) }).when(cs[(s + j * 2) % cs.len()].clone()).i()); }
            items.push(it("z", ti(U8)));
            v.push(one(f, cont(items)));
        }
    }
    // conditional containers, nested, with conditional and unconditional members
    for (i, a) in cs.iter().enumerate() {
        for (j, b) in cs.iter().enumerate() {
            if t == Quick && (i + 2 * j) % 5 != 0 { continue; }
            let mut items = head();
            items.push(fld("sub", cont(vec![it("x", ti(U8)), fld("y", ti(U16)).when(b.clone()).i(), it("w", ti(U8))])).when(a.clone()).i());
            items.push(it("z", ti(U8)));
            v.push(one(f, cont(items)));
            let mut items = head();
            items.push(fld("s", cont(vec![it("x", ti(U8)), fld("t", cont(vec![it("y", ti(U8)), it("w", arr(ti(U8), n(2)))])).when(b.clone()).i()])).when(a.clone()).i());
            items.push(it("z", ti(U8)));
            v.push(one(f, cont(items)));
        }
    }
    // a single member, a pad, a nested unconditional container inside a conditional one
    for a in cs.iter().take(if t == Thorough { 7 } else { 3 }) {
        let mut items = head();
        items.push(fld("s", cont(vec![it("x", ti(U8))])).when(a.clone()).i());
        items.push(it("z", ti(U8)));
        v.push(one(f, cont(items)));
        let mut items = head();
        items.push(fld("s", cont(vec![Item::Pad(n(2)), it("x", ti(U8)), it("s2", cont(vec![it("y", ti(U8))]))])).when(a.clone()).i());
        items.push(it("z", ti(U8)));
        v.push(one(f, cont(items)));
        let mut items = head();
        items.push(fld("s", cont(vec![it("x", ti(U8)), it("y", ti(U8))])).when(a.clone()).i());
        items.push(fld("s2", cont(vec![it("x2", ti(U8)), it("y2", ti(U8))])).when(un(Uop::Not, a.clone())).i());
        v.push(one(f, cont(items)));
    }
    // conditional top-level aliases
    v.push(spec(f, vec![declf("A", fld("", ti(U16)).when(eq(nm("k"), c(U8, 1)))).p("k", ti(U8)), decl("T", cont(vec![it("p", ti(U8)), it("a", rfa("A", vec![nm("p")])), it("z", ti(U8))]))]));
    v.push(spec(f, vec![declf("T", fld("", ti(U16)).when(eq(nm("k"), c(U8, 1)))).p("k", ti(U8))]).args(vec![vec![Val::I(1)], vec![Val::I(0)]]));
    v.push(spec(f, vec![declf("T", fld("", arr(ti(U16), n(2))).when(nm("k"))).p("k", Ty::Bool)]).args(vec![vec![Val::B(true)], vec![Val::B(false)]]));
    // absent values in conditions
    v.push(one(f, cont(vec![it("p", ti(U8)), fld("o", ti(U8)).when(eq(nm("p"), c(U8, 1))).i(), fld("x", ti(U8)).when(eq(bin(Bop::Elvis, nm("o"), c(U8, 9)), c(U8, 9))).i(), it("z", ti(U8))])));
    v
}

pub fn calc(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "calc";
    let len = |x: &str, s: Sc| { let e = call("len", vec![nm(x)]); if s == U64 { e } else { cast(e, s) } };
    let blen = |x: &str, s: Sc| { let e = call("blen", vec![nm(x)]); if s == U64 { e } else { cast(e, s) } };
    let tys = [U8, U16, U32, U64];
    // one length before, directly before, after, in a nested container
    for s in tys {
        v.push(one(f, cont(vec![fld("n", ti(s)).is(len("d", s)).i(), it("d", arr(ti(U8), nm("n")))])));
        v.push(one(f, cont(vec![it("h", ti(U8)), fld("n", tl(s)).is(len("d", s)).i(), it("m", ti(U16)), it("d", arr(ti(U16), nm("n"))), it("z", ti(U8))])));
        v.push(one(f, cont(vec![it("h", ti(U8)), fld("n", ti(s)).is(blen("b", s)).i(), it("m", ti(U8)), fld("b", contl(nm("n"), vec![it("x", ti(U8)), it("r", rest(ti(U8)))])).i(), it("z", ti(U8))])));
    }
    v.push(one(f, cont(vec![it("d", arr(ti(U8), n(3))), fld("n", ti(U8)).is(len("d", U8)).i()])));
    // constant and arithmetic calculations
    v.push(one(f, cont(vec![it("a", ti(U8)), fld("k", ti(U16)).is(lit(0x1234, U16)).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("a", ti(U8)), fld("k", ti(U8)).is(bin(Bop::Add, nm("a"), c(U8, 1))).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("a", ti(U8)), it("b", ti(U8)), fld("k", ti(U8)).is(bin(Bop::BitXor, nm("a"), nm("b"))).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![fld("k", ti(U8)).is(bin(Bop::BitXor, nm("a"), nm("b"))).i(), it("a", ti(U8)), it("b", ti(U8)), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("a", ti(U8)), fld("k", Ty::Bool).is(bin(Bop::Lt, nm("a"), c(U8, 2))).i(), fld("x", ti(U8)).when(nm("k")).i()])));
    v.push(one(f, cont(vec![fld("k", ti(U16)).is(bin(Bop::Add, len("d", U16), lit(2, U16))).i(), it("d", arr(ti(U8), bin(Bop::Sub, nm("k"), lit(2, U16))))])));
    v.push(one(f, cont(vec![fld("k", ti(U16)).is(bin(Bop::Add, blen("b", U16), lit(2, U16))).i(), fld("b", contl(bin(Bop::Sub, nm("k"), lit(2, U16)), vec![it("r", rest(ti(U8)))])).i(), it("z", ti(U8))])));
    // two and three calculated fields in every arrangement of four slots
    let body = |nme: &str, l: &str| fld(nme, contl(nm(l), vec![it(&format!("{}r", nme), rest(ti(U8)))])).i();
    let lf = |nme: &str, s: Sc, target: &str| fld(nme, ti(s)).is(blen(target, s)).i();
    let pieces = |k: usize| -> Vec<Item> {
        let mut p = vec![lf("n1", U8, "b1"), body("b1", "n1"), lf("n2", U16, "b2"), body("b2", "n2")];
        if k == 3 { p.push(fld("n3", ti(U8)).is(len("d3", U8)).i()); p.push(it("d3", arr(ti(U8), nm("n3")))); }
        p
    };
    fn perms(n: usize) -> Vec<Vec<usize>> { if n == 0 { return vec![vec![]]; } let mut o = vec![]; for p in perms(n - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); o.push(q); } } o }
    let ordered = |p: &Vec<usize>| (0..p.len() / 2).all(|i| p.iter().position(|x| *x == 2 * i) < p.iter().position(|x| *x == 2 * i + 1));
    for p in perms(4).into_iter().filter(ordered) {
        let pc = pieces(2);
        let mut items: Vec<Item> = p.iter().map(|i| pc[*i].clone()).collect();
        items.push(it("z", ti(U8)));
        v.push(one(f, cont(items.clone())));
        // with a plain field between all of them
        let mut mixed = vec![];
        for (i, x) in items.into_iter().enumerate() { mixed.push(x); mixed.push(it(&format!("m{}", i), ti(U8))); }
        v.push(one(f, cont(mixed)));
    }
    for (k, p) in perms(6).into_iter().filter(ordered).enumerate() {
        if t == Quick && k % 8 != 0 { continue; }
        let pc = pieces(3);
        v.push(one(f, cont(p.iter().map(|i| pc[*i].clone()).collect())));
    }
    // nested: a length of a container with lengths inside
    v.push(one(f, cont(vec![lf("n", U16, "b"), fld("b", contl(nm("n"), vec![fld("k", ti(U8)).is(len("d", U8)).i(), it("d", arr(ti(U8), nm("k"))), it("y", ti(U8))])).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![lf("n", U16, "b"), fld("b", contl(nm("n"), vec![it("x", ti(U8)), lf("k", U8, "s"), fld("s", contl(nm("k"), vec![it("r", rest(ti(U8)))])).i(), it("y", ti(U8))])).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![lf("n", U8, "b"), lf("m", U8, "b"), fld("b", contl(nm("n"), vec![it("r", rest(ti(U8)))])).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![lf("n", U8, "b"), fld("b", contl(nm("n"), vec![it("r", rest(ti(U8)))])).i(), lf("m", U8, "b"), it("z", ti(U8))])));
    // strings
    v.push(one(f, cont(vec![fld("n", ti(U8)).is(len("s", U8)).i(), it("s", rfa("utf8", vec![nm("n")])), it("z", ti(U8))])));
    // in a referenced type, in arrays
    let rec = decl("Rec", cont(vec![fld("n", ti(U8)).is(len("d", U8)).i(), it("d", arr(ti(U8), nm("n")))]));
    v.push(spec(f, vec![rec.clone(), decl("T", cont(vec![fld("k", ti(U8)).is(len("rs", U8)).i(), it("rs", arr(rf("Rec"), nm("k"))), it("z", ti(U8))]))]));
    let brec = decl("Rec", cont(vec![lf("n", U8, "b"), fld("b", contl(nm("n"), vec![it("r", rest(ti(U8)))])).i()]));
    v.push(spec(f, vec![brec, decl("T", cont(vec![lf("m", U16, "all"), fld("all", contl(nm("m"), vec![it("rs", rest(rf("Rec")))])).i(), it("z", ti(U8))]))]));
    // a transformed target and a transformed calculated field
    v.push(one(f, cont(vec![lf("n", U8, "b"), fld("b", contl(nm("n"), vec![it("r", rest(ti(U8)))])).via("xor", vec![], None).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![fld("n", ti(U16)).is(len("d", U16)).via("add", vec![], None).i(), it("d", arr(ti(U8), nm("n"))), it("z", ti(U8))])));
    // conditional targets and conditional calculated fields
    let bb = |nme: &str, l: Ex, cnd: Ex| fld(nme, contl(l, vec![it(&format!("{}x", nme), ti(U8)), it(&format!("{}r", nme), rest(ti(U8)))])).when(cnd).i();
    v.push(one(f, cont(vec![it("p", Ty::Bool), lf("n", U8, "b"), bb("b", nm("n"), nm("p")), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), lf("n", U8, "b"), it("m", ti(U8)), lf("k", U16, "c"), bb("c", nm("k"), un(Uop::Not, nm("p"))), bb("b", nm("n"), nm("p")), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("n", ti(U8)).is(blen("b", U8)).when(nm("p")).i(), bb("b", bin(Bop::Elvis, nm("n"), c(U8, 0)), nm("p")), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("n", ti(U8)).is(len("d", U8)).when(nm("p")).i(), it("d", arr(ti(U8), bin(Bop::Elvis, nm("n"), c(U8, 2)))), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("n", ti(U16)).is(bin(Bop::Sub, len("d", U16), lit(1, U16))).when(nm("p")).i(), it("k", ti(U8)), it("d", arr(ti(U8), nm("k"))), it("z", ti(U8))])));
    // calculated from calculated, declared before and after
    v.push(one(f, cont(vec![fld("m", ti(U16)).is(bin(Bop::Mul, cast(nm("n"), U16), lit(2, U16))).i(), fld("n", ti(U8)).is(len("d", U8)).i(), it("d", arr(ti(U8), nm("n"))), it("z", ti(U8))])));
    v.push(one(f, cont(vec![fld("m", ti(U8)).is(bin(Bop::BitXor, nm("n"), c(U8, 0x80))).i(), lf("n", U8, "b"), body("b", "n"), it("z", ti(U8))])));
    v.push(one(f, cont(vec![lf("n", U8, "b"), it("x", ti(U8)), body("b", "n"), fld("m", ti(U8)).is(bin(Bop::BitXor, nm("n"), nm("x"))).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![lf("n", U8, "b"), it("d", arr(ti(U8), nm("n"))), body("b", "n"), it("z", ti(U8))])));
    v.push(one(f, cont(vec![lf("n", U8, "b"), fld("d", ti(U8)).when(bin(Bop::Gt, nm("n"), c(U8, 1))).i(), body("b", "n"), it("z", ti(U8))])));
    // the length of a container that has its own length besides
    v.push(one(f, cont(vec![it("k", ti(U8)), lf("n", U8, "b"), body("b", "k"), it("z", ti(U8))])));
    v.push(one(f, cont(vec![lf("n", U8, "b"), fld("b", contl(n(2), vec![it("r", rest(ti(U8)))])).i(), it("z", ti(U8))])));
    // sums and two lengths in one field
    v.push(one(f, cont(vec![fld("n", ti(U8)).is(bin(Bop::Add, blen("b1", U8), blen("b2", U8))).i(), it("k", ti(U8)), fld("b1", contl(bin(Bop::Sub, nm("n"), nm("k")), vec![it("r1", rest(ti(U8)))])).i(), fld("b2", contl(nm("k"), vec![it("r2", rest(ti(U8)))])).i(), it("z", ti(U8))])));
    // inside conditional containers, which evaluate nothing when they are absent
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("o", cont(vec![fld("n", ti(U8)).is(len("d", U8)).i(), it("d", arr(ti(U8), nm("n")))])).when(nm("p")).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("o", cont(vec![lf("n", U8, "b"), it("y", ti(U8)), body("b", "n")])).when(nm("p")).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", ti(U8)), fld("o", cont(vec![fld("n", ti(U8)).is(bin(Bop::Sub, nm("p"), c(U8, 2))).i(), it("y", ti(U8))])).when(bin(Bop::Ge, nm("p"), c(U8, 2))).i(), it("z", ti(U8))])));
    // the variants of a tagged enum
    v.push(spec(f, vec![decl("M", tagged(vec![fld("A", cont(vec![lf("n", U8, "b"), it("y", ti(U8)), body("b", "n")])).when(eq(nm("t"), c(U8, 1))).i(), fld("B", cont(vec![fld("k", ti(U16)).is(len("d", U16)).i(), it("d", arr(ti(U8), nm("k")))])).i()])).p("t", ti(U8)), decl("T", cont(vec![it("t", ti(U8)), it("m", rfa("M", vec![nm("t")])), it("z", ti(U8))]))]));
    // checksums over contents
    v.push(one(f, cont(vec![fld("s", ti(U64)).is(call("sum", vec![nm("d")])).i(), it("n", ti(U8)), it("d", arr(ti(U8), nm("n"))), it("z", ti(U8))])));
    // conditional transforms and several transforms on a target
    v.push(one(f, cont(vec![it("p", Ty::Bool), lf("n", U8, "b"), fld("b", contl(nm("n"), vec![it("r", rest(ti(U8)))])).via("frame", vec![], None).via("add", vec![], Some(nm("p"))).i(), it("z", ti(U8))])));
    // values of other types
    v.push(one(f, cont(vec![it("a", ti(U8)), fld("k", arr(ti(U8), n(2))).is(Ex::Str(b"ok".to_vec())).i(), it("z", ti(U8))])));
    v.push(spec(f, vec![e8(), decl("T", cont(vec![it("a", ti(U8)), fld("k", rf("Kind")).is(tern(eq(nm("a"), c(U8, 0)), Ex::Variant("Kind".into(), "A".into()), Ex::Variant("Kind".into(), "B".into()))).i(), it("z", ti(U8))]))]));
    v.push(spec(f, vec![e8(), decl("T", cont(vec![it("p", Ty::Bool), fld("k", rf("Kind")).is(Ex::Variant("Kind".into(), "C".into())).when(nm("p")).i(), it("z", ti(U8))]))]));
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("n", ti(U8)).is(c(U8, 5)).when(nm("p")).i(), it("z", ti(U8))])));
    v
}

pub fn repr(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "repr";
    for s in ALL_SC {
        for le in [false, true] {
            if s.bytes() == 1 && le { continue; }
            let hi = s.max_bits();
            v.push(one(f, en(s, le, &[("A", Some(0)), ("B", Some(1)), ("Top", Some(hi))])));
            v.push(one(f, en(s, le, &[("A", Some(3)), ("B", None), ("C", None), ("D", Some(9)), ("E", None)])));
            v.push(one(f, en_def(s, le, &[("A", Some(1)), ("B", None), ("C", Some(5))], "Other")));
            if s.signed() { v.push(one(f, Ty::Enum(s, le, vec![("Neg".into(), EVal::Ex(un(Uop::Neg, lit(2, s)))), ("Next".into(), EVal::Next), ("Zero".into(), EVal::Next), ("Min".into(), EVal::Ex(un(Uop::BitNot, lit(hi, s))))]))); }
            if s.signed() && t == Quick && le { continue; }
            if !s.signed() || t == Thorough {
                v.push(one(f, bf(s, le, &[("a", Some(1)), ("b", None), ("c", None), ("d", Some(0x10)), ("e", None)])));
                v.push(one(f, bf(s, le, &[("top", Some(if s.signed() { hi ^ (hi >> 1) } else { hi ^ (hi >> 1) })), ("low", Some(1)), ("both", Some(3))])));
            }
        }
    }
    for s in [U8, U16] {
        v.push(one(f, bf(s, false, &[("FlagOne", Some(1)), ("flag_two", Some(2)), ("HTTPLike", Some(4)), ("every", Some(7)), ("mid", Some(0x40)), ("shifted", None)])));
        v.push(one(f, Ty::Bits(s, false, vec![("a".into(), Some(bin(Bop::Shl, lit(1, s), lit(3, s)))), ("b".into(), Some(bin(Bop::BitOr, lit(1, s), lit(4, s)))), ("c".into(), None)])));
        v.push(one(f, Ty::Enum(s, false, vec![("a".into(), EVal::Ex(bin(Bop::Add, lit(1, s), lit(3, s)))), ("b".into(), EVal::Next), ("c".into(), EVal::Ex(bin(Bop::Mul, lit(5, s), lit(4, s)))), ("d".into(), EVal::Next)])));
    }
    // in arrays, containers, through aliases
    v.push(spec(f, vec![e8(), b16(), decl("T", cont(vec![it("k", arr(rf("Kind"), n(2))), it("b", arr(rf("Bits"), n(2))), it("n", ti(U8)), it("ks", arr(rf("Kind"), nm("n"))), it("bs", rest(rf("Bits")))]))]).open());
    v.push(spec(f, vec![e16(), decl("T", cont(vec![it("w", rf("Wide")), it("ws", arr(rf("Wide"), n(2)))]))]));
    v.push(spec(f, vec![decl("LeBits", bf(U16, true, &[("low", Some(1)), ("high", Some(0x8000))])), decl("T", cont(vec![it("w", rf("LeBits")), it("ws", arr(rf("LeBits"), n(2)))]))]));
    v.push(spec(f, vec![e8(), decl("Al", rf("Kind")), decl("T", cont(vec![it("a", rf("Al")), it("z", ti(U8))]))]));
    v
}

/// wraps an expression of a type into a specification that computes it in the
/// encoder (calculated field), in the decoder (condition) and as a length
fn holder(f: &'static str, ds: Vec<Decl>, inputs: Vec<Item>, e: Ex, out: Ty) -> Spec {
    let mut d = ds;
    let mut items = inputs;
    items.push(fld("r", out).is(e).i());
    items.push(it("z", ti(U8)));
    d.push(decl("T", cont(items)));
    spec(f, d)
}
pub fn expr(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "expr";
    let arith = [Bop::Add, Bop::Sub, Bop::Mul, Bop::Div, Bop::Mod, Bop::BitAnd, Bop::BitOr, Bop::BitXor];
    let cmp = [Bop::Eq, Bop::Ne, Bop::Lt, Bop::Gt, Bop::Le, Bop::Ge];
    let dom = |s: Sc| -> Vec<u128> { let mut d = vec![3u128, 0, 1, s.max_bits(), s.mask(), s.min_bits(), 2, 7]; d.dedup(); let mut o: Vec<u128> = vec![]; for x in d { if !o.contains(&x) { o.push(x) } } o };
    let xy = |s: Sc| vec![fld("x", ti(s)).ints(&dom(s)).i(), fld("y", ti(s)).ints(&dom(s)).i()];
    // every operator on every type, all operators of a type in one message
    for s in ALL_SC {
        for o in arith { v.push(holder(f, vec![], xy(s), bin(o, nm("x"), nm("y")), ti(s))); }
        let mut items = xy(s);
        for (i, o) in cmp.iter().enumerate() { items.push(fld(&format!("c{}", i), Ty::Bool).is(bin(*o, nm("x"), nm("y"))).i()); }
        v.push(one(f, cont(items)));
        v.push(holder(f, vec![], vec![fld("x", ti(s)).ints(&dom(s)).i()], un(Uop::BitNot, nm("x")), ti(s)));
        if s.signed() { v.push(holder(f, vec![], vec![fld("x", ti(s)).ints(&dom(s)).i()], un(Uop::Neg, nm("x")), ti(s))); }
        let sh = |o: Bop| holder(f, vec![], vec![fld("x", ti(s)).ints(&dom(s)).i(), fld("k", ti(s)).ints(&[1, 0, (s.bits() - 1) as u128, (s.bits() as u128) & s.mask(), s.mask()]).i()], bin(o, nm("x"), nm("k")), ti(s));
        v.push(sh(Bop::Shl));
        v.push(if s.signed() { sh(Bop::ShrS) } else { sh(Bop::Shr) });
        // casts to every other type
        let mut items = vec![fld("x", ti(s)).ints(&dom(s)).i()];
        for d in ALL_SC { items.push(fld(&format!("to{}", d.name()), ti(d)).is(cast(nm("x"), d)).i()); }
        v.push(one(f, cont(items)));
    }
    // every pair of bytes under every operator
    for s in [U8, I8] {
        let two = || vec![it("x", ti(s)), it("y", ti(s))];
        for o in arith { let mut i = two(); i.push(fld("r", ti(s)).is(bin(o, nm("x"), nm("y"))).i()); v.push(one(f, cont(i)).complete(2)); }
        for o in [Bop::Shl, if s.signed() { Bop::ShrS } else { Bop::Shr }] { let mut i = two(); i.push(fld("r", ti(s)).is(bin(o, nm("x"), nm("y"))).i()); v.push(one(f, cont(i)).complete(2)); }
        let mut i = two();
        for (k, o) in cmp.iter().enumerate() { i.push(fld(&format!("c{}", k), Ty::Bool).is(bin(*o, nm("x"), nm("y"))).i()); }
        i.push(fld("inv", ti(s)).is(un(Uop::BitNot, nm("x"))).i());
        for d in ALL_SC { i.push(fld(&format!("to{}", d.name()), ti(d)).is(cast(nm("x"), d)).i()); }
        v.push(one(f, cont(i)).complete(2));
    }
    // truth values, enums and bitfields
    let all = [Bop::Or, Bop::And, Bop::BitOr, Bop::BitAnd, Bop::BitXor, Bop::Eq, Bop::Ne, Bop::Lt, Bop::Gt, Bop::Le, Bop::Ge];
    let mut i = vec![it("x", Ty::Bool), it("y", Ty::Bool)];
    for (k, o) in all.iter().enumerate() { i.push(fld(&format!("c{}", k), Ty::Bool).is(bin(*o, nm("x"), nm("y"))).i()); i.push(fld(&format!("d{}", k), Ty::Bool).is(bin(*o, un(Uop::Not, nm("x")), un(Uop::BitNot, nm("y")))).i()); }
    v.push(one(f, cont(i)).complete(2));
    for e in [e8(), decl("Kind", en(I8, false, &[("A", Some(0xff)), ("B", Some(2)), ("C", Some(0x80))])), decl("Kind", en(U16, true, &[("A", Some(0x100)), ("B", Some(2)), ("C", Some(0xff00))]))] {
        let mut i = vec![it("x", rf("Kind")), it("y", rf("Kind"))];
        for (k, o) in all[5..].iter().enumerate() { i.push(fld(&format!("c{}", k), Ty::Bool).is(bin(*o, nm("x"), nm("y"))).i()); i.push(fld(&format!("d{}", k), Ty::Bool).is(bin(*o, nm("x"), Ex::Variant("Kind".into(), "B".into()))).i()); }
        v.push(spec(f, vec![e.clone(), decl("T", cont(i))]));
    }
    for b in [decl("Fl", bf(U8, false, &[("one", Some(1)), ("mix", Some(0x82)), ("low", Some(7))])), decl("Fl", bf(U16, true, &[("one", Some(1)), ("mix", Some(0x8200)), ("low", Some(0x107))]))] {
        let mut i = vec![it("x", rf("Fl")), it("y", rf("Fl"))];
        for (k, o) in [Bop::BitOr, Bop::BitAnd, Bop::BitXor].iter().enumerate() {
            i.push(fld(&format!("c{}", k), rf("Fl")).is(bin(*o, nm("x"), nm("y"))).i());
            i.push(fld(&format!("d{}", k), Ty::Bool).is(Ex::Member(Box::new(Ex::Paren(Box::new(bin(*o, nm("x"), Ex::Variant("Fl".into(), "mix".into()))))), "low".into())).i());
        }
        for (k, m) in ["one", "mix", "low"].iter().enumerate() { i.push(fld(&format!("m{}", k), Ty::Bool).is(Ex::Member(Box::new(nm("x")), m.to_string())).i()); i.push(fld(&format!("v{}", k), Ty::Bool).is(bin(Bop::Eq, nm("y"), Ex::Variant("Fl".into(), m.to_string()))).i()); }
        i.push(fld("w", ti(U64)).is(cast(nm("x"), U64)).i());
        v.push(spec(f, vec![b, decl("T", cont(i))]));
    }
    // precedence and associativity: every pair of operators over three operands, in both groupings
    let ints = [Bop::BitOr, Bop::BitXor, Bop::BitAnd, Bop::Shr, Bop::Shl, Bop::Add, Bop::Sub, Bop::Mul, Bop::Div, Bop::Mod];
    let three = || vec![fld("x", ti(U32)).ints(&[13, 2, 7, 200]).i(), fld("y", ti(U32)).ints(&[3, 1, 5]).i(), fld("w", ti(U32)).ints(&[2, 1, 4]).i()];
    let mut all = vec![];
    for a in ints { for b in ints {
        all.push(bin(b, bin(a, nm("x"), nm("y")), nm("w")));
        all.push(bin(a, nm("x"), bin(b, nm("y"), nm("w"))));
    } }
    for a in ints { all.push(un(Uop::BitNot, bin(a, nm("x"), nm("y")))); all.push(bin(a, un(Uop::BitNot, nm("x")), nm("y"))); all.push(bin(a, nm("x"), cast(cast(nm("y"), U8), U32))); all.push(cast(cast(bin(a, nm("x"), nm("y")), U8), U32)); }
    // several results per specification; a failing one must not hide the others, so partial operators get their own
    let total = |e: &Ex| { fn has(e: &Ex) -> bool { match e { Ex::Bin(o, a, b) => matches!(o, Bop::Sub | Bop::Div | Bop::Mod | Bop::Shl | Bop::Shr) || has(a) || has(b), Ex::Un(_, a) | Ex::Cast(a, _) | Ex::Paren(a) => has(a), _ => false } } !has(e) };
    let (tot, part): (Vec<Ex>, Vec<Ex>) = all.into_iter().partition(total);
    for ch in tot.chunks(12) { let mut items = three(); for (i, e) in ch.iter().enumerate() { items.push(fld(&format!("r{}", i), ti(U32)).is(e.clone()).i()); } v.push(one(f, cont(items))); }
    let per = if t == Thorough { 1 } else { 6 };
    for ch in part.chunks(per) { let mut items = three(); for (i, e) in ch.iter().enumerate() { items.push(fld(&format!("r{}", i), ti(U32)).is(e.clone()).i()); } v.push(one(f, cont(items))); }
    // logic: precedence, short circuit
    let bools = || vec![it("x", Ty::Bool), it("y", Ty::Bool), it("w", Ty::Bool)];
    let lo = [Bop::Or, Bop::And, Bop::Eq, Bop::Ne];
    let mut es = vec![];
    for a in lo { for b in lo { es.push(bin(b, bin(a, nm("x"), nm("y")), nm("w"))); es.push(bin(a, nm("x"), bin(b, nm("y"), nm("w")))); } es.push(un(Uop::Not, bin(a, nm("x"), nm("y")))); es.push(bin(a, un(Uop::Not, nm("x")), nm("y"))); }
    es.push(tern(nm("x"), nm("y"), nm("w")));
    es.push(tern(nm("x"), tern(nm("y"), nm("w"), nm("x")), nm("y")));
    es.push(tern(tern(nm("x"), nm("y"), nm("w")), nm("y"), nm("w")));
    es.push(tern(bin(Bop::Or, nm("x"), nm("y")), un(Uop::Not, nm("w")), nm("x")));
    es.push(un(Uop::Not, un(Uop::Not, nm("x"))));
    for ch in es.chunks(14) { let mut items = bools(); for (i, e) in ch.iter().enumerate() { items.push(fld(&format!("r{}", i), Ty::Bool).is(e.clone()).i()); } v.push(one(f, cont(items))); }
    let xs = || vec![fld("x", ti(U8)).ints(&[3, 0, 1, 200]).i(), fld("y", ti(U8)).ints(&[2, 0, 5, 255]).i()];
    v.push(holder(f, vec![], xs(), bin(Bop::And, bin(Bop::Ne, nm("y"), c(U8, 0)), bin(Bop::Gt, bin(Bop::Div, nm("x"), nm("y")), c(U8, 0))), Ty::Bool));
    v.push(holder(f, vec![], xs(), bin(Bop::Or, bin(Bop::Eq, nm("y"), c(U8, 0)), bin(Bop::Gt, bin(Bop::Div, nm("x"), nm("y")), c(U8, 0))), Ty::Bool));
    v.push(holder(f, vec![], xs(), tern(bin(Bop::Eq, nm("y"), c(U8, 0)), c(U8, 9), bin(Bop::Div, nm("x"), nm("y"))), ti(U8)));
    v.push(holder(f, vec![], xs(), bin(Bop::Add, tern(bin(Bop::Lt, nm("x"), nm("y")), c(U8, 1), c(U8, 2)), c(U8, 10)), ti(U8)));
    v.push(holder(f, vec![], xs(), bin(Bop::Add, c(U8, 10), tern(bin(Bop::Lt, nm("x"), nm("y")), c(U8, 1), c(U8, 2))), ti(U8)));
    // comparison chains mixing arithmetic and logic
    v.push(holder(f, vec![], xs(), bin(Bop::Eq, bin(Bop::Lt, nm("x"), nm("y")), bin(Bop::Gt, nm("x"), c(U8, 1))), Ty::Bool));
    v.push(holder(f, vec![], xs(), bin(Bop::Lt, cast(nm("x"), U16), cast(nm("y"), U16)), Ty::Bool));
    v.push(holder(f, vec![], xs(), bin(Bop::Lt, bin(Bop::Shl, cast(nm("x"), U32), lit(2, U32)), lit(20, U32)), Ty::Bool));
    v.push(holder(f, vec![], xs(), bin(Bop::Add, cast(nm("x"), U16), bin(Bop::Mul, cast(nm("y"), U16), lit(256, U16))), ti(U16)));
    v.push(holder(f, vec![], vec![fld("x", ti(I8)).ints(&[0xfd, 3, 0, 0x80]).i()], un(Uop::Neg, cast(nm("x"), I16)), ti(I16)));
    v.push(holder(f, vec![], vec![fld("x", ti(U8)).ints(&[3, 0, 0x80]).i()], un(Uop::BitNot, cast(nm("x"), U16)), ti(U16)));
    v.push(holder(f, vec![], vec![fld("x", ti(I8)).ints(&[0xfd, 3, 0]).i()], bin(Bop::Sub, un(Uop::Neg, nm("x")), un(Uop::Neg, c(I8, 4))), ti(I8)));
    // enum constants, bitfield members, indexes
    v.push(spec(f, vec![e8(), decl("T", cont(vec![it("k", rf("Kind")), fld("a", ti(U8)).when(bin(Bop::Eq, nm("k"), Ex::Variant("Kind".into(), "B".into()))).i(), fld("b", ti(U8)).when(bin(Bop::Ne, nm("k"), Ex::Variant("Kind".into(), "C".into()))).i(), fld("r", ti(U8)).is(cast(nm("k"), U8)).i()]))]));
    v.push(spec(f, vec![b8(), decl("T", cont(vec![it("k", rf("Flags")), fld("a", ti(U8)).when(Ex::Member(Box::new(nm("k")), "two".into())).i(), fld("b", ti(U8)).when(bin(Bop::Or, Ex::Member(Box::new(nm("k")), "one".into()), un(Uop::Not, Ex::Member(Box::new(nm("k")), "four".into())))).i(), fld("r", ti(U16)).is(cast(nm("k"), U8)).i()]))]));
    v.push(spec(f, vec![b8(), decl("T", cont(vec![it("k", rf("Flags")), fld("a", ti(U8)).when(bin(Bop::Eq, nm("k"), Ex::Variant("Flags".into(), "two".into()))).i(), it("z", ti(U8))]))]));
    v.push(one(f, cont(vec![it("d", arr(ti(U8), n(3))), fld("a", ti(U8)).when(eq(Ex::Index(Box::new(nm("d")), Box::new(u(1))), c(U8, 1))).i(), fld("r", ti(U8)).is(Ex::Index(Box::new(nm("d")), Box::new(u(2)))).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("m", ti(U8)), it("d", arr(ti(U16), nm("m"))), fld("r", ti(U16)).is(Ex::Index(Box::new(nm("d")), Box::new(u(0)))).i(), it("z", ti(U8))])));
    // indexes of every width, in and out of range, also where the low bits alone would be in range
    let at = |x: Ex| Ex::Index(Box::new(nm("d")), Box::new(x));
    for s in [U8, U16, U32, U64] {
        let mut dom: Vec<u128> = vec![1, 0, 2, 3, 0x80, 0xff, 0x100, 0x101, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0002, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001, 0xffff_ffff_ffff_ffff];
        dom.retain(|x| *x <= s.mask());
        let x = || fld("x", ti(s)).ints(&dom).i();
        for e in [U8, U16] {
            v.push(one(f, cont(vec![x(), it("d", arr(ti(e), n(3))), fld("r", ti(e)).is(at(nm("x"))).i(), it("z", ti(U8))])));
            v.push(one(f, cont(vec![x(), it("d", arr(ti(e), n(3))), fld("a", ti(U16)).when(eq(at(nm("x")), c(e, 1))).i(), it("z", ti(U8))])));
        }
        v.push(one(f, cont(vec![x(), fld("d", rfa("utf8", vec![u(3)])).i(), it("z", ti(U8)), fld("e", arr(ti(U8), n(2))).i(), fld("r", ti(U8)).is(Ex::Index(Box::new(nm("e")), Box::new(nm("x")))).i()])));
    }
    for s in [I8, I64, U128] { v.push(one(f, cont(vec![fld("x", ti(s)).ints(&dom(s)).i(), it("d", arr(ti(U8), n(3))), fld("r", ti(U8)).is(at(cast(nm("x"), U64))).i(), it("z", ti(U8))]))); }
    // functions
    v.push(one(f, cont(vec![it("m", ti(U8)), it("d", arr(ti(U8), nm("m"))), fld("r", ti(U64)).is(call("sum", vec![nm("d")])).i()])));
    v.push(one(f, cont(vec![it("m", ti(U8)), it("d", arr(ti(U16), nm("m"))), fld("r", ti(U64)).is(call("len", vec![nm("d")])).i()])));
    v.push(one(f, cont(vec![fld("x", ti(U8)).ints(&[3, 0, 255, 128]).i(), fld("r", ti(U8)).is(call("bits", vec![nm("x")])).i()])));
    for p in [1u128, 4, 8] { v.push(one(f, cont(vec![fld("x", ti(U64)).ints(&[3, 0, 4, 5, 8]).i(), fld("r", ti(U64)).is(call("pad", vec![u(p), nm("x")])).i()]))); }
    v.push(one(f, cont(vec![fld("m", ti(U64)).ints(&[2, 0, 3, 4]).i(), it("d", arr(ti(U8), nm("m"))), Item::Pad(call("pad", vec![u(4), nm("m")])), it("z", ti(U8))])));
    // expressions as lengths, conditions and arguments (evaluated in the decoder too)
    for (i, e) in [bin(Bop::Add, nm("m"), c(U8, 1)), bin(Bop::Sub, nm("m"), c(U8, 1)), bin(Bop::Mul, nm("m"), c(U8, 2)), bin(Bop::Div, nm("m"), c(U8, 2)), bin(Bop::BitAnd, nm("m"), c(U8, 1)), bin(Bop::Shl, nm("m"), c(U8, 1)), tern(bin(Bop::Gt, nm("m"), c(U8, 1)), c(U8, 1), c(U8, 2)), bin(Bop::Mod, nm("m"), c(U8, 3))].into_iter().enumerate() {
        v.push(one(f, cont(vec![it("m", ti(U8)), it("d", arr(ti(U8), e.clone())), it("z", ti(U8))])));
        if t == Thorough || i % 2 == 0 { v.push(one(f, cont(vec![it("m", ti(U8)), fld("b", contl(e.clone(), vec![it("r", rest(ti(U8)))])).i(), it("z", ti(U8))]))); }
        if t == Thorough || i % 2 == 1 { v.push(one(f, cont(vec![fld("m", ti(U8)).ints(&[2, 0, 1, 3, 130]).i(), it("s", rfa("utf8", vec![e.clone()])), it("z", ti(U8))]))); }
    }
    // floats
    v.push(one(f, cont(vec![it("x", Ty::F32), it("y", Ty::F32), fld("a", Ty::Bool).is(bin(Bop::Lt, nm("x"), nm("y"))).i(), fld("b", Ty::Bool).is(bin(Bop::Eq, nm("x"), nm("y"))).i()])));
    v.push(one(f, cont(vec![it("x", Ty::F64), it("y", Ty::F64), fld("a", Ty::Bool).is(bin(Bop::Ge, nm("x"), nm("y"))).i()])));
    v
}

pub fn consts(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "consts";
    // literals of every type at their limits, as calculated values
    for s in ALL_SC {
        let mut items = vec![it("z", ti(U8))];
        for (i, x) in [0u128, 1, 0x7f, s.max_bits(), s.max_bits() - 1].iter().enumerate() {
            items.push(fld(&format!("p{}", i), ti(s)).is(lit(*x, s)).i());
            items.push(fld(&format!("s{}", i), ti(s)).is(lits(*x, s)).i());
            if s.signed() { items.push(fld(&format!("n{}", i), ti(s)).is(un(Uop::Neg, lit(*x, s))).i()); }
        }
        v.push(one(f, cont(items)));
        // constants: plain, of constants, used everywhere
        let k = if s.signed() { un(Uop::Neg, lit(5, s)) } else { lit(s.mask(), s) };
        v.push(spec(f, vec![decl("T", cont(vec![fld("a", ti(s)).is(nm("K")).i(), fld("b", ti(s)).is(nm("L")).i(), it("x", ti(s)), fld("y", ti(U8)).when(eq(nm("x"), nm("L"))).i(), it("z", ti(U8))]))]).consts(vec![("K", ti(s), k), ("L", ti(s), bin(Bop::BitXor, nm("K"), lit(1, s)))]));
    }
    // constant expressions in discriminants and masks: all operators
    let s = U16;
    let arith = [Bop::Add, Bop::Sub, Bop::Mul, Bop::Div, Bop::Mod, Bop::BitAnd, Bop::BitOr, Bop::BitXor, Bop::Shl, Bop::Shr];
    for (a, b) in [(13u128, 3u128), (200, 2), (255, 1)] {
        for ch in arith.chunks(if t == Thorough { 1 } else { 10 }) {
            let mut used = vec![];
            let mut items = vec![];
            for (i, o) in ch.iter().enumerate() {
                let e = bin(*o, lit(a, s), lit(b, s));
                if let Ok(crate::sem::EV::I(x, _)) = crate::sem::const_eval(&one(f, ti(U8)), &e) { if !used.contains(&x) { used.push(x); items.push((format!("V{}", i), EVal::Ex(e))); } }
            }
            v.push(one(f, Ty::Enum(s, false, items)));
        }
    }
    for s in [U8, I8, U32, I32, I64, U64] {
        let x = |a: u128| lit(a, s);
        let mut es = vec![bin(Bop::Add, x(1), bin(Bop::Mul, x(2), x(3))), bin(Bop::Mul, Ex::Paren(Box::new(bin(Bop::Add, x(1), x(2)))), x(4)), bin(Bop::Sub, bin(Bop::Sub, x(90), x(5)), x(2)), bin(Bop::Div, x(100), x(7)), bin(Bop::Shl, x(1), x(5)), tern(bin(Bop::Lt, lits(1, s), x(2)), x(20), x(21)), tern(bin(Bop::And, bin(Bop::Gt, lits(1, s), x(2)), Ex::Bool(true)), x(22), x(23)), bin(Bop::BitOr, bin(Bop::BitAnd, x(60), x(15)), x(64)), cast(lits(35, U16), s), bin(Bop::Mod, x(100), x(9)), bin(Bop::BitXor, x(99), x(3))];
        if s.signed() { es.push(un(Uop::Neg, x(100))); es.push(un(Uop::Neg, bin(Bop::Add, x(3), x(4)))); es.push(bin(Bop::ShrS, un(Uop::Neg, x(100)), x(2))); es.push(bin(Bop::Div, un(Uop::Neg, x(99)), x(2))); es.push(bin(Bop::Mod, un(Uop::Neg, x(43)), x(5))); es.push(cast(lits(200, U8), s)); es.retain(|e| s != I8 || !matches!(e, Ex::Cast(..))); } else { es.push(bin(Bop::Shr, x(200), x(2))); es.push(un(Uop::BitNot, un(Uop::BitNot, x(111)))); }
        let mut used = vec![];
        let mut items = vec![];
        for (i, e) in es.into_iter().enumerate() { if let Ok(crate::sem::EV::I(x, _)) = crate::sem::const_eval(&one(f, ti(U8)), &e) { if !used.contains(&x) { used.push(x); items.push((format!("V{}", i), EVal::Ex(e))); } } else { panic!("const") } }
        v.push(one(f, Ty::Enum(s, false, items)));
    }
    // constants in every position: lengths, conditions, arguments, pads, defaults, discriminants, masks, terminators
    v.push(spec(f, vec![decl("T", cont(vec![it("d", arr(ti(U8), nm("K"))), it("z", ti(U8))]))]).consts(vec![("K", ti(U8), c(U8, 2))]));
    v.push(spec(f, vec![decl("T", cont(vec![it("d", arr(ti(U8), bin(Bop::Add, nm("K"), c(U8, 1)))), Item::Pad(n(1)), fld("b", contl(nm("M"), vec![it("r", rest(ti(U8)))])).i(), it("z", ti(U8))]))]).consts(vec![("K", ti(U8), c(U8, 1)), ("M", ti(U32), lit(3, U32))]));
    v.push(spec(f, vec![decl("T", en(U8, false, &[])) ]).consts(vec![]).note("empty"));
    v.pop();
    v.push(spec(f, vec![decl("T", Ty::Enum(U8, false, vec![("A".into(), EVal::Ex(nm("K"))), ("B".into(), EVal::Next), ("C".into(), EVal::Ex(bin(Bop::Mul, nm("K"), c(U8, 2))))]))]).consts(vec![("K", ti(U8), c(U8, 7))]));
    v.push(spec(f, vec![decl("T", Ty::Bits(U16, false, vec![("a".into(), Some(nm("K"))), ("b".into(), None), ("c".into(), Some(bin(Bop::Shl, nm("K"), lit(4, U16))))]))]).consts(vec![("K", ti(U16), lit(8, U16))]));
    v.push(spec(f, vec![decl("P", cont(vec![it("d", arr(ti(U8), nm("k")))])).po("k", ti(U8), nm("K")), decl("T", cont(vec![it("x", rf("P")), it("y", rfa("P", vec![nm("L")])), it("z", ti(U8))]))]).consts(vec![("K", ti(U8), c(U8, 2)), ("L", ti(U8), c(U8, 1))]));
    v.push(spec(f, vec![decl("T", cont(vec![it("x", ti(U8)), fld("y", ti(U8)).when(bin(Bop::And, nm("ON"), bin(Bop::Ge, nm("x"), nm("K")))).i(), it("z", ti(U8))]))]).consts(vec![("ON", Ty::Bool, Ex::Bool(true)), ("K", ti(U8), c(U8, 2))]));
    v.push(spec(f, vec![e8(), decl("T", cont(vec![it("x", rf("Kind")), fld("y", ti(U8)).when(eq(nm("x"), nm("K"))).i(), it("z", ti(U8))]))]).consts(vec![("K", rf("Kind"), Ex::Variant("Kind".into(), "B".into()))]));
    v
}

pub fn xform(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "xform";
    let names = ["xor", "add", "frame", "hold"];
    // all lists of up to three transforms
    let mut lists: Vec<Vec<&str>> = vec![];
    for a in names { lists.push(vec![a]); for b in names { lists.push(vec![a, b]); for d in names { lists.push(vec![a, b, d]); } } }
    for (i, l) in lists.iter().enumerate() {
        if l.len() == 3 && t == Quick && i % 3 != 0 { continue; }
        let mut fd = fld("b", arr(ti(U8), n(2)));
        for x in l { fd = fd.via(x, vec![], None); }
        v.push(one(f, cont(vec![it("a", ti(U8)), fd.i(), it("z", ti(U16))])));
        // every member of the list conditional or not
        for m in 1..1u32 << l.len() {
            if t == Quick && l.len() > 1 && (m as usize + i) % 3 != 0 { continue; }
            if l.len() == 3 && t == Quick && i % 2 == 0 { continue; }
            let mut fd = fld("b", ti(U16));
            for (j, x) in l.iter().enumerate() { fd = fd.via(x, vec![], if m >> j & 1 == 1 { Some(if j % 2 == 0 { nm("p") } else { nm("q") }) } else { None }); }
            v.push(one(f, cont(vec![it("p", Ty::Bool), it("q", Ty::Bool), fd.i(), it("z", ti(U8))])));
        }
    }
    // on every kind of field
    let kinds: Vec<(Ty, Vec<Decl>, bool)> = vec![(ti(U8), vec![], false), (tl(U32), vec![], false), (Ty::Bool, vec![], false), (Ty::F64, vec![], false), (arr(ti(U16), nm("k")), vec![], false), (arr(rf("Inner"), nm("k")), vec![inner()], false), (rf("Kind"), vec![e8()], false), (rf("Bits"), vec![b16()], false), (rf("Inner"), vec![inner()], false), (rf("Var"), vec![varlen()], false), (rf("utf8"), vec![], false), (rfa("utf8", vec![nm("k")]), vec![], false), (rfa("utf16", vec![nm("k")]), vec![], false), (rf("v32"), vec![], false), (term(ti(U8), b"\xfe"), vec![], false), (rest(ti(U8)), vec![], true), (rest(rf("Inner")), vec![inner()], true), (cont(vec![it("x", ti(U8)), it("y", arr(ti(U8), nm("x")))]), vec![], false), (contl(nm("k"), vec![it("y", rest(ti(U8)))]), vec![], false)];
    for (k, ds, open) in &kinds {
        for l in [vec!["xor"], vec!["add", "xor"], vec!["frame"], vec!["xor", "frame"], vec!["hold"]] {
            // an open array below a frame ends with the frame
            let framed = l.contains(&"frame");
            for cnd in [false, true] {
                if t == Quick && cnd && l.len() == 2 { continue; }
                let mut fd = fld("b", k.clone());
                for (j, x) in l.iter().enumerate() { fd = fd.via(x, vec![], if cnd && j == 0 { Some(nm("p")) } else { None }); }
                let mut items = vec![it("p", Ty::Bool), it("k", ti(U8)), fd.i()];
                let always_framed = framed && !(cnd && l[0] == "frame");
                if !*open || always_framed { items.push(it("z", ti(U8))); }
                let mut d = ds.clone();
                d.push(decl("T", cont(items)));
                let s = spec(f, d);
                v.push(if *open && !always_framed { s.open() } else { s });
            }
        }
    }
    // arguments: constants, fields, expressions
    for e in [c(U8, 3), nm("k"), bin(Bop::BitXor, nm("k"), c(U8, 0x10)), tern(nm("p"), c(U8, 1), c(U8, 2))] {
        for x in ["xor", "add"] {
            v.push(one(f, cont(vec![it("p", Ty::Bool), it("k", ti(U8)), fld("b", arr(ti(U8), n(2))).via(x, vec![e.clone()], None).i(), it("z", ti(U8))])));
            v.push(one(f, cont(vec![it("p", Ty::Bool), it("k", ti(U8)), fld("b", arr(ti(U8), n(2))).via(x, vec![e.clone()], Some(nm("p"))).via("add", vec![], None).i(), it("z", ti(U8))])));
        }
    }
    // two transformed fields, nested transformed containers, conditional transformed fields
    v.push(one(f, cont(vec![fld("a", ti(U16)).via("xor", vec![], None).i(), fld("b", ti(U16)).via("add", vec![], None).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![fld("s", cont(vec![it("x", ti(U8)), fld("y", ti(U8)).via("add", vec![], None).i()])).via("xor", vec![], None).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![fld("s", cont(vec![it("x", ti(U8)), fld("y", cont(vec![it("w", arr(ti(U8), n(2)))])).via("frame", vec![], None).i()])).via("frame", vec![], None).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), it("q", Ty::Bool), fld("b", ti(U16)).when(nm("p")).via("xor", vec![], None).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), it("q", Ty::Bool), fld("b", arr(ti(U8), n(2))).when(nm("p")).via("frame", vec![], Some(nm("q"))).via("add", vec![], None).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("s", cont(vec![it("x", ti(U8)), it("y", ti(U8))])).when(nm("p")).via("xor", vec![], None).i(), it("z", ti(U8))])));
    // top-level transforms
    v.push(spec(f, vec![declf("A", fld("", arr(ti(U8), n(2))).via("add", vec![], None).via("xor", vec![], None)), decl("T", cont(vec![it("a", rf("A")), it("z", ti(U8))]))]));
    v.push(spec(f, vec![declf("A", fld("", cont(vec![it("x", ti(U8)), it("y", ti(U16))])).via("xor", vec![], None).via("add", vec![], None)), decl("T", cont(vec![it("a", rf("A")), it("z", ti(U8))]))]));
    v.push(spec(f, vec![declf("T", fld("", cont(vec![it("x", ti(U8)), it("y", ti(U16))])).via("frame", vec![], None))]));
    v.push(spec(f, vec![declf("M", fld("", tagged(vec![fld("A", ti(U16)).when(eq(nm("t"), c(U8, 1))).i(), fld("B", cont(vec![it("x", ti(U8)), it("y", ti(U8))])).via("add", vec![], None).when(eq(nm("t"), c(U8, 2))).i(), fld("C", arr(ti(U8), n(2))).via("frame", vec![], None).i()])).via("xor", vec![], None)).p("t", ti(U8)), decl("T", cont(vec![it("t", ti(U8)), it("m", rfa("M", vec![nm("t")])), it("z", ti(U8))]))]));
    // inside a container of given length
    v.push(one(f, cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![fld("x", ti(U16)).via("xor", vec![], None).i(), fld("r", rest(ti(U8))).via("add", vec![], None).i()])).i(), it("z", ti(U8))])));
    v
}

pub fn lens(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "lens";
    let elems: Vec<(Ty, Vec<Decl>)> = vec![(ti(U8), vec![]), (ti(U16), vec![]), (tl(I32), vec![]), (Ty::Bool, vec![]), (rf("Kind"), vec![e8()]), (rf("Inner"), vec![inner()]), (rf("v32"), vec![]), (arr(ti(U8), n(2)), vec![])];
    // array kind x element x enclosing container
    for (i, (e, ds)) in elems.iter().enumerate() {
        for k in 0..4 {
            let a = match k { 0 => arr(e.clone(), n(2)), 1 => arr(e.clone(), nm("m")), 2 => rest(e.clone()), _ => term(e.clone(), b"\xfe") };
            let mk = |items: Vec<Item>| { let mut d = ds.clone(); d.push(decl("T", cont(items))); spec(f, d) };
            // inside a container with its length in a field
            v.push(mk(vec![it("l", ti(U8)), it("m", ti(U8)), fld("b", contl(nm("l"), vec![it("d", a.clone())])).i(), it("z", ti(U8))]));
            if t == Thorough || (i + k) % 2 == 0 { v.push(mk(vec![it("l", ti(U8)), it("m", ti(U8)), fld("b", contl(nm("l"), vec![it("x", ti(U8)), it("d", a.clone())])).i(), it("z", ti(U8))])); }
            if k != 2 && (t == Thorough || i % 2 == 0) { v.push(mk(vec![it("m", ti(U8)), it("d", a.clone()), it("z", ti(U8))])); }
            if k == 3 { v.push(mk(vec![it("d", term(e.clone(), b"\xfe\xff")), it("z", ti(U8))]).alpha(&[b"\x00", b"\x01", b"\xfe", b"\xff"])); v.push(mk(vec![it("d", term(e.clone(), b"aab")), it("z", ti(U8))]).alpha(&[b"\x00", b"a", b"b"])); }
        }
    }
    // arrays of arrays of every pair of kinds
    for a in 0..4 { for b in 0..4 {
        let mk = |t: Ty, k: usize, tm: &[u8]| match k { 0 => arr(t, n(2)), 1 => arr(t, nm("m")), 2 => rest(t), _ => term(t, tm) };
        if b == 2 { continue; } // an open array inside an array swallows everything
        let s = one(f, cont(vec![it("m", ti(U8)), it("d", mk(mk(ti(U8), b, b"\xfe"), a, b"\xff"))]));
        v.push(if a == 2 { s.open() } else { s });
    } }
    // container lengths: nested, zero, followed by fields, constant
    for l in [0u128, 1, 3] { v.push(one(f, cont(vec![it("h", ti(U8)), fld("b", contl(n(l), vec![it("r", rest(ti(U8)))])).i(), it("z", ti(U8))]))); }
    v.push(one(f, cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![it("k", ti(U8)), fld("c", contl(nm("k"), vec![it("r", rest(ti(U8)))])).i(), it("s", rest(ti(U8)))])).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![it("x", ti(U16))])).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("n", ti(U8)), it("k", ti(U8)), fld("b", contl(nm("n"), vec![it("x", ti(U8))])).i(), fld("c", contl(nm("k"), vec![it("r", rest(ti(U16)))])).i(), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("n", ti(U8)), it("p", Ty::Bool), fld("b", contl(nm("n"), vec![it("x", ti(U8)), it("r", rest(ti(U8)))])).when(nm("p")).i(), it("z", ti(U8))])));
    for s in [U16, U32, U64, I8, I16, I32] { v.push(one(f, cont(vec![it("n", ti(s)), it("d", arr(ti(U8), cast(nm("n"), U64))), it("z", ti(U8))]))); }
    for s in [U8, U16, U32, U64] { for e in [ti(U16), rf("Inner")] { v.push(spec(f, vec![inner(), decl("T", cont(vec![it("n", ti(s)), it("d", arr(e.clone(), nm("n"))), it("z", ti(U8))]))])); } }
    for s in [U16, U64, I8, I64] { v.push(one(f, cont(vec![it("n", ti(s)), fld("b", contl(cast(nm("n"), U64), vec![it("r", rest(ti(U8)))])).i(), it("z", ti(U8))]))); }
    // top-level containers with a length from an argument, and through references
    v.push(spec(f, vec![decl("B", contl(nm("k"), vec![it("x", ti(U8)), it("r", rest(ti(U8)))])).p("k", ti(U8)), decl("T", cont(vec![it("n", ti(U8)), it("b", rfa("B", vec![nm("n")])), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("T", contl(nm("k"), vec![it("x", ti(U8)), it("r", rest(ti(U16)))])).p("k", ti(U8))]).args(vec![vec![Val::I(0)], vec![Val::I(1)], vec![Val::I(3)], vec![Val::I(4)]]));
    // fields that scan ahead inside limited containers
    v.push(one(f, cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![it("s", rf("utf8")), it("r", rest(ti(U8)))])).i(), it("z", ti(U8))])).alpha(&[b"\x00", b"\x01", b"\x02", b"\x03", b"a"]));
    v.push(one(f, cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![it("s", term(ti(U8), b"ab")), it("r", rest(ti(U8)))])).i(), it("z", ti(U8))])).alpha(&[b"\x00", b"\x01", b"\x02", b"\x03", b"a", b"b"]));
    v.push(spec(f, vec![inner(), decl("T", cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![it("s", term(rf("Inner"), b"ab")), it("r", rest(ti(U8)))])).i(), it("z", ti(U8))]))]).alpha(&[b"\x00", b"\x03", b"\x05", b"a", b"b"]));
    // pads
    v.push(one(f, cont(vec![fld("n", ti(U64)).ints(&[2, 0, 1]).i(), Item::Pad(nm("n")), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![it("x", ti(U8)), Item::Pad(n(2)), it("y", ti(U8))])).i(), it("z", ti(U8))])));
    // elements without bytes
    v.push(spec(f, vec![decl("Nil", cont(vec![])), decl("T", cont(vec![it("n", ti(U8)), it("d", arr(rf("Nil"), nm("n"))), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("Nil", cont(vec![])), decl("T", cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![it("d", rest(rf("Nil")))])).i(), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("Opt", cont(vec![fld("x", ti(U8)).when(nm("on")).i()])).p("on", Ty::Bool), decl("T", cont(vec![it("on", Ty::Bool), it("d", term(rfa("Opt", vec![nm("on")]), b"\xfe"))]))]));
    v
}

pub fn foreign(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "foreign";
    let chain: Vec<Vec<u8>> = vec![vec![0], vec![1], vec![0x7f], vec![0x80], vec![0xff], vec![3], vec![0x40]];
    for (x, s) in [("v8", I8), ("v16", I16), ("v32", I32), ("v64", I64), ("v128", I128)] {
        v.push(one(f, rf(x)));
        v.push(one(f, cont(vec![it("a", rf(x)), it("b", rf(x)), it("z", ti(U8))])));
        v.push(one(f, cont(vec![it("n", ti(U8)), it("d", arr(rf(x), nm("n"))), it("z", ti(U8))])));
        v.push(one(f, cont(vec![it("d", rest(rf(x)))])).open());
        v.push(one(f, cont(vec![it("p", Ty::Bool), fld("a", rf(x)).when(nm("p")).i(), it("z", ti(U8))])));
        v.push(one(f, cont(vec![it("n", rf(x)), fld("y", ti(U8)).when(bin(Bop::Gt, nm("n"), lits(1, s))).i(), fld("r", ti(s)).is(nm("n")).i(), it("z", ti(U8))])));
        // runs of continuation bytes up to and beyond the width limit
        if s.bits() <= 16 { v.push(one(f, rf(x)).complete(if t == Thorough { 3 } else { 2 })); }
        let g = (s.bits() as usize + 6) / 7;
        let mut al = chain.clone();
        for k in [g - 2.min(g), g - 1, g] { for b in [0x80u8, 0xff] { if k > 0 { al.push(vec![b; k]); } } }
        let mut sp = one(f, cont(vec![it("a", rf(x)), fld("z", ti(U8)).i()]));
        sp.alphabet = Some(al);
        v.push(sp);
    }
    let text: &[&[u8]] = &[b"\x00", b"a", b"\xc3", b"\xa9", b"\xe6\x97\xa5", b"\xf0\x9d\x8c\x86", b"\xff", b"\xed\xa0\x80"];
    v.push(one(f, rf("utf8")).alpha(text));
    v.push(one(f, cont(vec![it("a", rf("utf8")), it("b", rf("utf8")), it("z", ti(U8))])).alpha(text));
    v.push(one(f, cont(vec![it("n", ti(U8)), it("d", arr(rf("utf8"), nm("n"))), it("z", ti(U8))])).alpha(&[b"\x00", b"\x01", b"\x02", b"a", b"\xc3"]));
    v.push(one(f, cont(vec![it("d", rest(rf("utf8")))])).open().alpha(&[b"\x00", b"a", b"\xc3", b"\xa9"]));
    v.push(one(f, cont(vec![it("p", Ty::Bool), fld("a", rf("utf8")).when(nm("p")).i(), it("z", ti(U8))])));
    for s in [U8, U16, U32, U64] {
        v.push(one(f, cont(vec![it("n", ti(s)), it("s", rfa("utf8", vec![nm("n")])), it("z", ti(U8))])));
        v.push(one(f, cont(vec![it("n", ti(s)), it("s", rfa("utf16", vec![nm("n")])), it("z", ti(U8))])));
        if t == Thorough { v.push(one(f, cont(vec![fld("n", ti(s)).is(castu(call("len", vec![nm("s")]), s)).i(), it("s", rfa("utf8", vec![nm("n")])), it("z", ti(U8))]))); }
    }
    let texts = |l: &[&str]| l.iter().map(|x| Val::S(x.to_string())).collect::<Vec<_>>();
    for (k, al) in [(1u128, texts(&["a", "", "\u{7f}", "ab"])), (2, texts(&["ab", "\u{80}", "\u{7ff}", "a", "\u{800}", "a\0"])), (3, texts(&["\u{800}", "\u{ffff}", "a\u{80}", "\u{d7ff}", "\u{e000}", "abc"])), (4, texts(&["\u{10000}", "\u{10ffff}", "\u{80}\u{80}", "abcd"]))] {
        let mut s = one(f, cont(vec![fld("s", rfa("utf8", vec![u(k)])).dom(al).i(), it("z", ti(U8))]));
        s.alphabet = Some(text.iter().map(|x| x.to_vec()).chain([vec![0x80]]).collect());
        v.push(s);
    }
    for (k, al) in [(1u128, texts(&["a", "", "\u{ffff}", "\u{d7ff}", "\u{e000}", "ab", "\u{10000}"])), (2, texts(&["ab", "\u{10000}", "\u{10ffff}", "\u{1d306}", "a"])), (3, texts(&["a\u{10000}", "abc", "\u{10000}b"]))] {
        let mut s = one(f, cont(vec![fld("s", rfa("utf16", vec![u(k)])).dom(al).i(), it("z", ti(U8))]));
        s.alphabet = Some([&[0u8, 0x61][..], &[0xd8, 0], &[0xdc, 0], &[0xdb, 0xff], &[0xff], &[0]].iter().map(|x| x.to_vec()).collect());
        v.push(s);
    }
    // every character: alone, and at either end of a string
    let all: Vec<char> = (0..0x110000u32).filter(|c| t == Thorough || *c < 0x3000 || c % 0x400 < 2 || c % 0x400 == 0x3ff).filter_map(char::from_u32).collect();
    let mut every: Vec<String> = vec![];
    for c in &all { every.push(c.to_string()); }
    for c in all.iter().filter(|c| **c as u32 <= 0x3000 || t == Thorough) { every.push(format!("a{}", c)); every.push(format!("{}a", c)); every.push(format!("{}{}", c, c)); }
    for a in 0..0x80u8 { for b in 0..0x80u8 { every.push(format!("{}-{}", a as char, b as char)); } }
    let every = |p: &dyn Fn(&str) -> bool| -> Vec<Val> { every.iter().filter(|x| p(x)).map(|x| Val::S(x.clone())).collect() };
    v.push(one(f, cont(vec![fld("s", rf("utf8")).dom(every(&|x| !x.contains('\0'))).i(), fld("z", ti(U8)).ints(&[0x5a]).i()])).big(8_000_000));
    for k in 1..=4u128 {
        v.push(one(f, cont(vec![fld("s", rfa("utf8", vec![u(k)])).dom(every(&|x| x.len() == k as usize)).i(), fld("z", ti(U8)).ints(&[0x5a]).i()])).big(8_000_000));
        if k < 4 { v.push(one(f, cont(vec![fld("s", rfa("utf16", vec![u(k)])).dom(every(&|x| x.encode_utf16().count() == k as usize)).i(), fld("z", ti(U8)).ints(&[0x5a]).i()])).big(8_000_000)); }
    }
    v.push(one(f, cont(vec![it("n", ti(U8)), it("d", arr(rfa("utf8", vec![u(2)]), nm("n"))), it("z", ti(U8))])));
    v.push(one(f, cont(vec![it("n", ti(U8)), fld("b", contl(nm("n"), vec![it("a", rf("utf8")), it("v", rf("v32"))])).i(), it("z", ti(U8))])));
    v.push(spec(f, vec![decl("Name", rf("utf8")), decl("T", cont(vec![it("a", rf("Name")), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("Num", rf("v32")), decl("T", cont(vec![it("a", rf("Num")), it("z", ti(U8))]))]));
    v
}

pub fn args(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "args";
    let b = |k: &str| it("d", arr(ti(U8), nm(k)));
    let i = |x: u128| Val::I(x);
    // required and optional parameters called with each number of arguments
    let p1 = || decl("P", cont(vec![b("k")])).p("k", ti(U8));
    let p2 = || decl("P", cont(vec![b("k"), fld("e", ti(U8)).when(eq(nm("j"), c(U8, 1))).i()])).p("k", ti(U8)).p("j", ti(U8));
    let po = || decl("P", cont(vec![b("k")])).po("k", ti(U8), c(U8, 2));
    let p1o = || decl("P", cont(vec![b("k"), fld("e", ti(U8)).when(eq(nm("j"), c(U8, 1))).i()])).p("k", ti(U8)).po("j", ti(U8), c(U8, 1));
    let p2o = || decl("P", cont(vec![b("k"), fld("e", ti(U8)).when(eq(nm("j"), c(U8, 1))).i()])).po("k", ti(U8), c(U8, 2)).po("j", ti(U8), c(U8, 0));
    let p1o2 = || decl("P", cont(vec![b("k"), fld("e", ti(U8)).when(eq(nm("j"), c(U8, 1))).i(), fld("g", ti(U16)).when(nm("on")).i()])).p("k", ti(U8)).po("j", ti(U8), c(U8, 1)).po("on", Ty::Bool, Ex::Bool(true));
    let top = |a: Vec<Ex>| decl("T", cont(vec![it("m", ti(U8)), it("q", ti(U8)), it("s", Ty::Bool), it("x", rfa("P", a)), it("z", ti(U8))]));
    for a in [vec![nm("m")], vec![c(U8, 1)], vec![bin(Bop::BitAnd, nm("m"), c(U8, 1))]] { v.push(spec(f, vec![p1(), top(a.clone())])); v.push(spec(f, vec![po(), top(a.clone())])); v.push(spec(f, vec![p1o(), top(a.clone())])); v.push(spec(f, vec![p2o(), top(a.clone())])); v.push(spec(f, vec![p1o2(), top(a)])); }
    v.push(spec(f, vec![po(), top(vec![])]));
    v.push(spec(f, vec![p2o(), top(vec![])]));
    for a in [vec![nm("m"), nm("q")], vec![nm("q"), nm("m")], vec![c(U8, 1), nm("q")], vec![nm("m"), c(U8, 0)]] { v.push(spec(f, vec![p2(), top(a.clone())])); v.push(spec(f, vec![p1o(), top(a.clone())])); v.push(spec(f, vec![p2o(), top(a.clone())])); v.push(spec(f, vec![p1o2(), top(a)])); }
    v.push(spec(f, vec![p1o2(), top(vec![nm("m"), nm("q"), nm("s")])]));
    // calls from outside with and without the optional ones
    v.push(spec(f, vec![declr(p1())]).args(vec![vec![i(0)], vec![i(1)], vec![i(2)]]));
    v.push(spec(f, vec![declr(po())]).args(vec![vec![i(0)], vec![i(2)], vec![Val::Nil], vec![i(1)]]));
    v.push(spec(f, vec![declr(p1o())]).args(vec![vec![i(1), Val::Nil], vec![i(1), i(1)], vec![i(1), i(0)], vec![i(2), Val::Nil]]));
    v.push(spec(f, vec![declr(p2o())]).args(vec![vec![Val::Nil, Val::Nil], vec![i(1), Val::Nil], vec![Val::Nil, i(1)], vec![i(0), i(1)]]));
    v.push(spec(f, vec![declr(p1o2())]).args(vec![vec![i(1), Val::Nil, Val::Nil], vec![i(1), i(0), Val::B(false)], vec![i(0), Val::Nil, Val::B(false)], vec![i(0), i(0), Val::Nil]]));
    // types of parameters
    for s in ALL_SC { v.push(spec(f, vec![decl("P", cont(vec![fld("x", ti(U8)).when(eq(nm("k"), lit(1, s))).i(), fld("y", ti(s)).is(nm("k")).i()])).p("k", ti(s)), decl("T", cont(vec![it("m", ti(s)), it("x", rfa("P", vec![nm("m")])), it("z", ti(U8))]))])); }
    v.push(spec(f, vec![e8(), decl("P", cont(vec![fld("x", ti(U8)).when(eq(nm("k"), Ex::Variant("Kind".into(), "B".into()))).i(), it("y", ti(U8))])).p("k", rf("Kind")), decl("T", cont(vec![it("m", rf("Kind")), it("x", rfa("P", vec![nm("m")])), it("z", ti(U8))]))]));
    v.push(spec(f, vec![e8(), decl("P", cont(vec![fld("x", ti(U8)).when(eq(nm("k"), Ex::Variant("Kind".into(), "B".into()))).i(), it("y", ti(U8))])).po("k", rf("Kind"), Ex::Variant("Kind".into(), "B".into())), decl("T", cont(vec![it("m", rf("Kind")), it("x", rfa("P", vec![nm("m")])), it("w", rf("P")), it("z", ti(U8))]))]));
    // widening of arguments and lengths of another type
    v.push(spec(f, vec![decl("P", cont(vec![b("k")])).p("k", ti(U32)), decl("T", cont(vec![it("m", ti(U8)), it("x", rfa("P", vec![cast(nm("m"), U32)])), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("P", cont(vec![b("k")])).p("k", ti(U32)), decl("T", cont(vec![it("m", ti(U8)), it("x", rfa("P", vec![nm("m")])), it("z", ti(U8))]))]));
    // through levels of references
    let mid = |e: Ex| decl("Q", cont(vec![it("l", rfa("P", vec![e]))])).p("n", ti(U8));
    for e in [nm("n"), bin(Bop::BitXor, nm("n"), c(U8, 1)), c(U8, 1)] {
        v.push(spec(f, vec![p1(), mid(e.clone()), decl("T", cont(vec![it("m", ti(U8)), it("x", rfa("Q", vec![nm("m")])), it("z", ti(U8))]))]));
        v.push(spec(f, vec![p1(), decl("Q", rfa("P", vec![e.clone()])).p("n", ti(U8)), decl("T", cont(vec![it("m", ti(U8)), it("x", rfa("Q", vec![nm("m")])), it("z", ti(U8))]))]));
    }
    v.push(spec(f, vec![po(), decl("Q", rf("P")), decl("V", rf("Q")), decl("T", cont(vec![it("x", rf("V")), it("z", ti(U8))]))]));
    // in arrays and nested containers
    v.push(spec(f, vec![p1(), decl("T", cont(vec![it("m", ti(U8)), it("x", arr(rfa("P", vec![nm("m")]), n(2))), it("z", ti(U8))]))]));
    v.push(spec(f, vec![p1o(), decl("T", cont(vec![it("m", ti(U8)), it("x", arr(rfa("P", vec![nm("m")]), nm("m"))), it("z", ti(U8))]))]));
    v.push(spec(f, vec![p1(), decl("T", cont(vec![it("m", ti(U8)), it("s", cont(vec![it("m2", ti(U8)), it("x", rfa("P", vec![nm("m")])), it("y", rfa("P", vec![nm("m2")]))])), it("z", ti(U8))]))]));
    v.push(spec(f, vec![p1(), decl("T", cont(vec![it("m", ti(U8)), it("p", Ty::Bool), fld("x", rfa("P", vec![nm("m")])).when(nm("p")).i(), it("z", ti(U8))]))]));
    // aliases of every kind
    for ty in [ti(U16), tl(U32), Ty::Bool, Ty::F32, arr(ti(U8), n(2)), arr(ti(U16), n(2))] {
        v.push(spec(f, vec![decl("A", ty.clone()), decl("T", cont(vec![it("a", rf("A")), it("b", arr(rf("A"), n(2))), it("z", ti(U8))]))]));
        if t == Thorough { v.push(spec(f, vec![decl("A", ty), decl("B", rf("A")), decl("C", arr(rf("B"), n(2))), decl("T", cont(vec![it("a", rf("C")), it("b", rf("B"))]))])); }
    }
    // parameters that shadow nothing but share names with fields elsewhere
    v.push(spec(f, vec![p1(), decl("T", cont(vec![it("k", ti(U8)), it("d", ti(U8)), it("x", rfa("P", vec![nm("d")])), it("y", rfa("P", vec![nm("k")]))]))]));
    // recursion with and without arguments
    let al: &[&[u8]] = &[b"\x00", b"\x01", b"\x02"];
    v.push(spec(f, vec![decl("T", cont(vec![it("n", ti(U8)), it("kids", arr(rf("T"), nm("n")))]))]).alpha(al));
    v.push(spec(f, vec![decl("N", cont(vec![it("n", ti(U8)), it("v", arr(ti(U8), nm("k"))), it("kids", arr(rfa("N", vec![nm("n")]), nm("n")))])).p("k", ti(U8)), decl("T", cont(vec![it("m", ti(U8)), it("x", rfa("N", vec![nm("m")])), it("z", ti(U8))]))]).alpha(al));
    v.push(spec(f, vec![decl("B", cont(vec![it("m", ti(U8)), it("xs", arr(rf("A"), nm("m")))])), decl("A", cont(vec![it("n", ti(U8)), it("bs", arr(rf("B"), nm("n")))])), decl("T", cont(vec![it("a", rf("A")), it("z", ti(U8))]))]).alpha(al));
    // foreign types with arguments and defaults
    v.push(spec(f, vec![decl("S", rfa("utf8", vec![nm("k")])).p("k", ti(U64)), decl("T", cont(vec![it("m", ti(U8)), it("s", rfa("S", vec![nm("m")])), it("z", ti(U8))]))]));
    v
}
fn declr(mut d: Decl) -> Decl { d.name = "T".into(); d }

pub fn tagged_enums(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let f = "tagged";
    let k = |x: u128| eq(nm("t"), c(U8, x));
    let pay: Vec<(Ty, Vec<Decl>)> = vec![(ti(U8), vec![]), (ti(U16), vec![]), (cont(vec![it("x", ti(U8))]), vec![]), (cont(vec![it("x", ti(U8)), it("y", ti(U16))]), vec![]), (arr(ti(U8), n(2)), vec![]), (rf("Inner"), vec![inner()]), (rf("utf8"), vec![]), (rf("Kind"), vec![e8()]), (Ty::Bool, vec![]), (rf("v16"), vec![]), (cont(vec![]), vec![]), (cont(vec![it("m", ti(U8)), it("d", arr(ti(U8), nm("m")))]), vec![]), (cont(vec![it("m", ti(U8)), fld("o", ti(U8)).when(eq(nm("m"), c(U8, 1))).i()]), vec![]), (cont(vec![it("x", ti(U8)), it("s", cont(vec![it("y", ti(U8)), Item::Pad(n(1))]))]), vec![]), (rf("Flags"), vec![b8()]), (arr(rf("Inner"), n(1)), vec![inner()])];
    let wrap = |ds: Vec<Decl>, items: Vec<Item>| { let mut d = ds; d.push(decl("M", tagged(items)).p("t", ti(U8))); d.push(decl("T", cont(vec![fld("t", ti(U8)).ints(&[1, 2, 3, 0]).i(), it("m", rfa("M", vec![nm("t")])), it("z", ti(U8))]))); let mut seen = vec![]; d.retain(|x| { let n = x.name.clone(); if seen.contains(&n) { false } else { seen.push(n); true } }); spec(f, d) };
    // each kind of payload, alone and followed by others
    for (i, (p, ds)) in pay.iter().enumerate() {
        if matches!(p, Ty::Cont(c) if c.items.is_empty()) { continue; }
        v.push(wrap(ds.clone(), vec![fld("A", p.clone()).when(k(1)).i(), fld("B", ti(U8)).when(k(2)).i()]));
        let (q, es) = &pay[(i + 1) % pay.len()];
        if matches!(q, Ty::Cont(c) if c.items.is_empty()) { continue; }
        let mut dd = ds.clone();
        dd.extend(es.clone());
        v.push(wrap(dd, vec![fld("A", ti(U8)).when(k(1)).i(), fld("B", p.clone()).when(k(2)).i(), fld("C", q.clone()).when(k(3)).i()]));
        if t == Thorough { v.push(wrap(ds.clone(), vec![fld("A", ti(U8)).when(k(1)).i(), fld("B", p.clone()).i()])); }
    }
    // overlapping, exhaustive, partial, unconditional conditions
    let ge = |x: u128| bin(Bop::Ge, nm("t"), c(U8, x));
    let sets: Vec<Vec<Option<Ex>>> = vec![vec![Some(k(1)), Some(ge(1)), None], vec![Some(ge(2)), Some(ge(1)), Some(ge(0))], vec![Some(ge(1)), Some(k(1)), Some(k(0))], vec![Some(k(2)), Some(k(1)), None], vec![Some(k(1)), Some(k(1)), Some(k(2))], vec![Some(k(3)), Some(k(2)), Some(k(1)), Some(k(0))], vec![Some(Ex::Bool(false)), Some(k(1)), None]];
    for cs in &sets {
        for st in 0..2 {
            let items = cs.iter().enumerate().map(|(i, cnd)| {
                let ty = if (i + st) % 2 == 0 { [ti(U8), ti(U16), ti(U32), ti(U8)][i].clone() } else { cont(vec![it("x", ti([U16, U8, U16, U8][i])), it("y", ti(U8))]) };
                let fd = fld(["A", "B", "C", "D"][i], ty);
                match cnd { Some(e) => fd.when(e.clone()).i(), None => fd.i() }
            }).collect();
            v.push(wrap(vec![], items));
        }
    }
    // called directly, every argument with every variant
    v.push(spec(f, vec![decl("T", tagged(vec![fld("A", ti(U8)).when(k(1)).i(), fld("B", cont(vec![it("x", ti(U8)), it("y", ti(U8))])).when(k(2)).i(), fld("C", rf("utf8")).when(ge(3)).i()])).p("t", ti(U8))]).args((0..5).map(|x| vec![Val::I(x)]).collect()));
    v.push(spec(f, vec![decl("T", tagged(vec![fld("A", ti(U8)).when(bin(Bop::And, k(1), nm("q"))).i(), fld("B", ti(U16)).when(bin(Bop::Or, k(2), nm("q"))).i()])).p("t", ti(U8)).p("q", Ty::Bool)]).args((0..3).flat_map(|x| [vec![Val::I(x), Val::B(false)], vec![Val::I(x), Val::B(true)]]).collect()));
    v.push(spec(f, vec![e8(), decl("T", tagged(vec![fld("A", ti(U8)).when(eq(nm("t"), Ex::Variant("Kind".into(), "A".into()))).i(), fld("B", ti(U16)).when(eq(nm("t"), Ex::Variant("Kind".into(), "B".into()))).i()])).p("t", rf("Kind"))]).args(vec![vec![Val::I(1)], vec![Val::I(2)], vec![Val::I(7)]]));
    // with a length, in arrays, with calculated fields in a struct variant, nested tagged enums
    let lenm = |items: Vec<Item>| Ty::Cont(Cont { len: Some(nm("l")), tagged: true, items });
    v.push(spec(f, vec![decl("M", lenm(vec![fld("A", ti(U16)).when(k(1)).i(), fld("B", cont(vec![it("x", ti(U8)), it("r", rest(ti(U8)))])).when(k(2)).i(), fld("C", rest(ti(U8))).i()])).p("t", ti(U8)).p("l", ti(U8)), decl("T", cont(vec![fld("t", ti(U8)).ints(&[1, 2, 0]).i(), fld("l", ti(U8)).ints(&[2, 0, 1, 3]).i(), it("m", rfa("M", vec![nm("t"), nm("l")])), it("z", ti(U8))]))]));
    v.push(wrap(vec![], vec![fld("A", cont(vec![fld("n", ti(U8)).is(castu(call("len", vec![nm("d")]), U8)).i(), it("d", arr(ti(U8), nm("n")))])).when(k(1)).i(), fld("B", ti(U8)).i()]));
    v.push(spec(f, vec![decl("M", tagged(vec![fld("A", ti(U8)).when(k(1)).i(), fld("B", ti(U16)).i()])).p("t", ti(U8)), decl("T", cont(vec![fld("t", ti(U8)).ints(&[1, 0]).i(), it("m", arr(rfa("M", vec![nm("t")]), n(2))), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("I", tagged(vec![fld("X", ti(U8)).when(k(1)).i(), fld("Y", ti(U16)).i()])).p("t", ti(U8)), decl("M", tagged(vec![fld("A", rfa("I", vec![nm("t")])).when(bin(Bop::Lt, nm("t"), c(U8, 2))).i(), fld("B", ti(U32)).when(k(2)).i()])).p("t", ti(U8)), decl("T", cont(vec![fld("t", ti(U8)).ints(&[1, 0, 2, 3]).i(), it("m", rfa("M", vec![nm("t")])), it("z", ti(U8))]))]));
    v.push(wrap(vec![], vec![fld("A", cont(vec![it("x", ti(U8)), fld("o", cont(vec![it("p", ti(U8)), it("q", ti(U8))])).when(eq(nm("x"), c(U8, 1))).i()])).when(k(1)).i(), fld("B", ti(U8)).when(k(2)).i()]));
    v
}

/// kinds of members: items that refer only to one another, with names of their own
const KINDS: usize = 30;
fn member(k: usize, p: &str) -> (Vec<Item>, Vec<Decl>) {
    let n = |x: &str| format!("{}{}", p, x);
    let f = |x: &str, t: Ty| it(&n(x), t);
    let q = |x: &str| nm(&n(x));
    let cnt = |e: Ex| cast(e, U8);
    match k {
        0 => (vec![f("a", tl(U16))], vec![]),
        1 => (vec![f("a", Ty::Bool)], vec![]),
        2 => (vec![f("n", ti(U8)), f("d", arr(ti(U8), q("n")))], vec![]),
        3 => (vec![fld(&n("n"), ti(U8)).is(cnt(call("len", vec![q("d")]))).i(), f("d", arr(tl(U16), q("n")))], vec![]),
        4 => (vec![fld(&n("n"), ti(U8)).is(cnt(call("blen", vec![q("b")]))).i(), fld(&n("b"), contl(q("n"), vec![f("x", ti(U8)), f("r", rest(ti(U8)))])).i()], vec![]),
        5 => (vec![f("p", Ty::Bool), fld(&n("c"), ti(U16)).when(q("p")).i()], vec![]),
        6 => (vec![f("p", Ty::Bool), fld(&n("s"), cont(vec![f("x", ti(U8)), f("q", Ty::Bool), fld(&n("y"), ti(U16)).when(q("q")).i()])).when(q("p")).i()], vec![]),
        7 => (vec![f("k", rf("Kind"))], vec![e8()]),
        8 => (vec![f("f", rf("Bits"))], vec![b16()]),
        9 => (vec![Item::Pad(u(2)), f("a", ti(U8)), Item::Pad(u(1))], vec![]),
        10 => (vec![f("s", rf("utf8"))], vec![]),
        11 => (vec![f("n", ti(U8)), f("s", rfa("utf8", vec![q("n")]))], vec![]),
        12 => (vec![f("v", rf("v32"))], vec![]),
        13 => (vec![f("i", arr(rf("Inner"), u(2)))], vec![inner()]),
        14 => (vec![f("d", term(ti(U8), b"\xfe"))], vec![]),
        15 => (vec![fld(&n("t"), ti(U8)).ints(&[1, 2, 0]).i(), f("m", rfa("M", vec![q("t")]))], vec![decl("M", tagged(vec![fld("A", ti(U16)).when(eq(nm("t"), c(U8, 1))).i(), fld("B", cont(vec![it("x", ti(U8)), it("y", Ty::Bool)])).when(eq(nm("t"), c(U8, 2))).i(), fld("C", arr(ti(U8), u(2))).i()])).p("t", ti(U8))]),
        16 => (vec![f("n", ti(U8)), f("u", rfa("P", vec![q("n")])), f("w", rf("P"))], vec![decl("P", cont(vec![it("d", arr(ti(U8), nm("k")))])).po("k", ti(U8), c(U8, 1))]),
        17 => (vec![fld(&n("d"), arr(ti(U8), u(3))).via("xor", vec![], None).i()], vec![]),
        18 => (vec![f("a", Ty::F64), f("b", Ty::F32)], vec![]),
        19 => (vec![fld(&n("k"), ti(U8)).is(bin(Bop::BitXor, q("a"), q("b"))).i(), f("a", ti(U8)), f("b", ti(U8))], vec![]),
        20 => (vec![f("p", Ty::Bool), f("g", ti(U8)), fld(&n("i"), rf("Inner")).via("add", vec![q("g")], Some(q("p"))).via("xor", vec![], None).i()], vec![inner()]),
        21 => (vec![f("n", ti(U8)), fld(&n("b"), contl(q("n"), vec![f("r", rest(ti(U16)))])).i()], vec![]),
        22 => (vec![f("n", ti(U8)), f("d", arr(rf("Var"), q("n")))], vec![varlen()]),
        23 => (vec![f("n", tl(U16)), f("s", rfa("utf16", vec![q("n")]))], vec![]),
        24 => (vec![f("o", ti(U8)), fld(&n("c"), rf("Kind")).when(bin(Bop::Gt, q("o"), c(U8, 1))).i(), fld(&n("e"), ti(U8)).when(bin(Bop::Le, q("o"), c(U8, 1))).i()], vec![e8()]),
        25 => (vec![f("a", ti(I64)), f("b", tl(U128))], vec![]),
        26 => (vec![fld(&n("d"), arr(ti(U8), u(2))).via("frame", vec![], None).i(), fld(&n("a"), ti(U8)).via("hold", vec![], None).i()], vec![]),
        27 => (vec![f("p", Ty::Bool), fld(&n("n"), ti(U8)).is(cnt(call("blen", vec![q("b")]))).i(), fld(&n("b"), contl(q("n"), vec![f("x", ti(U8)), f("r", rest(ti(U8)))])).when(q("p")).i()], vec![]),
        28 => (vec![f("i", rf("Opt"))], vec![decl("Opt", cont(vec![it("p", ti(U8)), fld("a", ti(U8)).when(eq(nm("p"), c(U8, 1))).i(), fld("b", ti(U16)).when(eq(bin(Bop::Elvis, nm("a"), c(U8, 1)), c(U8, 1))).i()]))]),
        29 => (vec![f("x", arr(arr(tl(U16), u(2)), u(2))), f("v", arr(rf("v16"), u(2)))], vec![]),
        _ => unreachable!(),
    }
}
/// the lengths that encodings of these members have, up to five of them
fn lengths(items: &[Item], ds: &[Decl]) -> Vec<u128> {
    let mut d = ds.to_vec();
    d.push(decl("T", cont(items.to_vec())));
    let s = spec("combo", d);
    let mut out: Vec<u128> = vec![];
    for v in crate::vals::Gen::new(&s, 60, false).root() { if let Ok((b, _)) = crate::sem::encode(&s, &[], &v) { let l = b.len() as u128; if !out.contains(&l) && l < 256 { out.push(l) } } }
    out.truncate(4);
    let bad = (0..).find(|x| !out.contains(x)).unwrap();
    out.push(bad);
    out
}
const CONTEXTS: usize = 17;
fn within(ctx: usize, items: Vec<Item>, ds: Vec<Decl>) -> Spec {
    let mut d: Vec<Decl> = vec![];
    for x in ds.iter() { if !d.iter().any(|y| y.name == x.name) { d.push(x.clone()) } }
    let ls = lengths(&items, &d);
    let z = || it("z", ti(U8));
    let r = |items: Vec<Item>| decl("Rec", cont(items));
    let mut open = false;
    let t = match ctx {
        0 => { let mut i = items; i.push(z()); cont(i) }
        1 => cont(vec![it("h", ti(U8)), it("s", cont(items)), z()]),
        2 => cont(vec![it("p0", Ty::Bool), fld("s", cont(items)).when(nm("p0")).i(), z()]),
        3 => cont(vec![fld("l0", ti(U8)).ints(&ls).i(), fld("s", contl(nm("l0"), items)).i(), z()]),
        4 => cont(vec![fld("l0", tl(U32)).is(cast(call("blen", vec![nm("s")]), U32)).i(), it("h", ti(U8)), fld("s", contl(nm("l0"), items)).i(), z()]),
        5 => { d.push(r(items)); cont(vec![it("a", rf("Rec")), z()]) }
        6 => { d.push(r(items)); cont(vec![it("a", arr(rf("Rec"), n(2))), z()]) }
        7 => { d.push(r(items)); open = true; cont(vec![it("h", ti(U8)), it("a", rest(rf("Rec")))]) }
        8 => { d.push(decl("Wrap", tagged(vec![fld("A", cont(items)).when(eq(nm("w"), c(U8, 1))).i(), fld("B", ti(U8)).i()])).p("w", ti(U8))); cont(vec![fld("w0", ti(U8)).ints(&[1, 0]).i(), it("m0", rfa("Wrap", vec![nm("w0")])), z()]) }
        9 => cont(vec![fld("s", cont(items)).via("xor", vec![], None).via("frame", vec![], None).i(), z()]),
        10 => { d.push(r(items)); cont(vec![it("p0", Ty::Bool), fld("a", rf("Rec")).when(nm("p0")).i(), z()]) }
        11 => { let mut i = items; i.push(fld("e", ti(U8)).when(eq(nm("k0"), c(U8, 1))).i()); d.push(r(i).p("k0", ti(U8))); cont(vec![it("g", ti(U8)), it("a", rfa("Rec", vec![nm("g")])), z()]) }
        12 => { d.push(r(items)); let mut l2: Vec<u128> = ls.iter().map(|x| 2 * x).collect(); l2.extend(&ls); l2.truncate(7); cont(vec![fld("l0", ti(U8)).ints(&l2).i(), fld("s", contl(nm("l0"), vec![it("rs", rest(rf("Rec")))])).i(), z()]) }
        13 => { let mut i = vec![]; for x in items { i.push(x); i.push(it(&format!("g{}", i.len()), ti(U8))); } cont(i) }
        14 => cont(vec![it("p0", Ty::Bool), fld("s", cont(vec![it("h", ti(U8)), fld("s2", cont(items)).when(bin(Bop::Gt, nm("h"), c(U8, 1))).i()])).when(un(Uop::Not, nm("p0"))).i(), z()]),
        15 => { let mut i = items; i.push(fld("kn", ti(U8)).is(cast(call("len", vec![nm("kids")]), U8)).i()); i.push(it("kids", arr(rf("T"), nm("kn")))); cont(i) }
        16 => { d.push(r(items)); cont(vec![it("n0", ti(U8)), fld("a", arr(rf("Rec"), nm("n0"))).via("xor", vec![nm("n0")], Some(bin(Bop::Lt, nm("n0"), c(U8, 2)))).i(), z()]) }
        _ => unreachable!(),
    };
    d.push(decl("T", t));
    let s = spec("combo", d);
    if open { s.open() } else { s }
}
/// every kind of member in every context, and every ordered pair of kinds
pub fn combo(t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    for ctx in 0..CONTEXTS { for k in 0..KINDS { let (i, d) = member(k, "ma"); v.push(within(ctx, i, d)); } }
    for k in 0..KINDS { for l in 0..KINDS { for ctx in 0..CONTEXTS {
        if t == Quick && ctx != 0 && (k * KINDS + l) * 7 % (CONTEXTS * 3) != ctx { continue; }
        let (mut i, mut d) = member(k, "ma");
        let (j, e) = member(l, "mb");
        i.extend(j);
        d.extend(e);
        v.push(within(ctx, i, d));
    } } }
    v
}

/// whether a specification uses a feature
pub fn has(s: &Spec, feat: &str) -> bool {
    fn ty(t: &Ty, f: &dyn Fn(&Ty, Option<&Field>) -> bool) -> bool {
        f(t, None) || match t {
            Ty::Arr(t, _) => ty(t, f),
            Ty::Cont(c) => c.items.iter().any(|i| match i { Item::F(x) => f(&x.ty, Some(x)) || ty(&x.ty, f), Item::Pad(_) => false }),
            _ => false,
        }
    }
    let any = |f: &dyn Fn(&Ty, Option<&Field>) -> bool| s.decls.iter().any(|d| f(&d.body.ty, Some(&d.body)) || ty(&d.body.ty, f));
    match feat {
        "" => true,
        "cond" => any(&|_, x| x.map_or(false, |x| x.cond.is_some())),
        "calc" => any(&|_, x| x.map_or(false, |x| x.calc.is_some())),
        "xform" => any(&|_, x| x.map_or(false, |x| !x.xf.is_empty())),
        "lens" => any(&|t, _| matches!(t, Ty::Arr(..)) || matches!(t, Ty::Cont(c) if c.len.is_some())),
        "tagged" => any(&|t, _| matches!(t, Ty::Cont(c) if c.tagged)),
        "args" => any(&|t, _| matches!(t, Ty::Ref(n, a) if !a.is_empty() || s.get(n).map_or(false, |d| !d.params.is_empty()))),
        "foreign" => any(&|t, _| matches!(t, Ty::Ref(n, _) if s.get(n).is_none())),
        "repr" => any(&|t, _| matches!(t, Ty::Enum(..) | Ty::Bits(..))),
        x => panic!("feature {}", x),
    }
}

/// What an expression refers to: items, declarations and constants that provide a value of type u8.
/// The flag tells whether it can be used where the decoder evaluates the expression.
fn hole(k: usize) -> Option<(Ex, Vec<Item>, Vec<Decl>, bool)> {
    let byte = |x: &str| fld(x, ti(U8)).ints(&[1, 2, 0, 3]).i();
    Some(match k {
        0 => (nm("n"), vec![byte("n")], vec![], true),
        1 => (nm("KC"), vec![], vec![], true),
        2 => (cast(Ex::Variant("Kind".into(), "B".into()), U8), vec![], vec![e8()], true),
        3 => (cast(nm("k"), U8), vec![it("k", rf("Kind"))], vec![e8()], true),
        4 => (tern(Ex::Member(Box::new(nm("fl")), "two".into()), lits(1, U8), lits(2, U8)), vec![it("fl", rf("Flags"))], vec![b8()], true),
        5 => (cast(call("len", vec![nm("w")]), U8), vec![byte("n"), it("w", arr(ti(U8), nm("n")))], vec![], true),
        6 => (bin(Bop::Elvis, nm("o"), lits(2, U8)), vec![it("q", Ty::Bool), fld("o", ti(U8)).ints(&[1, 3]).when(nm("q")).i()], vec![], true),
        7 => (nm("cc"), vec![byte("n"), fld("cc", ti(U8)).is(bin(Bop::BitXor, nm("n"), lits(1, U8))).i()], vec![], true),
        8 => (cast(nm("n"), U8), vec![fld("n", tl(I32)).ints(&[1, 2, 0, 0x102]).i()], vec![], true),
        9 => (cast(call("sum", vec![nm("w")]), U8), vec![fld("w", arr(ti(U8), n(2))).i()], vec![], true),
        10 => (cast(call("blen", vec![nm("b")]), U8), vec![byte("n"), fld("b", contl(nm("n"), vec![it("br", rest(ti(U8)))])).i()], vec![], false),
        11 => (cast(call("len", vec![nm("w")]), U8), vec![byte("n"), it("w", arr(tl(U16), nm("n")))], vec![], true),
        12 => (tern(bin(Bop::Gt, nm("v"), lits(1, I32)), lits(1, U8), lits(2, U8)), vec![fld("v", rf("v32")).ints(&[1, 2, 0, 200]).i()], vec![], true),
        13 => (call("bits", vec![nm("n")]), vec![byte("n")], vec![], true),
        _ => return None,
    })
}
const WRAPS: usize = 18;
/// an expression around another
fn wrap(k: usize, h: Ex) -> (Ex, Vec<Item>) {
    let p = || it("p", Ty::Bool);
    let c8 = |x: u128| lits(x, U8);
    let one = || c8(1);
    match k {
        0 => (h, vec![]),
        1 => (Ex::Paren(Box::new(h)), vec![]),
        2 => (bin(Bop::BitXor, h, one()), vec![]),
        3 => (bin(Bop::BitXor, one(), h), vec![]),
        4 => (bin(Bop::Sub, c8(5), bin(Bop::Mod, h, c8(4))), vec![]),
        5 => (un(Uop::BitNot, bin(Bop::BitOr, c8(0xfc), h)), vec![]),
        6 => (cast(bin(Bop::Add, cast(h, U32), lit(1, U32)), U8), vec![]),
        7 => (tern(nm("p"), h, c8(3)), vec![p()]),
        8 => (tern(nm("p"), one(), h), vec![p()]),
        9 => (tern(eq(h, one()), c8(2), one()), vec![]),
        10 => (tern(bin(Bop::Gt, c8(2), h.clone()), h, one()), vec![]),
        11 => (Ex::Index(Box::new(nm("a3")), Box::new(cast(bin(Bop::Mod, h, c8(3)), U64))), vec![fld("a3", arr(ti(U8), n(3))).dom([[2u128, 0, 1], [1, 1, 3]].iter().map(|x| Val::A(x.iter().map(|y| Val::I(*y)).collect())).collect()).i()]),
        12 => (cast(call("pad", vec![u(4), cast(h, U64)]), U8), vec![]),
        13 => (cast(call("pad", vec![cast(bin(Bop::BitOr, h, c8(4)), U64), u(9)]), U8), vec![]),
        14 => (tern(un(Uop::Not, bin(Bop::And, nm("p"), bin(Bop::Ge, h.clone(), one()))), one(), h), vec![p()]),
        15 => (tern(bin(Bop::Or, eq(h, c8(2)), nm("p")), one(), c8(2)), vec![p()]),
        16 => (bin(Bop::Elvis, nm("oo"), h), vec![p(), fld("oo", ti(U8)).ints(&[1, 2]).when(nm("p")).i()]),
        17 => (bin(Bop::Shr, bin(Bop::Shl, h.clone(), one()), tern(bin(Bop::Ne, h, c8(0)), one(), c8(2))), vec![]),
        _ => unreachable!(),
    }
}
/// every kind of reference, within every kind of expression, at one kind of place
pub fn exprs_at(f: &'static str, site: &str, t: Tier) -> Vec<Spec> {
    let mut v = vec![];
    let z = || fld("z", ti(U8)).ints(&[0x5a]).i();
    let places: usize = match site { "calc" => 4, "cond" => 4, "lens" => 4, "args" => 4, "xform" => 3, "tagged" => 3, _ => panic!("{}", site) };
    for k in 0.. {
        let Some((h, items, ds, decodable)) = hole(k) else { break };
        if !decodable && site != "calc" { continue; }
        for w in 0..WRAPS {
            for place in 0..places {
                if k == 10 && place == 2 { continue; } // only a field next to the container can have its length
                if t == Quick && w > 0 && k > 0 && (k + w) % places != place { continue; }
                let (e, more) = wrap(w, h.clone());
                let mut i: Vec<Item> = items.clone();
                i.extend(more);
                let mut d = ds.clone();
                let is1 = || eq(e.clone(), c(U8, 1));
                match (site, place) {
                    ("calc", 0) => i.push(fld("r", ti(U8)).is(e.clone()).i()),
                    ("calc", 1) => i.insert(0, fld("r", ti(U8)).is(e.clone()).i()),
                    ("calc", 2) => { i.insert(0, it("g", ti(U8))); i.push(it("in", cont(vec![it("y", ti(U8)), fld("r", ti(U16)).is(cast(e.clone(), U16)).i()]))) }
                    ("calc", 3) => i.insert(0, fld("r", Ty::Bool).is(is1()).i()),
                    ("cond", 0) => i.push(fld("x", ti(U16)).when(is1()).i()),
                    ("cond", 1) => i.push(fld("x", cont(vec![it("xa", ti(U8)), fld("xb", ti(U8)).when(bin(Bop::Gt, nm("xa"), c(U8, 1))).i()])).when(bin(Bop::Gt, e.clone(), c(U8, 1))).i()),
                    ("cond", 2) => { i.push(it("g", Ty::Bool)); i.push(fld("x", cont(vec![it("xa", ti(U8)), fld("xb", ti(U8)).when(is1()).i()])).when(nm("g")).i()) }
                    ("cond", 3) => { i.push(fld("x", ti(U8)).when(un(Uop::Not, is1())).i()); i.push(fld("y", arr(ti(U8), n(1))).when(bin(Bop::Le, e.clone(), c(U8, 1))).i()) }
                    ("lens", 0) => i.push(it("x", arr(ti(U16), e.clone()))),
                    ("lens", 1) => i.push(fld("x", contl(e.clone(), vec![it("xr", rest(ti(U8)))])).i()),
                    ("lens", 2) => i.push(Item::Pad(cast(e.clone(), U64))),
                    ("lens", 3) => { i.push(it("l", ti(U8))); i.push(fld("y", contl(nm("l"), vec![it("x", arr(rf("Inner"), e.clone()))])).i()); d.push(inner()) }
                    ("args", 0) => { d.push(decl("Sub", cont(vec![it("d", arr(ti(U8), nm("sk")))])).p("sk", ti(U8))); i.push(it("x", rfa("Sub", vec![e.clone()]))) }
                    ("args", 1) => { d.push(decl("Sub", cont(vec![fld("d", ti(U8)).when(eq(nm("sk"), c(U8, 1))).i(), it("e", ti(U8))])).po("sk", ti(U8), c(U8, 1))); i.push(it("x", arr(rfa("Sub", vec![e.clone()]), n(2)))) }
                    ("args", 2) => i.push(it("x", rfa("utf8", vec![cast(e.clone(), U64)]))),
                    ("args", 3) => { d.push(decl("Sub", cont(i)).p("p0", Ty::Bool)); let mut s = vec![]; s.push(it("q0", Ty::Bool)); s.push(it("sub", rfa("Sub", vec![nm("q0")]))); let Ty::Cont(c0) = &mut d.last_mut().unwrap().body.ty else { panic!() }; c0.items.push(fld("x", ti(U8)).when(bin(Bop::And, nm("p0"), eq(e.clone(), c(U8, 1)))).i()); i = s }
                    ("xform", 0) => i.push(fld("x", arr(ti(U8), n(2))).via("add", vec![e.clone()], None).i()),
                    ("xform", 1) => i.push(fld("x", arr(ti(U8), n(2))).via("xor", vec![], Some(is1())).i()),
                    ("xform", 2) => { i.push(it("g", Ty::Bool)); i.push(fld("x", cont(vec![it("xa", ti(U8)), it("xb", ti(U16))])).via("add", vec![e.clone()], Some(nm("g"))).via("xor", vec![], Some(bin(Bop::Gt, e.clone(), c(U8, 1)))).i()) }
                    ("tagged", 0) => { d.push(decl("M", tagged(vec![fld("A", ti(U16)).when(eq(nm("mt"), c(U8, 1))).i(), fld("B", cont(vec![it("x", ti(U8)), it("y", Ty::Bool)])).when(eq(nm("mt"), c(U8, 2))).i(), fld("C", arr(ti(U8), n(2))).i()])).p("mt", ti(U8))); i.push(it("m", rfa("M", vec![e.clone()]))) }
                    ("tagged", 1) => {
                        // the expression within a variant
                        i.push(fld("x", arr(ti(U8), e.clone())).i());
                        d.push(decl("M", tagged(vec![fld("A", ti(U16)).when(nm("mt")).i(), fld("B", cont(i)).i()])).p("mt", Ty::Bool));
                        i = vec![it("g0", Ty::Bool), it("m", rfa("M", vec![nm("g0")]))];
                    }
                    ("tagged", 2) => {
                        i.push(fld("x", ti(U16)).when(is1()).i());
                        d.push(decl("M", tagged(vec![fld("A", cont(i)).when(nm("mt")).i(), fld("B", ti(U8)).i()])).p("mt", Ty::Bool));
                        i = vec![it("g0", Ty::Bool), it("m", rfa("M", vec![nm("g0")]))];
                    }
                    _ => unreachable!(),
                }
                i.push(z());
                d.push(decl("T", cont(i)));
                let mut s = spec(f, d);
                if k == 1 { s = s.consts(vec![("KC", ti(U8), c(U8, 2))]); }
                v.push(s);
            }
        }
    }
    v
}
