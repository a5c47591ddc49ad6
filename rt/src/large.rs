//! Sizes: the lengths, depths and counts at which implementations change their ways.
use crate::ast::*;
use crate::ast::Sc::*;
use crate::run::Tier;

fn c(s: Sc, x: u128) -> Ex { lit(x, s) }
fn eq(a: Ex, b: Ex) -> Ex { bin(Bop::Eq, a, b) }
fn len(x: &str, s: Sc) -> Ex { let e = call("len", vec![nm(x)]); if s == U64 { e } else { cast(e, s) } }
fn blen(x: &str, s: Sc) -> Ex { let e = call("blen", vec![nm(x)]); if s == U64 { e } else { cast(e, s) } }
fn en(sc: Sc, le: bool, items: &[(&str, u128)]) -> Ty { Ty::Enum(sc, le, items.iter().map(|(n, v)| (n.to_string(), EVal::Ex(lit(*v, sc)))).collect()) }
fn z() -> Item { fld("z", ti(U8)).ints(&[0x5a]).i() }

/// a run of n values that repeats with no period a buffer could have
pub fn run(n: usize, el: &[Val]) -> Val { Val::A((0..n).map(|i| el[(i + i / 251 + i / 65521 * 3) % el.len()].clone()).collect()) }
fn text(bytes: usize) -> String {
    let pool = ["a", "\u{e9}", "b", "\u{65e5}", "\u{1d306}", "c"];
    let mut s = String::new();
    let mut i = 0;
    while s.len() < bytes { let p = pool[i % pool.len()]; s.push_str(if s.len() + p.len() <= bytes { p } else { "x" }); i += 1; }
    s
}
/// text of so many UTF-16 units
fn text16(units: usize) -> String {
    let pool = ["a", "\u{e9}", "\u{65e5}", "\u{1d306}"];
    let mut s = String::new();
    let mut n = 0;
    let mut i = 0;
    while n < units { let p = pool[i % pool.len()]; let k = p.encode_utf16().count(); if n + k <= units { s.push_str(p); n += k } else { s.push('x'); n += 1 } i += 1; }
    s
}
/// lengths: all up to a bound, and around every power of two up to 2^16
fn sizes(all: usize, most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    for k in 7..=16 { for d in [-1i64, 0, 1] { v.push(((1i64 << k) + d) as usize); } }
    v.extend([300, 1000, 10_000, 65_500, 70_001]);
    v.retain(|x| *x <= most);
    v.sort();
    v.dedup();
    // the default comes first
    v.rotate_left(2);
    v
}
pub fn bytes() -> Vec<Val> { (0..=255u128).map(|i| Val::I(i * 7 & 0xff)).collect() }
fn ints(s: Sc) -> Vec<Val> { (0..253u128).map(|i| Val::I((i.wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835) >> 3) & s.mask())).collect() }

pub fn large(t: Tier) -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    let f = "large";
    let th = t == Tier::Thorough;
    let all = if th { 1100 } else { 260 };
    let dom = |lens: &[usize], el: &[Val]| -> Vec<Val> { lens.iter().map(|n| run(*n, el)).collect() };
    // every kind of element in an array of counted length
    let e8 = || decl("Kind", en(U8, false, &[("A", 1), ("B", 2), ("C", 7)]));
    let e16 = || decl("Wide", en(U16, true, &[("X", 0x102), ("Y", 0x304)]));
    let b16 = || decl("Bits", Ty::Bits(U16, false, vec![("low".into(), Some(lit(1, U16))), ("high".into(), Some(lit(0x8000, U16)))]));
    let inner = || decl("Inner", cont(vec![it("a", ti(U8)), it("b", ti(U16))]));
    let var = || decl("Var", cont(vec![fld("n", ti(U8)).is(len("d", U8)).i(), it("d", arr(ti(U8), nm("n")))]));
    let pick = |x: &[u128]| -> Vec<Val> { x.iter().map(|i| Val::I(*i)).collect() };
    let kinds: Vec<(Ty, Vec<Decl>, Vec<Val>, bool)> = vec![
        (ti(U8), vec![], bytes(), true), (ti(I8), vec![], bytes(), true), (ti(U16), vec![], ints(U16), true), (tl(U32), vec![], ints(U32), true), (tl(I64), vec![], ints(I64), false), (ti(U128), vec![], ints(U128), false),
        (Ty::F32, vec![], [0x3fc00000u64, 0, 0x7f800000, 0x12345678].iter().map(|x| Val::F(*x)).collect(), false), (Ty::F64, vec![], [0x3ff8000000000000u64, 0x123456789abcdef0, 1].iter().map(|x| Val::F(*x)).collect(), false),
        (Ty::Bool, vec![], vec![Val::B(true), Val::B(false), Val::B(false)], true),
        (rf("Kind"), vec![e8()], pick(&[1, 2, 7]), true), (rf("Wide"), vec![e16()], pick(&[0x102, 0x304]), false), (rf("Bits"), vec![b16()], pick(&[0, 1, 0x8001]), false),
        (rf("Inner"), vec![inner()], (0..200u128).map(|i| Val::R(vec![Val::I(i), Val::I(i * 301)])).collect(), true),
        (rf("Var"), vec![var()], (0..9usize).map(|i| Val::R(vec![Val::I(i as u128), run(i, &bytes())])).collect(), false),
        (rf("v32"), vec![], pick(&[0, 127, 128, 16384, 0xffff_ffff]), false), (rf("utf8"), vec![], vec![Val::S("".into()), Val::S("h\u{e9}llo".into())], false), (arr(ti(U8), lit(3, U64)), vec![], vec![run(3, &bytes())], false),
    ];
    for (e, ds, el, far) in &kinds {
        let most = if *far { 70_001 } else if th { 16_400 } else { 4_200 };
        let lens = sizes(if *far { all } else { 140 }, most);
        let mut d = ds.clone();
        d.push(decl("T", cont(vec![fld("n", ti(U32)).is(len("d", U32)).i(), fld("d", arr(e.clone(), nm("n"))).dom(dom(&lens, el)).i(), z()])));
        v.push(spec(f, d));
        let mut d = ds.clone();
        let few: Vec<usize> = sizes(3, most).into_iter().filter(|x| *x < 3 || *x > 250).collect();
        d.push(decl("T", cont(vec![it("h", ti(U8)), fld("d", rest(e.clone())).dom(dom(&few, el)).i()])));
        v.push(spec(f, d).open());
    }
    // counts that wrap in the type of the length field must be refused
    for (s, lens) in [(U8, vec![2, 253, 254, 255, 256, 257, 258, 511, 512, 768, 65536]), (I8, vec![2, 126, 127, 128, 129, 255, 256]), (U16, vec![2, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 65541, 70_001]), (I16, vec![2, 32767, 32768, 65536])] {
        let n = if s.signed() { cast(nm("n"), U64) } else { nm("n") };
        for e in [ti(U8), ti(U16), Ty::Bool] {
            let el = match &e { Ty::Int(s, _) => ints(*s), _ => vec![Val::B(true), Val::B(false), Val::B(false)] };
            v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(s)).is(len("d", s)).i(), fld("d", arr(e, n.clone())).dom(dom(&lens, &el)).i(), z()]))]));
        }
        v.push(spec(f, vec![decl("T", cont(vec![fld("n", tl(s)).is(len("d", s)).i(), fld("d", rfa("utf8", vec![n.clone()])).dom(lens.iter().map(|n| Val::S(text(*n))).collect()).i(), z()]))]));
        v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(s)).is(blen("b", s)).i(), fld("b", contl(n.clone(), vec![fld("d", rest(ti(U8))).dom(dom(&lens, &bytes())).i()])).i(), z()]))]));
    }
    // lengths the specification fixes
    for n in [127usize, 128, 255, 256, 257, 4096, 8192, 8193, 65535, 65536, 65537] {
        for (e, el) in [(ti(U8), bytes()), (tl(U32), ints(U32))] {
            v.push(spec(f, vec![decl("T", cont(vec![fld("d", arr(e, lit(n as u128, U64))).dom(dom(&[n, n - 1, n + 1, 0], &el)).i(), z()]))]));
        }
        v.push(spec(f, vec![decl("T", cont(vec![fld("b", contl(lit(n as u128, U64), vec![fld("d", rest(ti(U8))).dom(dom(&[n, n - 1, n + 1, 0], &bytes())).i()])).i(), z()]))]));
        v.push(spec(f, vec![decl("T", cont(vec![fld("s", rfa("utf8", vec![lit(n as u128, U64)])).dom([n, n - 1, n + 1].iter().map(|n| Val::S(text(*n))).collect()).i(), z()]))]));
        v.push(spec(f, vec![decl("T", cont(vec![fld("s", rfa("utf16", vec![lit(n as u128, U64)])).dom([n, n - 1, n + 1].iter().map(|n| Val::S(text16(*n))).collect()).i(), z()]))]));
        v.push(spec(f, vec![decl("T", cont(vec![fld("a", ti(U8)).ints(&[1]).i(), Item::Pad(lit(n as u128, U64)), z()]))]));
    }
    // ends the data mark
    let not = |x: u128| -> Vec<Val> { bytes().into_iter().filter(|v| *v != Val::I(x)).collect() };
    let lens = sizes(all, 70_001);
    v.push(spec(f, vec![decl("T", cont(vec![fld("d", term(ti(U8), b"\xfe")).dom(dom(&lens, &not(0xfe))).i(), z()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![fld("d", term(ti(U8), b"\r\n")).dom(dom(&lens, &not(10))).i(), z()]))]));
    v.push(spec(f, vec![inner(), decl("T", cont(vec![fld("d", term(rf("Inner"), b"\xff")).dom(dom(&sizes(40, 8200), &kinds[12].2)).i(), z()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![fld("s", rf("utf8")).dom(lens.iter().map(|n| Val::S(text(*n))).collect()).i(), z()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(U32)).is(len("s", U32)).i(), fld("s", rfa("utf8", vec![nm("n")])).dom(lens.iter().map(|n| Val::S(text(*n))).collect()).i(), z()]))]));
    // sizes measured in bytes
    v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(U32)).is(blen("b", U32)).i(), fld("b", contl(nm("n"), vec![fld("x", ti(U16)).ints(&[0x1234]).i(), fld("d", rest(ti(U16))).dom(dom(&lens, &ints(U16))).i()])).i(), z()]))]));
    v.push(spec(f, vec![inner(), decl("T", cont(vec![fld("n", rf("v32")).is(cast(blen("b", U64), U32)).i(), fld("m", ti(U32)).is(blen("b", U32)).i(), fld("b", contl(nm("m"), vec![fld("d", rest(rf("Inner"))).dom(dom(&sizes(140, 22_000), &kinds[12].2)).i()])).i(), z()]))]));
    v.pop(); // a calculated field of a foreign type has no literal meaning here
    // nested sizes
    v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(U32)).is(blen("b", U32)).i(), fld("b", contl(nm("n"), vec![fld("m", ti(U16)).is(blen("c", U16)).i(), fld("c", contl(nm("m"), vec![fld("d", rest(ti(U8))).dom(dom(&sizes(all, 65_537), &bytes())).i()])).i(), it("e", ti(U16))])).i(), z()]))]));
    // under transforms
    for xs in [vec!["xor"], vec!["add", "xor"], vec!["hold"], vec!["xor", "hold", "add"]] {
        let mut g = fld("d", arr(ti(U8), nm("n"))).dom(dom(&sizes(20, 70_001), &bytes()));
        for x in xs { g = g.via(x, vec![], None); }
        v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(U32)).is(len("d", U32)).i(), g.i(), z()]))]));
    }
    v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(U32)).is(len("d", U32)).i(), fld("d", arr(ti(U8), nm("n"))).dom(dom(&(0..=255).collect::<Vec<_>>(), &bytes())).via("frame", vec![], None).i(), z()]))]));
    // depth
    let deep: Vec<usize> = if th { (0..=150).chain([200, 256, 257, 300]).collect() } else { (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 200]).collect() };
    let chain = |n: usize| { let mut x = Val::A(vec![]); for i in 0..n { x = Val::A(vec![Val::R(vec![Val::I(i as u128 & 255), Val::I(if matches!(&x, Val::A(v) if v.is_empty()) { 0 } else { 1 }), x])]); } x };
    v.push(spec(f, vec![decl("N", cont(vec![it("tag", ti(U8)), fld("n", ti(U8)).is(len("kids", U8)).i(), it("kids", arr(rf("N"), nm("n")))])), decl("T", cont(vec![fld("m", ti(U8)).is(len("top", U8)).i(), fld("top", arr(rf("N"), nm("m"))).dom(deep.iter().map(|n| chain(*n)).collect()).i(), z()]))]));
    // width: many fields, variants, flags, declarations
    let wide = if th { 300 } else { 270 };
    v.push(spec(f, vec![decl("T", cont((0..wide).map(|i| fld(&format!("x{}", i), match i % 5 { 0 => ti(U8), 1 => tl(U16), 2 => Ty::Bool, 3 => ti(I32), _ => ti(U8) }).dom(vec![if i % 5 == 2 { Val::B(i % 2 == 0) } else { Val::I(i as u128 & 255) }]).i()).collect()))]));
    let items: Vec<(String, EVal)> = (0..wide).map(|i| (format!("V{}", i), if i % 50 == 0 { EVal::Ex(lit(i as u128 * 2 + 1, U16)) } else { EVal::Next })).collect();
    v.push(spec(f, vec![decl("Many", Ty::Enum(U16, false, items)), decl("T", cont(vec![it("k", rf("Many")), z()]))]).big(2000));
    v.push(spec(f, vec![decl("Flags", Ty::Bits(U64, true, (0..40).map(|i| (format!("b{}", i), if i % 9 == 0 { Some(lit(1 << i, U64)) } else { None })).collect())), decl("T", cont(vec![it("k", rf("Flags")), z()]))]).big(2000));
    v.push(spec(f, vec![decl("Flags", Ty::Bits(U128, false, [0u32, 1, 31, 32, 62, 63, 64, 65, 66, 95, 96, 126, 127].iter().map(|i| (format!("b{}", i), if i % 32 < 31 && *i != 1 { Some(lit(1 << *i, U128)) } else { None })).collect())), decl("T", cont(vec![it("k", rf("Flags")), z()]))]).big(2000));
    v.push(spec(f, vec![decl("M", tagged((0..80).map(|i| fld(&format!("V{}", i), if i % 3 == 0 { ti(U16) } else { cont(vec![it(&format!("x{}", i), ti(U8))]) }).when(eq(nm("t"), c(U8, i as u128 * 3))).i()).collect())).p("t", ti(U8)), decl("T", cont(vec![it("t", ti(U8)), it("m", rfa("M", vec![nm("t")])), z()]))]).big(4000));
    // (the Rust compiler gives up on the futures of 60 types inside each other: a limit of it, not of the code)
    for k in [24u128, 60] {
        let mut ds: Vec<Decl> = vec![decl("L0", cont(vec![it("a", ti(U8))]))];
        for i in 1..k { ds.push(decl(&format!("L{}", i), cont(vec![it("p", rf(&format!("L{}", i - 1))), it("a", ti(U8))]))); }
        ds.push(decl("T", cont(vec![fld("x", rf(&format!("L{}", k - 1))).dom(vec![(0..k).fold(Val::Nil, |x, i| if x == Val::Nil { Val::R(vec![Val::I(9)]) } else { Val::R(vec![x, Val::I(i)]) })]).i(), z()])));
        v.push(if k > 24 { spec(f, ds).noasync() } else { spec(f, ds) });
    }
    let msg = decl("M", tagged(vec![fld("A", ti(U16)).when(eq(nm("t"), c(U8, 1))).i(), fld("B", arr(ti(U8), lit(2, U64))).when(eq(nm("t"), c(U8, 2))).i()])).p("t", ti(U8));
    let item = decl("I", cont(vec![it("t", ti(U8)), it("m", rfa("M", vec![nm("t")]))]));
    let el = vec![Val::R(vec![Val::I(1), Val::V(0, Box::new(Val::I(0x1234)))]), Val::R(vec![Val::I(2), Val::V(1, Box::new(run(2, &bytes())))])];
    v.push(spec(f, vec![msg, item, decl("T", cont(vec![fld("n", ti(U16)).is(len("d", U16)).i(), fld("d", arr(rf("I"), nm("n"))).dom(dom(&sizes(40, 5000), &el)).i(), z()]))]));
    v
}

/// the transforms the library brings along: gzip and base64
pub fn gz(t: Tier) -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    let f = "gz";
    let far = if t == Tier::Thorough { 140_000 } else { 70_001 };
    let ramp = |lens: &[usize]| -> Vec<Val> { lens.iter().map(|n| run(*n, &bytes())).collect() };
    let lens: Vec<usize> = sizes(40, far);
    let sub = || decl("Inner", cont(vec![it("a", ti(U8)), it("b", ti(U16)), it("s", rf("utf8"))]));
    let k3 = || decl("K", en(U8, false, &[("A", 1), ("B", 2)]));
    // gzip knows where it ends
    v.push(spec(f, vec![decl("T", cont(vec![it("h", ti(U8)), fld("d", arr(ti(U8), lit(3, U64))).via("gzip", vec![], None).i(), z()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(U32)).is(len("d", U32)).i(), fld("d", arr(ti(U8), nm("n"))).dom(ramp(&lens)).via("gzip", vec![], None).i(), z()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![fld("d", rest(ti(U8))).dom(ramp(&lens)).via("gzip", vec![], None).i(), z()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![fld("d", rest(tl(U32))).dom(sizes(5, 20_000).iter().map(|n| run(*n, &ints(U32))).collect()).via("gzip", vec![], None).i(), z()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![it("p", Ty::Bool), fld("a", ti(U32)).via("gzip", vec![], Some(nm("p"))).i(), z()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![it("p", Ty::Bool), fld("a", ti(U32)).via("gzip", vec![], None).when(nm("p")).i(), z()]))]));
    v.push(spec(f, vec![sub(), decl("T", cont(vec![fld("a", rf("Inner")).via("gzip", vec![], None).i(), fld("b", rf("Inner")).via("gzip", vec![], None).i(), z()]))]));
    v.push(spec(f, vec![k3(), decl("T", cont(vec![it("p", ti(U8)), fld("s", cont(vec![it("k", rf("K")), it("x", ti(I64)), fld("y", ti(U8)).when(bin(Bop::Gt, nm("p"), c(U8, 1))).i()])).via("xor", vec![], Some(eq(nm("p"), c(U8, 2)))).via("gzip", vec![], None).i(), z()]))]));
    for l in [vec!["gzip", "xor"], vec!["xor", "gzip"], vec!["gzip", "gzip"], vec!["add", "gzip", "xor"], vec!["gzip", "hold"], vec!["frame", "gzip"], vec!["gzip", "frame"]] {
        let mut g = fld("d", arr(ti(U16), lit(2, U64)));
        for x in &l { g = g.via(x, vec![], None); }
        v.push(spec(f, vec![decl("T", cont(vec![it("h", ti(U8)), g.i(), z()]))]));
        let mut g = fld("s", cont(vec![it("x", ti(U8)), it("y", rf("utf8"))]));
        for x in &l { g = g.via(x, vec![], None); }
        v.push(spec(f, vec![decl("T", cont(vec![g.i(), z()]))]));
    }
    v.push(spec(f, vec![declf("A", fld("", cont(vec![it("x", ti(U8)), it("y", ti(U16))])).via("gzip", vec![], None)), decl("T", cont(vec![it("n", ti(U8)), it("a", arr(rf("A"), nm("n"))), z()]))]));
    v.push(spec(f, vec![declf("T", fld("", arr(ti(U8), lit(4, U64))).via("gzip", vec![], None))]));
    v.push(spec(f, vec![declf("T", fld("", cont(vec![it("x", ti(U8)), it("s", rf("utf8"))])).via("gzip", vec![], None))]));
    v.push(spec(f, vec![declf("M", fld("", tagged(vec![fld("A", ti(U16)).when(eq(nm("t"), c(U8, 1))).i(), fld("B", cont(vec![it("x", ti(U8)), it("y", ti(U8))])).when(eq(nm("t"), c(U8, 2))).i()])).via("gzip", vec![], None)).p("t", ti(U8)), decl("T", cont(vec![it("t", ti(U8)), it("m", rfa("M", vec![nm("t")])), z()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(U32)).is(blen("b", U32)).i(), fld("b", contl(nm("n"), vec![it("x", ti(U8)), fld("d", rest(ti(U8))).dom(ramp(&sizes(10, 9000))).via("gzip", vec![], None).i()])).i(), z()]))]));
    // base64 ends where its surroundings do
    let body = |items: Vec<Item>| cont(vec![fld("n", ti(U32)).is(blen("b", U32)).i(), fld("b", contl(nm("n"), items)).i(), z()]);
    v.push(spec(f, vec![decl("T", body(vec![fld("d", rest(ti(U8))).dom(ramp(&lens)).via("base64", vec![], None).i()]))]));
    v.push(spec(f, vec![decl("T", body(vec![fld("d", rest(ti(U16))).dom(sizes(12, 9000).iter().map(|n| run(*n, &ints(U16))).collect()).via("base64", vec![], None).i()]))]));
    v.push(spec(f, vec![decl("T", body(vec![it("x", ti(U8)), fld("d", arr(ti(U8), lit(3, U64))).via("base64", vec![], None).i()]))]));
    v.push(spec(f, vec![decl("T", body(vec![it("p", Ty::Bool), fld("d", ti(U64)).via("base64", vec![], Some(nm("p"))).i()]))]));
    v.push(spec(f, vec![sub(), decl("T", body(vec![fld("d", rf("Inner")).via("base64", vec![], None).i()]))]));
    for l in [vec!["xor", "base64"], vec!["base64", "xor"], vec!["gzip", "base64"], vec!["base64", "gzip"], vec!["add", "base64", "xor"]] {
        let mut g = fld("d", rest(ti(U8))).dom(ramp(&sizes(12, 2100)));
        for x in &l { g = g.via(x, vec![], None); }
        v.push(spec(f, vec![decl("T", body(vec![g.i()]))]));
    }
    v.push(spec(f, vec![decl("T", cont(vec![it("h", ti(U8)), fld("d", rest(ti(U8))).dom(ramp(&sizes(20, 9000))).via("base64", vec![], None).i()]))]).open());
    v.into_iter().map(|s| s.noasync()).collect()
}
