//! Small programs: every filling of the holes of a small world.
use super::rules::D;
use rt::ast::*;
use Sc::*;

pub type Out<'a> = dyn FnMut(&'static str, &dyn Fn() -> Vec<D>) + 'a;
/// all programs of the space
pub fn programs(tier: &str, out: &mut Out) {
    let thorough = tier == "thorough";
    expressions(thorough, out);
    declarations(thorough, out);
    containers(thorough, out);
    items(thorough, out);
    arguments(thorough, out);
}
fn var(a: &str, b: &str) -> Ex { Ex::Variant(a.into(), b.into()) }
fn mem(a: Ex, b: &str) -> Ex { Ex::Member(Box::new(a), b.into()) }
fn idx(a: Ex, b: Ex) -> Ex { Ex::Index(Box::new(a), Box::new(b)) }
fn st(s: &str) -> Ex { Ex::Str(s.as_bytes().to_vec()) }
fn num(x: u128) -> Ex { lit(x, I32) }
fn castt(a: Ex, t: Ty) -> Ex { Ex::Cast(Box::new(a), Box::new(t)) }
fn paren(e: Ex) -> Ex { Ex::Paren(Box::new(e)) }
fn en(s: Sc, items: &[(&str, EVal)]) -> Ty { Ty::Enum(s, false, items.iter().map(|x| (x.0.to_string(), x.1.clone())).collect()) }
fn bf(s: Sc, items: &[(&str, Option<Ex>)]) -> Ty { Ty::Bits(s, false, items.iter().map(|x| (x.0.to_string(), x.1.clone())).collect()) }
fn v(x: u128) -> EVal { EVal::Ex(num(x)) }

// ------------------------------------------------------------ expressions in a world with a hole
fn scaffold() -> Vec<D> {
    vec![
        D::Ffi("v32".into(), "type"), D::Ffi("utf8".into(), "type"), D::Ffi("add".into(), "transform"), D::Ffi("sum".into(), "function"),
        D::Const("KU".into(), ti(U8), num(3)), D::Const("KS".into(), arr(ti(U8), num(2)), st("ab")), D::Const("KB".into(), Ty::Bool, Ex::Bool(true)), D::Const("KI".into(), ti(I16), un(Uop::Neg, num(3))),
        D::Ty(decl("En", en(U8, &[("A", v(1)), ("B", EVal::Next), ("X", EVal::Default)]))), D::Ty(decl("En2", en(U16, &[("A", v(1))]))),
        D::Ty(decl("Bi", bf(U8, &[("F", Some(num(1))), ("G", None)]))),
        D::Ty(decl("Al", ti(U16))), D::Ty(decl("Co", cont(vec![it("x", ti(U8))]))), D::Ty(declf("Op", fld("", ti(U8)).when(Ex::Bool(true)))),
        D::Ty(decl("P", cont(vec![it("v", arr(ti(U8), nm("k")))])).p("k", ti(U8)).po("o", ti(U16), num(4))),
        D::Ty(decl("Pb", ti(U8)).p("k", Ty::Bool)), D::Ty(decl("Pe", ti(U8)).p("k", rf("En"))), D::Ty(decl("Pa", ti(U8)).p("k", arr(ti(U16), num(2)))),
    ]
}
fn before() -> Vec<Item> {
    vec![
        it("fa", ti(U8)), it("fw", ti(U16)), it("fi", ti(I32)), it("fl", tl(U32)), it("fb", Ty::Bool), it("ff", Ty::F32), it("fd", Ty::F64), it("fe", rf("En")), it("fg", rf("Bi")), it("fv", rf("v32")),
        it("fs", rf("utf8")), it("fr", arr(ti(U8), num(2))), it("fq", arr(tl(U16), num(2))), it("fz", arr(rf("En"), num(1))), it("fc", rf("Al")), it("fk", rf("Co")), fld("fo", ti(U8)).when(nm("fb")).i(), it("fp", rf("Op")),
        it("fn", cont(vec![it("in", ti(U8))])), it("fm", contl(num(4), vec![it("im", ti(U8))])),
    ]
}
fn after() -> Vec<Item> { vec![it("ga", ti(U8)), fld("gc", ti(U8)).is(num(1)).i()] }
/// a container with an item in the middle
fn world(item: Vec<Item>) -> Vec<D> {
    let mut p = scaffold();
    let mut items = before();
    items.extend(item);
    items.extend(after());
    p.push(D::Ty(decl("T", cont(items)).p("pa", ti(U8)).p("pb", Ty::Bool).p("pe", rf("En")).po("pc", ti(U16), num(2)).p("pq", arr(ti(U8), num(1)))));
    p
}
fn with(d: Vec<D>) -> Vec<D> { let mut p = scaffold(); p.extend(d); p }
/// where an expression can be; false: only constants are visible
pub const SITES: &[(&str, bool, fn(Ex) -> Vec<D>)] = &[
    ("array length", true, |e| world(vec![it("h", arr(ti(U8), e))])),
    ("condition", true, |e| world(vec![fld("h", ti(U8)).when(e).i()])),
    ("u8", true, |e| world(vec![fld("h", ti(U8)).is(e).i()])),
    ("u16", true, |e| world(vec![fld("h", tl(U16)).is(e).i()])),
    ("i32", true, |e| world(vec![fld("h", ti(I32)).is(e).i()])),
    ("u64", true, |e| world(vec![fld("h", ti(U64)).is(e).i()])),
    ("bool", true, |e| world(vec![fld("h", Ty::Bool).is(e).i()])),
    ("f64", true, |e| world(vec![fld("h", Ty::F64).is(e).i()])),
    ("enum", true, |e| world(vec![fld("h", rf("En")).is(e).i()])),
    ("bitfield", true, |e| world(vec![fld("h", rf("Bi")).is(e).i()])),
    ("bytes", true, |e| world(vec![fld("h", arr(ti(U8), num(2))).is(e).i()])),
    ("array", true, |e| world(vec![fld("h", arr(ti(U16), num(2))).is(e).i()])),
    ("alias", true, |e| world(vec![fld("h", rf("Al")).is(e).i()])),
    ("foreign", true, |e| world(vec![fld("h", rf("v32")).is(e).i()])),
    ("terminator", true, |e| world(vec![it("h", Ty::Arr(Box::new(ti(U8)), Len::Term(e)))])),
    ("f32", true, |e| world(vec![fld("h", Ty::F32).is(e).i()])),
    ("string", true, |e| world(vec![fld("h", rf("utf8")).is(e).i()])),
    ("container value", true, |e| world(vec![fld("h", rf("Co")).is(e).i()])),
    ("container length", true, |e| world(vec![it("h", contl(e, vec![it("a", ti(U8))]))])),
    ("pad", true, |e| world(vec![Item::Pad(e)])),
    ("transform argument", true, |e| world(vec![fld("h", arr(ti(U8), num(2))).via("add", vec![e], None).i()])),
    ("transform condition", true, |e| world(vec![fld("h", arr(ti(U8), num(2))).via("add", vec![], Some(e)).i()])),
    ("argument", true, |e| world(vec![it("h", rfa("P", vec![e]))])),
    ("optional argument", true, |e| world(vec![it("h", arr(rfa("P", vec![num(1), e]), num(1)))])),
    ("bool argument", true, |e| world(vec![it("h", rfa("Pb", vec![e]))])),
    ("enum argument", true, |e| world(vec![it("h", rfa("Pe", vec![e]))])),
    ("array argument", true, |e| world(vec![it("h", rfa("Pa", vec![e]))])),
    ("foreign argument", true, |e| world(vec![it("h", rfa("utf8", vec![e]))])),
    ("inner condition", true, |e| world(vec![it("h", cont(vec![it("fa", ti(U16)), fld("i", ti(U8)).when(e).i(), it("ha", ti(U8))]))])),
    ("inner calculated", true, |e| world(vec![it("h", cont(vec![it("fa", ti(U16)), fld("i", ti(U8)).is(e).i(), it("ha", ti(U8))]))])),
    ("condition of a container", true, |e| world(vec![fld("h", cont(vec![it("i", ti(U8))])).when(e).i()])),
    ("calculated and conditional", true, |e| world(vec![fld("h", ti(U64)).when(nm("fb")).is(e).i()])),
    ("alias length", true, |e| with(vec![D::Ty(decl("T", arr(ti(U8), e)).p("pa", ti(U8)).p("pb", Ty::Bool).p("pe", rf("En")).po("pc", ti(U16), num(2)))])),
    ("alias condition", true, |e| with(vec![D::Ty(declf("T", fld("", ti(U8)).when(e)).p("pa", ti(U8)).p("pb", Ty::Bool))])),
    ("default", true, |e| with(vec![D::Ty(decl("T", ti(U8)).p("pa", ti(U8)).p("pb", Ty::Bool).po("pc", ti(U16), e))])),
    ("parameter type", true, |e| with(vec![D::Ty(decl("T", ti(U8)).p("pa", ti(U8)).p("pb", Ty::Bool).p("px", arr(ti(U8), e)))])),
    ("const u8", false, |e| with(vec![D::Const("Z".into(), ti(U8), e)])),
    ("const i16", false, |e| with(vec![D::Const("Z".into(), ti(I16), e)])),
    ("const bool", false, |e| with(vec![D::Const("Z".into(), Ty::Bool, e)])),
    ("const bytes", false, |e| with(vec![D::Const("Z".into(), arr(ti(U8), num(2)), e)])),
    ("const enum", false, |e| with(vec![D::Const("Z".into(), rf("En"), e)])),
    ("const u64", false, |e| with(vec![D::Const("Z".into(), ti(U64), e)])),
    ("enum value", false, |e| with(vec![D::Ty(decl("Z", en(U8, &[("P", EVal::Ex(e.clone()))])))])),
    ("flag value", false, |e| with(vec![D::Ty(decl("Z", bf(U16, &[("P", Some(e.clone()))])))])),
];
fn atoms(dynamic: bool) -> Vec<Ex> {
    let mut a = vec![num(1), num(300), lits(1, U8), lits(1, U16), lits(1, I32), lits(200, I8), Ex::Bool(true), st("ab"), nm("KU"), nm("KS"), nm("KB"), nm("KI"), var("En", "A"), var("En", "Z"), var("En", "X"), var("En2", "A"), var("Bi", "F"), var("Bi", "Z"), var("Al", "A"), var("Qq", "A"), nm("qq"), un(Uop::Neg, num(1)), num(0)];
    if dynamic {
        a.extend(["fa", "fw", "fi", "fl", "fb", "ff", "fd", "fe", "fg", "fv", "fs", "fr", "fq", "fz", "fc", "fk", "fo", "fp", "fn", "fm", "ga", "gc", "pa", "pb", "pe", "pc", "pq", "in", "h", "i", "ha"].map(nm));
        a.extend([mem(nm("fg"), "F"), mem(nm("fg"), "Z"), mem(nm("fa"), "F"), mem(nm("fk"), "x"), idx(nm("fr"), num(0)), idx(nm("fq"), nm("fa")), idx(nm("fa"), num(0)), idx(nm("fr"), nm("fb")), call("len", vec![nm("fr")]), call("len", vec![nm("fk")]), call("blen", vec![nm("fm")]), call("blen", vec![nm("fn")]), call("sum", vec![nm("fr")]), call("qq", vec![]), call("len", vec![]), bin(Bop::Elvis, nm("fo"), num(1)), bin(Bop::Elvis, nm("fo"), nm("fa")), bin(Bop::Elvis, nm("fa"), num(1)), bin(Bop::Elvis, num(1), nm("fo"))]);
    }
    a
}
/// fewer atoms, one of each kind
fn few(dynamic: bool) -> Vec<Ex> {
    let mut a = vec![num(1), lits(1, U16), Ex::Bool(true), nm("KU"), var("En", "A"), st("ab")];
    if dynamic { a.extend(["fa", "fw", "fi", "fb", "ff", "fd", "fe", "fg", "fv", "fr", "fq", "fc", "fk", "fo", "pa", "pe"].map(nm)); a.push(idx(nm("fr"), num(0))); a.push(mem(nm("fg"), "F")); a.push(bin(Bop::Elvis, nm("fo"), num(1))) } else { a.extend([nm("KB"), nm("KI"), nm("KS"), var("Bi", "F"), num(0), num(200), lits(1, U8), lits(7, I16)]); }
    a
}
const BOPS: [Bop; 20] = [Bop::Or, Bop::And, Bop::BitOr, Bop::BitXor, Bop::BitAnd, Bop::Eq, Bop::Ne, Bop::Lt, Bop::Gt, Bop::Le, Bop::Ge, Bop::Shr, Bop::Shl, Bop::ShrS, Bop::Add, Bop::Sub, Bop::Mul, Bop::Div, Bop::Mod, Bop::Elvis];
fn casts() -> Vec<Ty> { vec![ti(U8), ti(U16), tl(U32), ti(I32), Ty::Bool, Ty::F32, Ty::F64, rf("En"), rf("En2"), rf("Bi"), rf("Al"), rf("Co"), rf("v32"), rf("utf8"), arr(ti(U8), num(2)), rf("Op"), rf("Pb"), rfa("P", vec![num(1)]), rf("Qq")] }
fn expressions(thorough: bool, out: &mut Out) {
    for (_, dynamic, site) in SITES {
        let all = atoms(*dynamic);
        for a in &all {
            out("an operand", &|| site(a.clone()));
            out("parentheses", &|| site(paren(a.clone())));
            for o in [Uop::Not, Uop::Neg, Uop::BitNot] { out("a prefix operator", &|| site(un(o, a.clone()))); out("two prefix operators", &|| site(un(Uop::Not, un(o, a.clone())))); }
            for t in casts() { out("a cast", &|| site(castt(a.clone(), t.clone()))); }
            for f in ["len", "sum", "blen"] { out("a call", &|| site(call(f, vec![a.clone()]))); out("a call in a sum", &|| site(bin(Bop::Add, num(1), call(f, vec![a.clone()])))); }
            for i in [num(0), nm("fa"), nm("fi"), lits(1, U8)] { out("an index", &|| site(idx(a.clone(), i.clone()))); out("an index", &|| site(idx(nm("fr"), a.clone()))); }
            out("a condition", &|| site(tern(a.clone(), num(1), num(2))));
        }
    }
    // two operands
    for (n, dynamic, site) in SITES {
        let wide = thorough || ["condition", "u64", "u16", "const bool", "const u8", "enum value"].contains(n);
        let all = if thorough { atoms(*dynamic) } else if wide || !dynamic { few(*dynamic) } else { few(*dynamic).into_iter().step_by(2).collect() };
        for a in &all { for b in &all {
            for o in BOPS { out("two operands", &|| site(bin(o, a.clone(), b.clone()))); }
            out("two branches", &|| site(tern(Ex::Bool(true), a.clone(), b.clone())));
            if wide { out("a compared condition", &|| site(tern(bin(Bop::Eq, a.clone(), b.clone()), a.clone(), b.clone()))); out("a sum compared", &|| site(bin(Bop::Lt, bin(Bop::Add, a.clone(), num(1)), b.clone()))); out("an inverted comparison", &|| site(un(Uop::Not, bin(Bop::Eq, a.clone(), b.clone())))); }
        } }
    }
    // three
    for (n, dynamic, site) in SITES {
        if !["condition", "u64", "const u8", "enum value"].contains(n) { continue }
        let all: Vec<Ex> = if thorough { few(*dynamic) } else { few(*dynamic).into_iter().step_by(3).collect() };
        let ops = [Bop::Eq, Bop::Lt, Bop::And, Bop::Add, Bop::BitAnd, Bop::Shl, Bop::Elvis];
        for a in &all { for b in &all { for c in &all { for o in ops { for p in ops {
            out("three operands", &|| site(bin(o, bin(p, a.clone(), b.clone()), c.clone())));
            out("three operands", &|| site(bin(o, a.clone(), bin(p, b.clone(), c.clone()))));
        } } } } }
    }
}

// ------------------------------------------------------------ declarations
fn decl_forms(a: &'static str, b: &'static str) -> Vec<D> {
    let c = |i: Vec<Item>| decl(a, cont(i));
    let mut f: Vec<Decl> = vec![
        decl(a, ti(U8)), decl(a, rf(b)), decl(a, rf(a)), decl(a, arr(rf(b), num(2))), decl(a, rest(rf(b))), decl(a, rest(rf(a))), c(vec![]), c(vec![it("x", rf(b))]), c(vec![it("x", arr(rf(b), num(1)))]), c(vec![fld("x", rf(b)).when(Ex::Bool(true)).i()]),
        c(vec![it("x", rf(a))]), c(vec![it("n", ti(U8)), it("x", arr(rf(a), nm("n")))]), c(vec![it("x", cont(vec![it("y", rf(b))]))]), c(vec![it("x", ti(U8)), fld("y", ti(U8)).is(castt(nm("x"), rf(b))).i()]),
        c(vec![it("x", rf(b)), it("y", arr(ti(U8), nm("x")))]), c(vec![it("x", rf(b)), fld("y", ti(U8)).when(bin(Bop::Eq, nm("x"), num(1))).i()]), c(vec![it("x", rf(b)), fld("y", ti(U8)).when(bin(Bop::Eq, nm("x"), var(b, "X"))).i()]),
        c(vec![it("x", arr(ti(U8), nm(b)))]), c(vec![it("x", rfa(b, vec![num(1)]))]), c(vec![fld("x", ti(U8)).is(nm(b)).i()]), c(vec![it("x", arr(rfa(b, vec![num(1)]), num(1)))]),
        decl(a, en(U8, &[("X", v(1))])), decl(a, en(U8, &[("X", EVal::Ex(castt(var(b, "X"), ti(U8))))])), decl(a, en(U8, &[("X", EVal::Ex(nm(b)))])), decl(a, bf(U8, &[("X", Some(num(1)))])), decl(a, bf(U16, &[("X", Some(nm(b)))])),
        decl(a, ti(U8)).p("k", ti(U8)), decl(a, arr(ti(U8), nm("k"))).p("k", ti(U8)), decl(a, ti(U8)).p("k", rf(b)), decl(a, arr(ti(U8), nm("k"))).p("k", rf(b)), decl(a, rfa(b, vec![nm("k")])).p("k", ti(U8)), decl(a, rfa(b, vec![num(1)])), decl(a, arr(ti(U8), nm(b))),
        decl(a, rfa(b, vec![var(b, "X")])), decl(a, ti(U8)).po("k", ti(U8), nm(b)), decl(a, ti(U8)).po("k", rf(b), var(b, "X")), decl(a, ti(U8)).p("k", ti(U8)).p("l", arr(ti(U8), nm("k"))), decl(a, rfa(b, vec![num(1), num(2)])), declf(a, fld("", rf(b)).when(Ex::Bool(true))), declf(a, fld("", ti(U8)).when(bin(Bop::Eq, castt(num(1), rf(b)), num(1)))),
        decl(a, tagged(vec![it("x", rf(b))])), decl(a, en(U8, &[("X", EVal::Default)])).p("k", ti(U8)), declf(a, fld("", rf(b)).is(num(1))), decl(a, contl(nm(b), vec![it("x", ti(U8))])),
    ];
    f.push(decl(a, rf("v32")));
    let mut out: Vec<D> = f.into_iter().map(D::Ty).collect();
    for (t, e) in [(ti(U8), num(1)), (ti(U8), nm(b)), (ti(U8), nm(a)), (rf(b), num(1)), (rf(b), var(b, "X")), (ti(U16), nm(b)), (ti(U8), castt(nm(b), ti(U8))), (ti(U8), castt(var(b, "X"), ti(U8))), (arr(ti(U8), num(2)), st("ab")), (arr(ti(U8), nm(b)), st("a")), (Ty::Bool, bin(Bop::Eq, nm(b), num(1))), (rf(a), num(1))] { out.push(D::Const(a.into(), t, e)); }
    out
}
/// declarations of foreign things, with each other and with the program's own things of these names
fn foreigners(out: &mut Out) {
    let mut f = vec![];
    for n in ["v32", "utf8", "gzip", "add", "sum", "len", "blen", "qq"] { for k in ["type", "transform", "function"] { f.push(D::Ffi(n.into(), k)); } }
    let mut own = vec![];
    for n in ["v32", "gzip", "sum"] { own.push(D::Ty(decl(n, ti(U8)))); own.push(D::Ty(decl(n, cont(vec![it("a", ti(U8))])))); own.push(D::Const(n.into(), ti(U8), num(1))); }
    let uses = vec![
        D::Ty(decl("T", rf("v32"))), D::Ty(decl("T", rf("gzip"))), D::Ty(decl("T", rf("sum"))), D::Ty(declf("T", fld("", ti(U8)).via("gzip", vec![], None))), D::Ty(declf("T", fld("", ti(U8)).via("v32", vec![], None))), D::Ty(declf("T", fld("", ti(U8)).via("sum", vec![], None))),
        D::Ty(decl("T", cont(vec![it("a", arr(ti(U8), num(2))), fld("b", ti(U64)).is(call("sum", vec![nm("a")])).i()]))), D::Ty(decl("T", cont(vec![it("a", arr(ti(U8), num(2))), fld("b", ti(U64)).is(call("gzip", vec![nm("a")])).i()]))), D::Ty(decl("T", cont(vec![it("a", arr(ti(U8), num(2))), fld("b", ti(U64)).is(call("v32", vec![nm("a")])).i()]))), D::Ty(decl("T", arr(ti(U8), nm("sum")))),
    ];
    let n = f.len();
    let all: Vec<D> = f.into_iter().chain(own).chain(uses).collect();
    for (i, a) in all.iter().enumerate() {
        if i < n { out("a foreign declaration", &|| vec![a.clone()]); }
        for (j, b) in all.iter().enumerate() {
            if i < n || j < n { out("two declarations, foreign ones among them", &|| vec![a.clone(), b.clone()]); }
            if i < n || j < n { for c in &all { out("three declarations, foreign ones among them", &|| vec![a.clone(), b.clone(), c.clone()]); } }
        }
    }
}
fn declarations(thorough: bool, out: &mut Out) {
    foreigners(out);
    let mut all = decl_forms("A", "B");
    all.extend(decl_forms("B", "A"));
    all.push(D::Ffi("v32".into(), "type"));
    all.push(D::Ffi("v32".into(), "function"));
    all.push(D::Ty(decl("v32", ti(U8))));
    let n = all.len();
    for a in &all {
        out("a declaration", &|| vec![a.clone()]);
        for b in &all { out("two declarations", &|| vec![a.clone(), b.clone()]); }
    }
    // the third is about another name, or one of these again
    let mut third = decl_forms("C", "A");
    if thorough { third.extend(decl_forms("C", "B")); third.extend(all.clone()); }
    let step = if thorough { 1 } else { 2 };
    for (i, a) in all.iter().enumerate() { for (j, b) in all.iter().enumerate() {
        if i < n / 2 && j < n / 2 { continue }
        for (k, c) in third.iter().enumerate() { if (i + j + k) % step == 0 { out("three declarations", &|| vec![a.clone(), b.clone(), c.clone()]); } }
    } }
}

// ------------------------------------------------------------ containers
fn field_forms() -> Vec<Item> {
    let f = |n: &str, t: Ty| fld(n, t);
    let u = || ti(U8);
    vec![
        it("a", u()), it("b", u()), it("a", arr(u(), nm("b"))), it("b", arr(u(), nm("a"))), f("a", u()).is(nm("b")).i(), f("b", u()).is(nm("a")).i(), f("a", u()).is(nm("a")).i(), f("a", u()).when(bin(Bop::Eq, nm("b"), num(1))).i(), f("b", u()).when(bin(Bop::Eq, nm("a"), num(1))).i(),
        f("a", ti(U64)).is(call("blen", vec![nm("b")])).i(), f("b", ti(U64)).is(call("blen", vec![nm("a")])).i(), it("a", cont(vec![f("c", u()).is(nm("b")).i()])), it("a", contl(nm("b"), vec![it("c", u())])), it("a", contl(num(4), vec![it("c", arr(u(), nm("b")))])),
        it("b", contl(nm("a"), vec![it("c", rest(u()))])), it("b", contl(num(4), vec![f("c", u()).is(nm("a")).i()])), f("b", contl(num(4), vec![it("c", u())])).when(bin(Bop::Eq, nm("a"), num(1))).i(), Item::Pad(num(1)), Item::Pad(nm("a")), Item::Pad(nm("b")),
        it("a", rf("T")), it("a", arr(rf("T"), num(1))), f("b", rf("T")).when(Ex::Bool(true)).i(), f("a", ti(U64)).is(call("len", vec![nm("b")])).i(), it("b", arr(u(), num(2))), f("b", arr(u(), num(2))).via("add", vec![nm("a")], None).i(), f("b", u()).is(bin(Bop::Add, nm("a"), nm("c"))).i(),
        f("c", u()).when(Ex::Bool(true)).i(), f("a", u()).when(Ex::Bool(true)).i(), it("a", cont(vec![it("b", u()), it("c", arr(u(), nm("b")))])), it("c", tagged(vec![it("b", u())])), f("a", u()).when(bin(Bop::Eq, nm("k"), num(1))).i(), it("b", arr(u(), nm("k"))), f("c", u()).is(bin(Bop::Elvis, nm("a"), num(1))).i(),
        f("c", ti(U64)).is(bin(Bop::Add, call("blen", vec![nm("a")]), call("blen", vec![nm("b")]))).i(), f("c", u()).is(nm("a")).when(bin(Bop::Eq, nm("b"), num(1))).i(), f("a", contl(num(9), vec![it("c", u())])).via("add", vec![nm("b")], None).i(), it("c", arr(cont(vec![it("x", u())]), num(2))), it("c", en(U8, &[("X", v(1))])),
        f("b", contl(nm("a"), vec![it("x", rest(u()))])).is(nm("a")).i(), it("c", contl(nm("a"), vec![it("x", contl(nm("b"), vec![it("y", rest(u()))]))])), it("a", rf("Qq")), it("a", arr(arr(u(), num(2)), nm("b"))),
    ]
}
fn containers(thorough: bool, out: &mut Out) {
    let all = field_forms();
    let t = |items: Vec<&Item>, kind: u8| {
        let items: Vec<Item> = items.into_iter().cloned().collect();
        let ty = match kind { 0 => cont(items), 1 => tagged(items), _ => contl(nm("k"), items) };
        vec![D::Ffi("add".into(), "transform"), D::Ty(decl("T", ty).po("k", ti(U8), num(1)))]
    };
    for kind in 0..3u8 {
        out("no field", &|| t(vec![], kind));
        for a in &all {
            out("a field", &|| t(vec![a], kind));
            for b in &all {
                out("two fields", &|| t(vec![a, b], kind));
                if kind < 2 || thorough { for c in &all { out("three fields", &|| t(vec![a, b, c], kind)); } }
            }
        }
    }
    if thorough { for a in all.iter().step_by(2) { for b in all.iter().step_by(2) { for c in all.iter().step_by(2) { for d in all.iter().step_by(2) { out("four fields", &|| t(vec![a, b, c, d], 0)); } } } } }
}

// ------------------------------------------------------------ items of enums and bitfields
fn items(thorough: bool, out: &mut Out) {
    let neg = |x: u128| un(Uop::Neg, num(x));
    let vals = || vec![EVal::Next, EVal::Default, v(1), v(0), v(2), v(127), v(128), v(254), v(255), v(256), v(32767), v(65535), v(65536), EVal::Ex(neg(1)), EVal::Ex(lits(1, U8)), EVal::Ex(nm("K")), EVal::Ex(bin(Bop::Add, nm("K"), num(1))), EVal::Ex(Ex::Bool(true)), EVal::Ex(castt(var("E", "A"), ti(U8))), EVal::Ex(neg(128)), EVal::Ex(bin(Bop::Sub, neg(127), num(1)))];
    let some = || vec![EVal::Next, EVal::Default, v(1), v(2), v(255), v(127), EVal::Ex(neg(1))];
    let p = |d: Decl| vec![D::Const("K".into(), ti(U8), num(2)), D::Ty(decl("E", en(U8, &[("A", v(1))]))), D::Ty(d)];
    let reps: &[Sc] = if thorough { &[U8, I8, U16, I16, U32, I64, U128, I128] } else { &[U8, I8, U16, I128] };
    for s in reps {
        let s = *s;
        let names = ["A", "B", "C"];
        let second = if thorough { vals() } else { some() };
        for a in vals() {
            out("an enum item", &|| p(decl("T", en(s, &[("A", a.clone())]))));
            for b in &second { for n in &names[..2] {
                out("two enum items", &|| p(decl("T", en(s, &[("A", a.clone()), (n, b.clone())]))));
                for c in some() { for m in ["A", "C"] { out("three enum items", &|| p(decl("T", en(s, &[("A", a.clone()), (n, b.clone()), (m, c.clone())])))); } }
            } }
        }
        let flags: Vec<Option<Ex>> = vals().into_iter().filter_map(|v| match v { EVal::Next => Some(None), EVal::Default => None, EVal::Ex(e) => Some(Some(e)) }).collect();
        let few: Vec<Option<Ex>> = vec![None, Some(num(1)), Some(num(128)), Some(num(0)), Some(neg(1))];
        for a in &flags {
            out("a flag", &|| p(decl("T", bf(s, &[("A", a.clone())]))));
            for b in if thorough { &flags } else { &few } { for n in &names[..2] {
                out("two flags", &|| p(decl("T", bf(s, &[("A", a.clone()), (n, b.clone())]))));
                for c in &few { for m in ["A", "C"] { out("three flags", &|| p(decl("T", bf(s, &[("A", a.clone()), (n, b.clone()), (m, c.clone())])))); } }
            } }
        }
        // flags that continue
        for n in 1..=20usize { out("many flags", &|| p(decl("T", Ty::Bits(s, false, (0..n).map(|i| (format!("F{}", i), if i == 0 { Some(num(1)) } else { None })).collect())))); }
        for first in [0u128, 1, 120, 126, 127, 250, 254] { for n in 1..=8usize { out("many enum items", &|| p(decl("T", Ty::Enum(s, false, (0..n).map(|i| (format!("F{}", i), if i == 0 { v(first) } else { EVal::Next })).collect())))); } }
    }
}

// ------------------------------------------------------------ parameters and arguments
fn arguments(thorough: bool, out: &mut Out) {
    let params: Vec<(Ty, Option<Ex>)> = vec![(ti(U8), None), (ti(U8), Some(num(1))), (Ty::Bool, None), (rf("E"), None), (rf("E"), Some(var("E", "A"))), (ti(U16), Some(nm("p0"))), (ti(U16), Some(lits(1, U8))), (rf("Al"), None), (arr(ti(U8), num(2)), None), (ti(U8), Some(num(300))), (rf("Co"), None), (Ty::F32, None)];
    let args: Vec<Ex> = vec![num(1), num(300), lits(1, U16), Ex::Bool(true), var("E", "A"), nm("q"), nm("f"), nm("s")];
    let mut lists: Vec<Vec<Ex>> = vec![vec![]];
    for a in &args { lists.push(vec![a.clone()]); for b in &args { lists.push(vec![a.clone(), b.clone()]); } }
    lists.push(vec![num(1); 3]);
    let mut ps: Vec<Vec<(Ty, Option<Ex>)>> = vec![vec![]];
    for a in &params { ps.push(vec![a.clone()]); for b in &params { ps.push(vec![a.clone(), b.clone()]); if thorough { for c in params.iter().step_by(3) { ps.push(vec![a.clone(), b.clone(), c.clone()]); } } } }
    type Place = fn(Ty) -> Decl;
    let places: [Place; 5] = [
        |t| decl("T", cont(vec![it("f", ti(U8)), it("s", arr(ti(U8), num(2))), it("x", t)])).p("q", ti(U8)),
        |t| decl("T", t).p("q", ti(U8)),
        |t| decl("T", cont(vec![it("f", ti(U8)), it("s", arr(ti(U8), num(2))), it("x", arr(t, nm("f")))])).p("q", ti(U8)),
        |t| decl("T", cont(vec![it("f", ti(U8)), it("s", arr(ti(U8), num(2))), it("x", cont(vec![fld("y", t).when(bin(Bop::Eq, nm("f"), num(1))).i()]))])).p("q", ti(U8)),
        |t| decl("T", cont(vec![it("f", ti(U8)), it("s", arr(ti(U8), num(2))), fld("x", ti(U8)).is(castt(nm("f"), t)).i()])).p("q", ti(U8)),
    ];
    for p in &ps { for l in &lists { for (k, place) in places.iter().enumerate() { for same in [false, true] {
        if same && p.len() < 2 || same && l.len() > 1 || !thorough && p.len() > 1 && k > 1 { continue }
        out("parameters and arguments", &|| {
            let mut d = decl("P", ti(U8));
            for (i, (t, x)) in p.iter().enumerate() { d.params.push((if same { "p0".into() } else { format!("p{}", i) }, t.clone(), x.clone())); }
            vec![D::Ty(decl("E", en(U8, &[("A", v(1))]))), D::Ty(decl("Al", ti(U8))), D::Ty(decl("Co", cont(vec![]))), D::Ty(d), D::Ty(place(rfa("P", l.clone())))]
        });
    } } } }
}
