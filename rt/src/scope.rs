//! Names: what a name stands for where the same one is declared in several places. A mark after ' says which declaration
//! is meant; it is not printed.
use crate::ast::*;
use crate::ast::Sc::*;

const KINDS: usize = 10;
/// an item that uses a number called n, under the name u
fn using(kind: usize, n: &str, u: &str) -> Item {
    let k = || nm(n);
    let more = bin(Bop::Gt, k(), lit(1, U8));
    match kind {
        0 => fld(u, ti(U16)).when(more).i(),
        1 => it(u, arr(ti(U8), k())),
        2 => Item::Pad(k()),
        3 => fld(u, contl(k(), vec![it(&format!("{}q", u), rest(ti(U8)))])).i(),
        4 => fld(u, ti(U8)).is(k()).i(),
        5 => it(u, rfa("P", vec![k()])),
        6 => fld(u, ti(U16)).via("xor", vec![], Some(more)).i(),
        7 => fld(u, ti(U8)).via("xor", vec![k()], None).i(),
        8 => fld(u, cont(vec![it(&format!("{}q", u), ti(U8))])).when(more).i(),
        _ => fld(u, ti(U16)).is(bin(Bop::Add, cast(k(), U16), lit(1, U16))).i(),
    }
}
fn calc(kind: usize) -> bool { kind == 4 || kind == 9 }

pub fn scope() -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    let f = "scope";
    let p = || decl("P", cont(vec![fld("c", ti(U8)).when(bin(Bop::Gt, nm("j"), lit(1, U8))).i(), it("e", ti(U8))])).p("j", ti(U8));
    let need_p = |k: usize| if k == 5 { vec![p()] } else { vec![] };
    let root = |param: bool| decl("T", cont(vec![fld("a", ti(U8)).ints(&[2, 0, 3]).i(), if param { it("m", rfa("M", vec![nm("a")])) } else { it("m", rf("M")) }, it("w", ti(U8))]));
    let done = |v: &mut Vec<Spec>, mut ds: Vec<Decl>, m: Ty, con: bool, par: bool| {
        let mut d = decl("M", m);
        if par { d = d.p("k'p", ti(U8)); }
        ds.push(d);
        ds.push(root(par));
        let mut s = spec(f, ds);
        if con { s = s.consts(vec![("k'c", ti(U8), lit(3, U8))]); }
        v.push(s);
    };
    // where the field k is: nowhere, before the inner container, in it before and after the use, in the innermost, after it all
    for kind in 0..KINDS {
        for (con, par) in [(false, false), (true, false), (false, true), (true, true)] {
            let outside = if par { Some("k'p") } else if con { Some("k'c") } else { None };
            for at in 0..6 {
                for used in 0..4 {
                    // used: in the inner container, in the one inside it, in a later one, outside after them
                    let here = Some("k'f");
                    let means = match (at, used) {
                        (0, _) => outside,
                        (1, _) => here,
                        (2, 0) | (2, 1) => here,
                        (2, _) => outside,
                        (3, 0) => if calc(kind) { here } else { outside },
                        (3, 1) => here,
                        (3, _) => outside,
                        (4, 1) => here,
                        (4, 0) if calc(kind) => outside,
                        (4, _) => outside,
                        (5, 3) => if calc(kind) { here } else { outside },
                        // what a field calculated in an inner container sees of what follows outside is left open
                        (5, _) if calc(kind) => continue,
                        _ => outside,
                    };
                    let Some(means) = means else { continue };
                    let k = || fld("k'f", ti(U8)).ints(&[1, 2, 0]).i();
                    let mut inner = vec![];
                    let mut deep = vec![];
                    let mut late = vec![it("l", ti(U8))];
                    let mut out = vec![it("x", ti(U8))];
                    if at == 1 { out.push(k()) }
                    if at == 2 { inner.push(k()) }
                    inner.push(it("y", ti(U8)));
                    if used == 0 { inner.push(using(kind, means, "u")) }
                    if at == 3 { inner.push(k()) }
                    if at == 4 { deep.push(k()) }
                    deep.push(it("d", ti(U8)));
                    if used == 1 { deep.push(using(kind, means, "u")) }
                    inner.push(it("deep", cont(deep)));
                    if used == 2 { late.push(using(kind, means, "u")) }
                    out.push(it("inner", cont(inner)));
                    out.push(it("late", cont(late)));
                    if used == 3 { out.push(using(kind, means, "u")) }
                    if at == 5 { out.push(k()) }
                    out.push(it("z", ti(U8)));
                    done(&mut v, need_p(kind), cont(out), con, par);
                }
            }
            // a field whose own type or condition uses its name
            if let Some(o) = outside {
                let own = match using(kind, o, "k'f") { Item::F(g) if !calc(kind) => g, _ => continue };
                for deep in [false, true] {
                    let mut items = vec![it("x", ti(U8)), own.clone().i(), it("z", ti(U8))];
                    if deep { items = vec![it("v", ti(U8)), it("n", cont(items)), it("y", arr(ti(U8), nm(o)))]; }
                    done(&mut v, need_p(kind), cont(items), con, par);
                }
                // twice: outside before the field, the field after it
                if matches!(kind, 0 | 1 | 2 | 5) {
                    for k2 in [0, 1, 2, 5] {
                        let items = vec![using(kind, o, "u"), fld("k'f", ti(U8)).ints(&[1, 2, 0]).i(), using(k2, "k'f", "s"), it("z", ti(U8))];
                        done(&mut v, if kind == 5 || k2 == 5 { vec![p()] } else { vec![] }, cont(items), con, par);
                    }
                }
            }
            // the length and the condition of a container and the names in it
            if kind < 3 {
                if let Some(o) = outside {
                    let items = || vec![fld("k'f", ti(U8)).ints(&[1, 2, 0]).i(), using(kind, "k'f", "u")];
                    done(&mut v, vec![], cont(vec![it("x", ti(U8)), fld("b", contl(nm(o), items())).i(), using(kind, o, "s"), it("z", ti(U8))]), con, par);
                    done(&mut v, vec![], cont(vec![it("x", ti(U8)), fld("b", cont(items())).when(bin(Bop::Gt, nm(o), lit(2, U8))).i(), using(kind, o, "s"), it("z", ti(U8))]), con, par);
                    done(&mut v, vec![], cont(vec![it("x", ti(U8)), fld("b", cont(items())).via("xor", vec![nm(o)], None).i(), using(kind, o, "s"), it("z", ti(U8))]), con, par);
                }
            }
            // variants of a tagged enum do not see each other
            for at in 0..3 {
                let (first, second) = match (at, outside) { (0, Some(o)) => (o, o), (1, Some(o)) => ("k'f", o), (2, Some(o)) => ("k'f", "k'g"), (2, None) => ("k'f", "k'g"), _ => continue };
                let own = |n: &str, u: &str| { let mut i = vec![]; if n == "k'f" || n == "k'g" { i.push(fld(n, ti(U8)).ints(&[1, 2, 0]).i()) } i.push(using(kind, n, u)); i.push(it(&format!("{}z", u), ti(U8))); cont(i) };
                let when = |x: u128| bin(Bop::Eq, nm("t"), lit(x, U8));
                let mut m = decl("M", tagged(vec![fld("A", own(first, "u")).when(when(1)).i(), fld("B", own(second, "s")).when(when(2)).i(), fld("C", match outside { Some(o) => arr(ti(U8), nm(o)), None => ti(U8) }).when(when(3)).i()])).p("t", ti(U8));
                if par { m = m.p("k'p", ti(U8)); }
                let mut ds = need_p(kind);
                ds.push(m);
                let mut args = vec![nm("t")];
                if par { args.push(nm("a")) }
                ds.push(decl("T", cont(vec![fld("t", ti(U8)).ints(&[1, 2, 3]).i(), fld("a", ti(U8)).ints(&[2, 0, 3]).i(), it("m", rfa("M", args)), it("w", ti(U8))])));
                let mut s = spec(f, ds);
                if con { s = s.consts(vec![("k'c", ti(U8), lit(3, U8))]); }
                v.push(s);
            }
        }
    }
    // a parameter of a type and what the caller calls so; defaults see parameters before constants
    for kind in 0..KINDS {
        let m = decl("M", cont(vec![using(kind, "k'p", "u"), it("z", ti(U8))])).p("k'p", ti(U8));
        let n = decl("N", cont(vec![it("x", rfa("M", vec![bin(Bop::Add, nm("k'n"), lit(1, U8))])), using(kind, "k'n", "s"), it("y", rfa("M", vec![nm("j")]))])).p("j", ti(U8)).p("k'n", ti(U8));
        let tt = || decl("T", cont(vec![fld("k'f", ti(U8)).ints(&[1, 2, 0]).i(), fld("j'f", ti(U8)).ints(&[2, 0]).i(), it("m", rfa("N", vec![nm("k'f"), nm("j'f")]))]));
        let mut ds = need_p(kind);
        ds.extend([m.clone(), n.clone(), tt()]);
        v.push(spec(f, ds.clone()));
        v.push(spec(f, ds).consts(vec![("k'c", ti(U8), lit(3, U8)), ("j'c", ti(U8), lit(1, U8))]));
        let o = decl("M", cont(vec![using(kind, "k'p", "u"), using(kind, "i", "s"), it("z", ti(U8))])).p("k'p", ti(U8)).po("i", ti(U8), nm("k'p"));
        let mut ds = need_p(kind);
        ds.extend([o, decl("T", cont(vec![fld("k'f", ti(U8)).ints(&[1, 2, 0]).i(), it("a", rfa("M", vec![lit(2, U8)])), it("b", ti(U8))]))]);
        v.push(spec(f, ds).consts(vec![("k'c", ti(U8), lit(3, U8))]));
        let o = decl("M", cont(vec![using(kind, "k'p", "u"), it("z", ti(U8))])).po("k'p", ti(U8), nm("h"));
        let mut ds = need_p(kind);
        ds.extend([o, decl("T", cont(vec![fld("h'f", ti(U8)).ints(&[1, 2, 0]).i(), it("a", rf("M")), it("c", rfa("M", vec![nm("h'f")])), it("b", ti(U8))]))]);
        v.push(spec(f, ds).consts(vec![("h", ti(U8), lit(3, U8))]));
    }
    // types, functions, transforms, enums and values have names of their own
    let e = || decl("E", Ty::Enum(U8, false, vec![("A".into(), EVal::Ex(lit(1, U8))), ("k".into(), EVal::Ex(lit(2, U8)))]));
    let g = |n: &str| fld(n, ti(U8)).ints(&[1, 2, 0]).i();
    let len = |x: &str| cast(call("len", vec![nm(x)]), U8);
    v.push(spec(f, vec![decl("T", cont(vec![g("len"), it("d", arr(ti(U8), nm("len"))), fld("e", ti(U8)).is(len("d")).i(), it("z", arr(ti(U8), nm("len")))]))]));
    v.push(spec(f, vec![decl("T", cont(vec![fld("n", ti(U8)).is(len("len")).i(), it("len", arr(ti(U8), nm("n"))), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("K", cont(vec![g("a"), it("d", arr(ti(U8), nm("a")))])), decl("T", cont(vec![it("K", rf("K")), g("n"), it("m", arr(rf("K"), nm("n")))]))]));
    v.push(spec(f, vec![decl("K", cont(vec![it("d", arr(ti(U8), nm("K")))])).p("K", ti(U8)), decl("T", cont(vec![g("K"), it("m", rfa("K", vec![nm("K")])), it("z", ti(U8))]))]));
    v.push(spec(f, vec![e(), decl("T", cont(vec![g("E"), g("A"), it("x", rf("E")), fld("y", ti(U8)).when(bin(Bop::Eq, nm("x"), Ex::Variant("E".into(), "A".into()))).i(), it("w", arr(ti(U8), nm("A"))), fld("z", ti(U16)).is(cast(nm("E"), U16)).i()]))]));
    v.push(spec(f, vec![e(), decl("T", cont(vec![g("k"), it("x", rf("E")), fld("y", ti(U8)).when(bin(Bop::Eq, nm("x"), Ex::Variant("E".into(), "k".into()))).i(), it("w", arr(ti(U8), nm("k")))]))]));
    v.push(spec(f, vec![decl("T", cont(vec![g("xor"), fld("d", ti(U8)).via("xor", vec![nm("xor")], None).i(), fld("e", ti(U8)).via("xor", vec![], Some(bin(Bop::Eq, nm("xor"), lit(1, U8)))).i()]))]));
    v.push(spec(f, vec![decl("T", cont(vec![g("utf8"), it("s", rfa("utf8", vec![nm("utf8")])), it("z", ti(U8))]))]));
    v.push(spec(f, vec![decl("U", cont(vec![g("b")])), decl("T", cont(vec![it("a", arr(rf("U"), nm("U"))), it("z", ti(U8))]))]).consts(vec![("U", ti(U8), lit(2, U8))]));
    v.push(spec(f, vec![decl("Q", cont(vec![it("T", arr(ti(U8), lit(2, U64))), it("Q", arr(ti(U8), nm("Q'c")))])), decl("T", cont(vec![it("Q", rf("Q")), g("T"), it("z", arr(ti(U8), nm("T")))]))]).consts(vec![("Q'c", ti(U8), lit(1, U8))]));
    for s in &mut v { s.big = s.big.max(400); }
    v
}
