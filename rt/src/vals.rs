//! Bounded enumeration of values of a specification, consistent or not.
use crate::ast::*;
use crate::sem::{flatten, foreign, repr_items, Fk};

/// names that act as sizes / as conditions in a specification
fn names(e: &Ex, out: &mut Vec<String>) {
    match e {
        Ex::Name(n) => out.push(n.clone()),
        Ex::Bin(_, a, b) | Ex::Index(a, b) => { names(a, out); names(b, out) }
        Ex::Un(_, a) | Ex::Cast(a, _) | Ex::Paren(a) | Ex::Member(a, _) => names(a, out),
        Ex::Tern(a, b, c) => { names(a, out); names(b, out); names(c, out) }
        Ex::Call(_, a) => for x in a { names(x, out) },
        _ => (),
    }
}
fn uses(t: &Ty, size: &mut Vec<String>, cond: &mut Vec<String>) {
    match t {
        Ty::Arr(t, l) => { uses(t, size, cond); if let Len::Fix(e) = l { names(e, size) } }
        Ty::Cont(c) => {
            if let Some(e) = &c.len { names(e, size) }
            for i in &c.items { match i { Item::Pad(e) => names(e, size), Item::F(f) => {
                uses(&f.ty, size, cond);
                for e in f.cond.iter().chain(f.xf.iter().flat_map(|x| x.cond.iter().chain(x.args.iter()))) { names(e, cond) }
            } } }
        }
        Ty::Ref(_, a) => for e in a { names(e, size) },
        _ => (),
    }
}

pub struct Gen<'a> { pub spec: &'a Spec, pub cap: usize, pub maxlen: usize, pub rich: bool, size: Vec<String>, cond: Vec<String> }

/// odometer over choices; the first element of each domain is the default.
/// All combinations if there are at most `cap`, otherwise all with at most k
/// deviations from the defaults, k the largest that stays within `cap`.
pub fn combine(doms: &[Vec<Val>], cap: usize) -> Vec<Vec<Val>> {
    if doms.iter().any(|d| d.is_empty()) { return vec![]; }
    let total = doms.iter().fold(1u128, |a, d| a.saturating_mul(d.len() as u128));
    if total <= cap as u128 {
        let mut out = vec![vec![]];
        for d in doms { out = out.into_iter().flat_map(|p: Vec<Val>| d.iter().map(move |v| { let mut q = p.clone(); q.push(v.clone()); q })).collect(); }
        return out;
    }
    let mut best: Vec<Vec<Val>> = vec![];
    for k in 0..=doms.len() {
        let mut out = vec![];
        fn go(doms: &[Vec<Val>], i: usize, k: usize, cur: &mut Vec<Val>, out: &mut Vec<Vec<Val>>, cap: usize) {
            if out.len() > cap { return; }
            if i == doms.len() { out.push(cur.clone()); return; }
            cur.push(doms[i][0].clone());
            go(doms, i + 1, k, cur, out, cap);
            cur.pop();
            if k > 0 { for v in &doms[i][1..] { cur.push(v.clone()); go(doms, i + 1, k - 1, cur, out, cap); cur.pop(); } }
        }
        go(doms, 0, k, &mut vec![], &mut out, cap);
        if out.len() > cap { break; }
        best = out;
    }
    best
}

impl<'a> Gen<'a> {
    pub fn new(spec: &'a Spec, cap: usize, rich: bool) -> Gen<'a> {
        let (mut size, mut cond) = (vec![], vec![]);
        for d in &spec.decls {
            uses(&d.body.ty, &mut size, &mut cond);
            for e in d.body.cond.iter().chain(d.body.xf.iter().flat_map(|x| x.cond.iter().chain(x.args.iter()))) { names(e, &mut cond) }
        }
        Gen { spec, cap, maxlen: if rich { 3 } else { 2 }, rich, size, cond }
    }
    pub fn root(&self) -> Vec<Val> { self.decl(self.spec.root_decl(), 0, self.cap) }
    fn decl(&self, d: &Decl, depth: usize, cap: usize) -> Vec<Val> {
        let mut v = match &d.body.ty {
            Ty::Cont(c) if c.tagged => {
                let mut out = vec![];
                for (i, it) in c.items.iter().enumerate() {
                    let Item::F(f) = it else { panic!() };
                    let pay = match &f.ty { Ty::Cont(sc) => self.structs(sc, depth, cap / c.items.len()), t => self.dom(f, t, depth) };
                    out.extend(pay.into_iter().map(|p| Val::V(i, Box::new(p))));
                }
                out
            }
            Ty::Cont(c) => self.structs(c, depth, cap),
            Ty::Enum(..) | Ty::Bits(..) => self.repr(&d.name),
            t => { let mut v = self.dom(&d.body, t, depth); if d.body.cond.is_some() { v.push(Val::Nil); } v }
        };
        v.truncate(cap);
        v
    }
    fn structs(&self, c: &Cont, depth: usize, cap: usize) -> Vec<Val> {
        let doms: Vec<Vec<Val>> = flatten(c).iter().map(|x| {
            if x.f.calc.is_some() { let mut d = self.dom(x.f, &x.f.ty, depth); d.truncate(1); if x.optional { d.push(Val::Nil) } return d; }
            let mut d = self.dom(x.f, &x.f.ty, depth);
            if x.optional { d.insert(1.min(d.len()), Val::Nil); }
            d
        }).collect();
        combine(&doms, cap).into_iter().map(Val::R).collect()
    }
    fn repr(&self, name: &str) -> Vec<Val> {
        let (is_enum, sc, _, items) = repr_items(self.spec, name).expect("constant discriminants");
        let mut v: Vec<u128> = items.iter().filter_map(|x| x.1).collect();
        if is_enum {
            if items.iter().any(|x| x.1.is_none()) { for x in [0, 1, 0x42, sc.max_bits(), sc.min_bits(), sc.mask()] { if !v.contains(&x) { v.push(x) } } }
        } else {
            let all = v.iter().fold(0, |a, b| a | b);
            v.push(0); v.push(all);
            if v.len() > 2 { v.push(v[0] | v[1]); }
            for b in [0u128, 1, 3, 7] { let x = (1u128 << b) & sc.mask(); if x & !all != 0 { v.push(x | v[0]); break; } }
        }
        let mut out: Vec<Val> = vec![];
        for x in v { if !out.contains(&Val::I(x)) { out.push(Val::I(x)); } }
        out
    }
    fn dom(&self, f: &Field, t: &Ty, depth: usize) -> Vec<Val> {
        if let Some(d) = &f.dom { return d.clone(); }
        if let Ty::Int(s, _) = t {
            if self.size.contains(&f.name) { return if self.rich { [2u128, 0, 1, 3, s.max_bits()].iter().map(|x| Val::I(*x)).collect() } else { [2u128, 0, 1, 3].iter().map(|x| Val::I(*x)).collect() }; }
            if self.cond.contains(&f.name) { return [1u128, 0, 2, s.mask()].iter().map(|x| Val::I(*x)).collect(); }
        }
        self.ty(t, depth, self.cap)
    }
    pub fn ty(&self, t: &Ty, depth: usize, cap: usize) -> Vec<Val> {
        match t {
            Ty::Int(s, _) => self.ints(*s, depth),
            Ty::F32 => [0x3fc00000u64, 0, 0x80000000, 0x7f800000, 0x00000001, 0x12345678].iter().take(if depth > 0 { 2 } else { 6 }).map(|x| Val::F(*x)).collect(),
            Ty::F64 => [0x3ff8000000000000u64, 0, 1 << 63, 0x7ff0000000000000, 1, 0x123456789abcdef0].iter().take(if depth > 0 { 2 } else { 6 }).map(|x| Val::F(*x)).collect(),
            Ty::Bool => vec![Val::B(true), Val::B(false)],
            Ty::Arr(t, _) => {
                if depth > 3 { return vec![Val::A(vec![])]; }
                let el = self.ty(t, depth + 1, 12);
                let mut out = vec![];
                // the default length is 2 so that it differs from 0 and 1
                let lens: Vec<usize> = if self.maxlen >= 3 { vec![2, 0, 1, 3] } else { vec![2, 0, 1] };
                for n in lens {
                    let per = (cap / 4).clamp(2, 14);
                    if n == 0 { out.push(Val::A(vec![])); continue; }
                    // a rotated run makes neighbouring elements differ
                    let doms: Vec<Vec<Val>> = (0..n).map(|i| { let mut d = el.clone(); let k = i % d.len().max(1); d.rotate_left(k); d }).collect();
                    out.extend(combine(&doms, per).into_iter().map(Val::A));
                }
                out
            }
            Ty::Ref(n, a) => {
                if let Some(d) = self.spec.get(n) {
                    if depth > 4 { return vec![]; }
                    let mut v = self.decl(d, depth + 1, cap.min(24));
                    if depth > 0 { v.truncate(12); }
                    v
                } else {
                    match foreign(n).expect("type") {
                        Fk::Var(s) => {
                            let mut v = vec![];
                            for b in 1..=(s.bits() + 6) / 7 { for x in [1u128 << (7 * (b - 1)), if 7 * b >= 128 { u128::MAX } else { (1u128 << (7 * b)) - 1 }] { let x = x & s.mask(); if !v.contains(&x) { v.push(x) } } }
                            for x in [0, s.max_bits(), s.min_bits(), s.mask()] { if !v.contains(&x) { v.push(x) } }
                            if depth > 0 { v.truncate(4); }
                            v.into_iter().map(Val::I).collect()
                        }
                        fk => {
                            let mut s = vec!["ab", "", "a", "\u{e9}", "\u{65e5}", "\u{1d306}", "x\u{7ff}"];
                            if fk == Fk::Utf8 && a.is_empty() { s.push("a\0b"); }
                            if depth > 0 { s.truncate(4); }
                            s.into_iter().map(|x| Val::S(x.to_string())).collect()
                        }
                    }
                }
            }
            Ty::Enum(..) | Ty::Bits(..) | Ty::Cont(_) => panic!("no inline {:?}", t),
        }
    }
    fn ints(&self, s: Sc, depth: usize) -> Vec<Val> {
        // a value whose bytes all differ, then boundaries
        let pat = 0x1182_8384_8586_8788_898a_8b8c_8d8e_8f90u128 >> (128 - s.bits()) & s.mask();
        let mut v = vec![pat, 0, 1, s.mask(), s.max_bits(), s.max_bits().wrapping_add(1) & s.mask(), 0x80];
        if depth > 0 { v.truncate(3); }
        let mut out: Vec<Val> = vec![];
        for x in v { let x = Val::I(x & s.mask()); if !out.contains(&x) { out.push(x) } }
        out
    }
}
