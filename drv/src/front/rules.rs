//! The static rules of the language: an independent checker of programs, and their text.
use rt::ast::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub enum D { Ty(Decl), Const(String, Ty, Ex), Ffi(String, &'static str) }
pub fn text(p: &[D]) -> String {
    let mut s = String::new();
    for d in p {
        match d {
            D::Ffi(n, k) => s.push_str(&format!("import_ffi {} as {};\n", n, k)),
            D::Const(n, t, e) => s.push_str(&format!("const {}: {} = {};\n", n, pty(t), pex(e))),
            D::Ty(d) => {
                let ps: Vec<String> = d.params.iter().map(|(n, t, x)| format!("{}: {}{}", n, pty(t), x.as_ref().map(|x| format!(" ? {}", pex(x))).unwrap_or_default())).collect();
                s.push_str(&format!("type {}{} = {};\n", d.name, if ps.is_empty() { String::new() } else { format!("({})", ps.join(", ")) }, pfield(&d.body)));
            }
        }
    }
    s
}

/// types as far as values are concerned: there is no endianness, and no length of an array
#[derive(Clone, Debug, PartialEq)]
enum T { I(Sc), F32, F64, B, Arr(Box<T>), En(usize), Bf(usize), V(Sc), S, Anon, Cont(usize), Al(usize) }
/// what a context asks for
#[derive(Clone, Debug, PartialEq)]
enum X { Any, Ord, Is(T), Arr, Len }
type R<V> = Result<V, String>;
fn no<V>(s: impl Into<String>) -> R<V> { Err(s.into()) }

struct Fd { ty: T, cond: bool, delimited: bool }
#[derive(Default)]
struct Scope { fields: Vec<HashMap<String, usize>>, inputs: HashMap<String, T> }
pub struct Ck<'a> {
    p: &'a [D], types: HashMap<&'a str, usize>, consts: HashMap<&'a str, usize>, ffi: HashSet<(&'static str, &'a str)>,
    alias: HashMap<usize, (T, bool)>, fds: Vec<Fd>, blens: Vec<usize>,
    /// declarations before this are visible to constants
    upto: usize,
}
fn foreign(n: &str) -> Option<T> { Some(match n { "v8" => T::V(Sc::I8), "v16" => T::V(Sc::I16), "v32" => T::V(Sc::I32), "v64" => T::V(Sc::I64), "v128" => T::V(Sc::I128), "utf8" | "utf16" => T::S, _ => return None }) }
fn rep_of(d: &Decl) -> Option<Sc> { match &d.body.ty { Ty::Enum(s, ..) | Ty::Bits(s, ..) => Some(*s), _ => None } }
fn widens(a: Sc, b: Sc) -> bool { a.signed() == b.signed() && a.bytes() <= b.bytes() }
/// a typed expression; whether it is the value of a conditional field; the sibling it refers to
struct E { t: T, absent: bool, field: Option<usize> }

/// Ok if the program keeps all rules, otherwise a rule it breaks
pub fn check(p: &[D]) -> R<()> {
    let mut c = Ck { p, types: HashMap::new(), consts: HashMap::new(), ffi: HashSet::new(), alias: HashMap::new(), fds: vec![], blens: vec![], upto: usize::MAX };
    c.program()
}
impl<'a> Ck<'a> {
    fn d(&self, i: usize) -> &'a Decl { match &self.p[i] { D::Ty(d) => d, _ => panic!() } }
    fn is_alias(d: &Decl) -> bool { !matches!(d.body.ty, Ty::Cont(_) | Ty::Enum(..) | Ty::Bits(..)) }
    fn program(&mut self) -> R<()> {
        for f in ["len", "blen"] { self.ffi.insert(("function", f)); }
        for d in self.p { if let D::Ffi(n, k) = d {
            let known = match *k { "type" => foreign(n).is_some(), "transform" => ["gzip", "base64", "xor", "add", "frame", "hold"].contains(&&**n), _ => ["len", "blen", "pad", "bits", "sum"].contains(&&**n) };
            if !known { return no("unknown import_ffi"); }
            if !self.ffi.insert((k, n)) { return no("import_ffi twice"); }
        } }
        for (i, d) in self.p.iter().enumerate() { match d {
            D::Ty(d) => { if self.ffi.contains(&("type", &*d.name)) || self.types.insert(&d.name, i).is_some() { return no("type declared twice"); } }
            D::Const(n, ..) => { if self.consts.insert(n, i).is_some() { return no("constant declared twice"); } }
            _ => (),
        } }
        self.dependencies()?;
        // constants, enums and bitfields, in the order they are written
        for i in 0..self.p.len() {
            self.upto = i;
            match &self.p[i] {
                D::Const(_, ct, e) => {
                    if matches!(ct, Ty::Cont(_) | Ty::Enum(..) | Ty::Bits(..)) { return no("constant of a new type"); }
                    let s = Scope::default();
                    let t = self.ty(ct, &s, false)?;
                    self.value(e, &X::Is(t), &s)?;
                    self.constant(ct, e)?;
                }
                D::Ty(d) if rep_of(d).is_some() => {
                    let s = self.params(d)?;
                    self.body(d, i, &s)?;
                }
                _ => (),
            }
        }
        self.upto = usize::MAX;
        for i in 0..self.p.len() { if let D::Ty(d) = &self.p[i] { if rep_of(d).is_none() {
            let s = self.params(d)?;
            self.body(d, i, &s)?;
        } } }
        for i in 0..self.p.len() { if let D::Ty(d) = &self.p[i] { let mut seen = HashSet::new(); if self.holds(&d.body.ty, i, &mut seen) { return no("a type that always holds itself"); } } }
        Ok(())
    }
    /// whether every value of the type holds one of declaration `of`
    fn holds(&self, t: &Ty, of: usize, seen: &mut HashSet<usize>) -> bool {
        match t {
            Ty::Ref(n, _) => match self.types.get(&**n) { Some(i) => *i == of || seen.insert(*i) && self.holds(&self.d(*i).body.ty, of, seen), None => false },
            Ty::Cont(c) => c.items.iter().any(|i| match i { Item::F(f) => self.holds(&f.ty, of, seen), _ => false }),
            _ => false,
        }
    }
    /// a declaration must not depend on itself other than through the fields of a container
    fn dependencies(&self) -> R<()> {
        fn ty<'b>(t: &'b Ty, out: &mut Vec<&'b str>) {
            match t {
                Ty::Ref(n, a) => { out.push(n); for e in a { ex(e, out) } }
                Ty::Arr(t, l) => { ty(t, out); match l { Len::Fix(e) | Len::Term(e) => ex(e, out), _ => () } }
                _ => (),
            }
        }
        fn ex<'b>(e: &'b Ex, out: &mut Vec<&'b str>) {
            match e {
                Ex::Bin(_, a, b) | Ex::Index(a, b) => { ex(a, out); ex(b, out) }
                Ex::Un(_, a) | Ex::Paren(a) | Ex::Member(a, _) => ex(a, out),
                Ex::Cast(a, t) => { ex(a, out); ty(t, out) }
                Ex::Tern(a, b, c) => { ex(a, out); ex(b, out); ex(c, out) }
                Ex::Call(_, v) => for a in v { ex(a, out) },
                _ => (),
            }
        }
        let edges = |i: usize| {
            let d = self.d(i);
            let mut v = vec![];
            for p in &d.params { ty(&p.1, &mut v); if let Some(e) = &p.2 { ex(e, &mut v) } }
            if Self::is_alias(d) {
                ty(&d.body.ty, &mut v);
                for e in &d.body.cond { ex(e, &mut v) }
                for x in &d.body.xf { for e in x.args.iter().chain(&x.cond) { ex(e, &mut v) } }
            }
            v.into_iter().filter_map(|n| self.types.get(n).copied()).filter(|i| rep_of(self.d(*i)).is_none()).collect::<Vec<_>>()
        };
        for &start in self.types.values() {
            if rep_of(self.d(start)).is_some() { continue }
            let mut seen = HashSet::new();
            let mut todo = edges(start);
            while let Some(i) = todo.pop() { if i == start { return no("a declaration depends on itself"); } if seen.insert(i) { todo.extend(edges(i)); } }
        }
        Ok(())
    }
    fn params(&mut self, d: &'a Decl) -> R<Scope> {
        let mut s = Scope::default();
        for (n, t, def) in &d.params {
            if matches!(t, Ty::Cont(_)) { return no("parameter of a new type"); }
            let t = self.ty(t, &s, false)?;
            if s.inputs.contains_key(n) { return no("parameter twice"); }
            if let Some(e) = def { self.value(e, &X::Is(t.clone()), &s)?; }
            s.inputs.insert(n.clone(), t);
        }
        Ok(s)
    }
    fn body(&mut self, d: &'a Decl, i: usize, s: &Scope) -> R<()> {
        let f = &d.body;
        match &f.ty {
            Ty::Enum(sc, _, items) => {
                let mut seen: Vec<(&str, i128)> = vec![];
                let (mut last, mut n, mut done) = (None, 0i128, false);
                for (name, v) in items {
                    if done { return no("enum item after the default"); }
                    if seen.iter().any(|x| x.0 == name) { return no("enum item twice"); }
                    match v {
                        EVal::Default => done = true,
                        EVal::Ex(e) => { self.value(e, &X::Is(T::I(*sc)), s)?; let x = self.int(e, *sc)?; if seen.iter().any(|y| y.1 == x) { return no("enum value twice"); } seen.push((name, x)); last = Some(x); n = 1; }
                        EVal::Next => {
                            let Some(l) = last else { return no("first enum item without value") };
                            let x = l.checked_add(n).filter(|x| fits(*x, *sc)).ok_or("enum value out of range")?;
                            if seen.iter().any(|y| y.1 == x) { return no("enum value twice"); }
                            seen.push((name, x)); n += 1;
                        }
                    }
                }
            }
            Ty::Bits(sc, _, items) => {
                let mut seen: HashSet<String> = HashSet::new();
                let (mut first, mut n) = (true, 0u32);
                for (name, v) in items {
                    if !seen.insert(name.clone()) { return no("flag twice"); }
                    match v {
                        Some(e) => { self.value(e, &X::Is(T::I(*sc)), s)?; self.int(e, *sc)?; first = false; n = 1; }
                        None => { if first { return no("first flag without value"); } if n >= sc.bits() { return no("flag out of range"); } n += 1; }
                    }
                }
            }
            _ => (),
        }
        if f.cond.is_some() && !Self::is_alias(d) { return no("condition on a declared type"); }
        let t = match &f.ty { Ty::Enum(..) => T::En(i), Ty::Bits(..) => T::Bf(i), Ty::Cont(c) => { self.container(c, s, true)?; T::Anon } t => self.ty(t, s, false)? };
        self.attributes(f, s)?;
        if let Some(e) = &f.calc { let n = self.blens.len(); self.value(e, &X::Is(t), s)?; if self.blens.len() > n { return no("blen"); } }
        Ok(())
    }
    fn attributes(&mut self, f: &'a Field, s: &Scope) -> R<()> {
        let n = self.blens.len();
        if let Some(e) = &f.cond { self.value(e, &X::Is(T::B), s)?; }
        for x in &f.xf {
            if !self.ffi.contains(&("transform", &*x.name)) { return no("unknown transform"); }
            let max = if ["xor", "add"].contains(&&*x.name) { 1 } else { 0 };
            if x.args.len() > max { return no("transform arguments"); }
            for e in &x.args { self.value(e, &X::Is(T::I(Sc::U8)), s)?; }
            if let Some(e) = &x.cond { self.value(e, &X::Is(T::B), s)?; }
        }
        if self.blens.len() > n { return no("blen"); }
        Ok(())
    }
    fn container(&mut self, c: &'a Cont, s: &Scope, top: bool) -> R<()> {
        let n = self.blens.len();
        if let Some(e) = &c.len { self.value(e, &X::Len, s)?; }
        if self.blens.len() > n { return no("blen"); }
        if c.tagged && !top { return no("tagged enum inside"); }
        let mut sub = Scope { fields: s.fields.clone(), inputs: s.inputs.clone() };
        sub.fields.push(HashMap::new());
        let mut always = false;
        let mut order: Vec<(String, usize, &'a Field)> = vec![];
        for it in &c.items {
            match it {
                Item::Pad(e) => {
                    if c.tagged { return no("pad in a tagged enum"); }
                    let n = self.blens.len();
                    self.value(e, &X::Is(T::I(Sc::U64)), &sub)?;
                    if self.blens.len() > n { return no("blen"); }
                }
                Item::F(f) => {
                    if sub.fields.last().unwrap().contains_key(&f.name) { return no("field twice"); }
                    if c.tagged && always { return no("field after an unconditional one"); }
                    always |= f.cond.is_none();
                    let n = self.blens.len();
                    let (t, delimited) = match &f.ty { Ty::Cont(c) => { self.container(c, &sub, false)?; (T::Anon, c.len.is_some()) } t => (self.ty(t, &sub, true)?, false) };
                    if self.blens.len() > n && !matches!(f.ty, Ty::Cont(_)) { return no("blen"); }
                    self.attributes(f, &sub)?;
                    self.fds.push(Fd { ty: t, cond: f.cond.is_some(), delimited });
                    sub.fields.last_mut().unwrap().insert(f.name.clone(), self.fds.len() - 1);
                    order.push((f.name.clone(), self.fds.len() - 1, f));
                }
            }
        }
        if c.tagged && c.items.is_empty() { return no("tagged enum without fields"); }
        // calculated fields see the whole container
        let mut deps: HashMap<usize, Vec<usize>> = HashMap::new();
        for (_, i, f) in &order {
            if let Some(e) = &f.calc {
                let n = self.blens.len();
                self.value(e, &X::Is(self.fds[*i].ty.clone()), &sub)?;
                for b in self.blens.split_off(n) { if !(self.fds[b].delimited && order.iter().any(|o| o.1 == b)) { return no("blen"); } }
                let mut names = vec![];
                refs(e, &mut names);
                deps.insert(*i, names.iter().filter_map(|n| sub.fields.last().unwrap().get(*n).copied()).collect());
            }
        }
        self.cyclic(&order, &deps, &sub)
    }
    /// calculated fields must not depend on themselves, also not through the containers whose encoded length they use
    fn cyclic(&self, order: &[(String, usize, &'a Field)], deps: &HashMap<usize, Vec<usize>>, sub: &Scope) -> R<()> {
        let mut deps = deps.clone();
        for (_, i, f) in order {
            let by_blen = order.iter().any(|(_, _, g)| g.calc.as_ref().map_or(false, |e| blens(e).contains(&f.name)));
            if by_blen {
                let mut names: Vec<String> = vec![];
                inner_refs(&f.ty, &mut names);
                for e in &f.cond { let mut v = vec![]; refs(e, &mut v); names.extend(v.iter().map(|x| x.to_string())); }
                for x in &f.xf { for e in x.args.iter().chain(&x.cond) { let mut v = vec![]; refs(e, &mut v); names.extend(v.iter().map(|x| x.to_string())); } }
                deps.entry(*i).or_default().extend(names.iter().filter_map(|n| sub.fields.last().unwrap().get(n).copied()));
            }
        }
        for (_, start, _) in order {
            let mut seen = HashSet::new();
            let mut todo: Vec<usize> = deps.get(start).cloned().unwrap_or_default();
            while let Some(i) = todo.pop() { if i == *start { return no("a calculated field depends on itself"); } if seen.insert(i) { todo.extend(deps.get(&i).cloned().unwrap_or_default()); } }
        }
        Ok(())
    }
    fn decl_of(&self, n: &str) -> Option<usize> { self.types.get(n).copied().filter(|i| self.upto == usize::MAX || *i < self.upto && rep_of(self.d(*i)).is_some()) }
    /// the type a reference without its arguments stands for
    fn named(&mut self, n: &str) -> R<T> {
        if self.ffi.contains(&("type", n)) { return Ok(foreign(n).unwrap()); }
        let Some(i) = self.decl_of(n) else { return no("unknown type") };
        Ok(match &self.d(i).body.ty { Ty::Enum(..) => T::En(i), Ty::Bits(..) => T::Bf(i), Ty::Cont(_) => T::Cont(i), _ => T::Al(i) })
    }
    /// what an alias stands for, and whether it may be absent
    fn target(&mut self, i: usize) -> R<(T, bool)> {
        if let Some(x) = self.alias.get(&i) { return Ok(x.clone()); }
        let d = self.d(i);
        fn shallow<'b>(me: &mut Ck<'b>, t: &'b Ty) -> R<T> {
            Ok(match t { Ty::Int(s, _) => T::I(*s), Ty::F32 => T::F32, Ty::F64 => T::F64, Ty::Bool => T::B, Ty::Arr(t, _) => T::Arr(Box::new(shallow(me, t)?)), Ty::Ref(n, _) => me.named(n)?, _ => T::Anon })
        }
        let t = shallow(self, &d.body.ty)?;
        let opt = d.body.cond.is_some() || match t { T::Al(j) => self.target(j)?.1, _ => false };
        self.alias.insert(i, (t.clone(), opt));
        Ok((t, opt))
    }
    fn plain(&mut self, t: &T) -> R<T> { match t { T::Al(i) => { let t = self.target(*i)?.0; self.plain(&t) } t => Ok(t.clone()) } }
    fn ty(&mut self, t: &'a Ty, s: &Scope, _field: bool) -> R<T> {
        Ok(match t {
            Ty::Int(s, _) => T::I(*s), Ty::F32 => T::F32, Ty::F64 => T::F64, Ty::Bool => T::B,
            Ty::Cont(_) | Ty::Enum(..) | Ty::Bits(..) => return no("a new type inside another"),
            Ty::Arr(e, l) => {
                match l { Len::Fix(x) => { self.value(x, &X::Is(T::I(Sc::U64)), s)?; } Len::Term(x) => { self.value(x, &X::Is(T::Arr(Box::new(T::I(Sc::U8)))), s)?; } Len::Rest => () }
                T::Arr(Box::new(self.ty(e, s, false)?))
            }
            Ty::Ref(n, args) => {
                let out = self.named(n)?;
                if let Some(i) = self.decl_of(n) {
                    let d = self.d(i);
                    let need = d.params.iter().rposition(|p| p.2.is_none()).map_or(0, |x| x + 1);
                    if args.len() < need || args.len() > d.params.len() { return no("number of arguments"); }
                    // the types of parameters, in the scope of that declaration
                    for (e, p) in args.iter().zip(&d.params) {
                        fn shallow<'b>(me: &mut Ck<'b>, t: &'b Ty) -> R<T> { Ok(match t { Ty::Int(s, _) => T::I(*s), Ty::F32 => T::F32, Ty::F64 => T::F64, Ty::Bool => T::B, Ty::Arr(t, _) => T::Arr(Box::new(shallow(me, t)?)), Ty::Ref(n, _) => me.named(n)?, _ => return no("parameter of a new type") }) }
                        let t = shallow(self, &p.1)?;
                        self.value(e, &X::Is(t), s)?;
                    }
                } else {
                    let max = if out == T::S { 1 } else { 0 };
                    if args.len() > max { return no("number of arguments"); }
                    for e in args { self.value(e, &X::Is(T::I(Sc::U64)), s)?; }
                }
                out
            }
        })
    }
    fn opaque(t: &T) -> bool { *t == T::S }
    /// whether a value of type t is one of what is asked for
    fn is(&mut self, x: &X, t: &T) -> R<bool> {
        let p = self.plain(t)?;
        Ok(match x {
            X::Any => true,
            X::Ord => matches!(p, T::I(_) | T::V(_) | T::F32 | T::F64 | T::B | T::En(_)),
            X::Arr => matches!(p, T::Arr(_)),
            // varints can be lengths of containers, too
            X::Len => matches!(p, T::I(Sc::U64) | T::V(_)),
            X::Is(w) => self.same(w, &p)?,
        })
    }
    fn same(&mut self, a: &T, b: &T) -> R<bool> {
        let (a, b) = (self.plain(a)?, self.plain(b)?);
        Ok(match (&a, &b) {
            (T::Arr(x), T::Arr(y)) => self.same(x, y)?,
            (T::I(x), T::V(y)) | (T::V(x), T::I(y)) | (T::V(x), T::V(y)) => x == y,
            (T::Anon, _) | (_, T::Anon) | (T::S, _) | (_, T::S) => false,
            (a, b) => a == b,
        })
    }
    fn rep(&self, t: &T) -> Option<Sc> { match t { T::En(i) | T::Bf(i) => rep_of(self.d(*i)), _ => None } }
    /// whether a value is converted without being asked for
    fn converts(&mut self, from: &T, to: &T) -> R<bool> {
        let (a, b) = (self.plain(from)?, self.plain(to)?);
        Ok(match (&a, &b) {
            (T::I(x), T::I(y)) => widens(*x, *y),
            (T::F32, T::F64) => true,
            (a, T::I(y)) => self.rep(a).map_or(false, |x| widens(x, *y)),
            (T::I(x), b) => self.rep(b).map_or(false, |y| widens(*x, y)),
            _ => false,
        })
    }
    fn value(&mut self, e: &'a Ex, x: &X, s: &Scope) -> R<T> {
        let v = self.ex(e, x, s)?;
        if v.absent { return no("a value that may be absent"); }
        Ok(v.t)
    }
    fn ex(&mut self, e: &'a Ex, x: &X, s: &Scope) -> R<E> {
        let v = self.raw(e, x, s)?;
        if let T::Al(i) = v.t { if self.target(i)?.1 { return no("an alias that may be absent"); } }
        if self.is(x, &v.t)? { return Ok(v); }
        let len = X::Is(T::I(Sc::U64));
        let x = if *x == X::Len { &len } else { x };
        if let X::Is(w) = x { if self.converts(&v.t, w)? { return Ok(E { t: self.plain(w)?, absent: v.absent, field: None }); } }
        no(format!("type {:?} where {:?} is asked for", v.t, x))
    }
    fn raw(&mut self, e: &'a Ex, x: &X, s: &Scope) -> R<E> {
        let plain = |t: T| Ok(E { t, absent: false, field: None });
        match e {
            Ex::Paren(e) => self.raw(e, x, s),
            Ex::Bool(_) => plain(T::B),
            Ex::Str(_) => plain(T::Arr(Box::new(T::I(Sc::U8)))),
            Ex::Int(v, sc, suffix) => {
                let sc = if *suffix { *sc } else { match x { X::Is(w) => match self.plain(w)? { T::I(s) => s, _ => return no("an integer") }, X::Len => Sc::U64, _ => return no("an integer of unknown type") } };
                if *v > sc.max_bits() { return no("an integer out of range"); }
                plain(T::I(sc))
            }
            Ex::Name(n) => {
                for m in s.fields.iter().rev() { if let Some(i) = m.get(n) { let f = &self.fds[*i]; return Ok(E { t: f.ty.clone(), absent: f.cond, field: Some(*i) }); } }
                if let Some(t) = s.inputs.get(n) { return plain(t.clone()); }
                if let Some(i) = self.consts.get(&**n).copied().filter(|i| *i < self.upto) { if let D::Const(_, t, _) = &self.p[i] { let up = std::mem::replace(&mut self.upto, i); let t = self.ty(t, &Scope::default(), false); self.upto = up; return plain(t?); } }
                no("unknown name")
            }
            Ex::Variant(n, v) => {
                if self.ffi.contains(&("type", &**n)) { return no("variant of a type without any"); }
                let Some(i) = self.decl_of(n) else { return no("unknown type") };
                match &self.d(i).body.ty {
                    Ty::Enum(_, _, items) => match items.iter().find(|x| x.0 == *v) { None => no("unknown variant"), Some((_, EVal::Default)) => no("value of the default variant"), Some(_) => plain(T::En(i)) },
                    Ty::Bits(_, _, items) => if items.iter().any(|x| x.0 == *v) { plain(T::Bf(i)) } else { no("unknown flag") },
                    _ => no("variant of a type without any"),
                }
            }
            Ex::Member(a, m) => {
                let t = self.value(a, &X::Any, s)?;
                match self.plain(&t)? { T::Bf(i) => match &self.d(i).body.ty { Ty::Bits(_, _, items) if items.iter().any(|x| x.0 == *m) => plain(T::B), _ => no("unknown flag") }, _ => no("member of something without any") }
            }
            Ex::Index(a, i) => {
                let t = self.value(a, &X::Arr, s)?;
                self.value(i, &X::Is(T::I(Sc::U64)), s)?;
                match self.plain(&t)? { T::Arr(e) => plain(*e), _ => no("index of something that is no array") }
            }
            Ex::Cast(a, t) => {
                if matches!(**t, Ty::Cont(_) | Ty::Enum(..) | Ty::Bits(..)) { return no("cast to a new type"); }
                let to = self.ty(t, s, false)?;
                let from = self.value(a, &X::Any, s)?;
                let num = |t: &T| matches!(t, T::I(_) | T::F32 | T::F64);
                let (pf, pt) = (self.plain(&from)?, self.plain(&to)?);
                if matches!(pf, T::Arr(_)) && matches!(pt, T::Arr(_)) { return no("UNSPECIFIED cast of arrays"); }
                if self.same(&from, &to)? || self.converts(&from, &to)? || self.converts(&to, &from)? || num(&pf) && num(&pt) { plain(to) } else { no("a cast that is not defined") }
            }
            Ex::Tern(c, a, b) => {
                self.value(c, &X::Is(T::B), s)?;
                let t = self.value(a, x, s)?;
                let y = if let X::Is(_) = x { x.clone() } else { X::Is(t.clone()) };
                self.value(b, &y, s)?;
                plain(t)
            }
            Ex::Un(o, a) => {
                let t = self.value(a, x, s)?;
                let p = self.plain(&t)?;
                let ok = match o {
                    Uop::Not => p == T::B,
                    Uop::Neg => match p { T::I(s) => s.signed(), T::V(_) | T::F32 | T::F64 => true, _ => false },
                    Uop::BitNot => matches!(p, T::I(_) | T::V(_) | T::B | T::Bf(_)),
                };
                if ok { plain(t) } else { no("operator on something it is not defined for") }
            }
            Ex::Call(f, args) => {
                if !self.ffi.contains(&("function", &**f)) { return no("unknown function"); }
                let want: &[X] = match &**f { "pad" => &[X::Is(T::I(Sc::U64)), X::Is(T::I(Sc::U64))], "bits" => &[X::Is(T::I(Sc::U64))], _ => &[X::Any] };
                if args.len() != want.len() { return no("number of arguments"); }
                let mut ts = vec![];
                for (e, x) in args.iter().zip(want) {
                    let v = self.ex(e, x, s)?;
                    if f == "blen" { let Some(i) = v.field else { return no("blen") }; self.blens.push(i); } else if v.absent { return no("a value that may be absent"); }
                    ts.push(v.t);
                }
                let p = self.plain(&ts[0])?;
                match &**f {
                    "len" => if matches!(p, T::Cont(_) | T::Anon | T::V(_)) { return no("len of something without"); },
                    "sum" => match p { T::Arr(e) if matches!(*e, T::I(_)) => (), _ => return no("sum of something that is no array of integers") },
                    _ => (),
                }
                plain(T::I(if f == "bits" { Sc::U8 } else { Sc::U64 }))
            }
            Ex::Bin(o, a, b) => {
                use Bop::*;
                let logic = matches!(o, Lt | Gt | Le | Ge | Eq | Ne | Or | And);
                if logic && !self.is(x, &T::B)? { return no("a truth value where another type is asked for"); }
                let init = match o { Lt | Gt | Le | Ge => X::Ord, Eq | Ne => X::Any, Or | And => X::Is(T::B), _ => x.clone() };
                let mut left = |me: &mut Self, x: &X| { let v = me.ex(a, x, s)?; if v.absent && *o != Elvis { return no("a value that may be absent"); } Ok(v.t) };
                let n = self.blens.len();
                let (l, r) = match left(self, &init) {
                    Ok(l) => { let r = self.value(b, &X::Is(l.clone()), s)?; (l, r) }
                    // an operand of a single type has that type or none
                    Err(e) if matches!(init, X::Is(_) | X::Len) => return Err(e),
                    Err(_) => { self.blens.truncate(n); let r = self.value(b, &init, s)?; (left(self, &X::Is(r.clone()))?, r) }
                };
                let (pl, pr) = (self.plain(&l)?, self.plain(&r)?);
                let int = matches!(pl, T::I(_) | T::V(_));
                let ok = match o {
                    Lt | Gt | Le | Ge => matches!(pl, T::I(_) | T::V(_) | T::F32 | T::F64 | T::B | T::En(_)),
                    Add | Sub | Mul | Div | Mod => int || matches!(pl, T::F32 | T::F64),
                    Shl | Shr | ShrS => int,
                    BitAnd | BitOr | BitXor => int || matches!(pl, T::B | T::Bf(_)),
                    Eq | Ne | Elvis => Self::opaque(&pl) == Self::opaque(&pr),
                    Or | And => true,
                };
                if !ok { return no("operator on something it is not defined for"); }
                plain(if logic { T::B } else { l })
            }
        }
    }
    // ------------------------------------------------------------ constants
    fn constant(&mut self, t: &Ty, e: &Ex) -> R<()> { self.cv(e, if let Ty::Int(s, _) = t { Some(*s) } else { None }).map(|_| ()) }
    fn int(&mut self, e: &Ex, sc: Sc) -> R<i128> { match self.cv(e, Some(sc))? { Cv::I(x, _) => Ok(x), _ => no("a value that is no integer") } }
    /// the value of a constant; unsuffixed literals take the type of the context
    fn cv(&mut self, e: &Ex, want: Option<Sc>) -> R<Cv> {
        Ok(match (self.cv1(e, want)?, want) { (Cv::I(x, _), Some(s)) => Cv::I(x, s), (v, _) => v })
    }
    fn cv1(&mut self, e: &Ex, want: Option<Sc>) -> R<Cv> {
        let not = || no::<Cv>("not a constant");
        Ok(match e {
            Ex::Paren(e) => self.cv(e, want)?,
            Ex::Int(v, s, suf) => Cv::I(*v as i128, if *suf { *s } else { want.unwrap_or(*s) }),
            Ex::Bool(b) => Cv::B(*b),
            Ex::Str(_) => Cv::Other,
            Ex::Name(n) => { let Some(i) = self.consts.get(&**n).copied() else { return not() }; let D::Const(_, t, e) = &self.p[i] else { panic!() }; let w = if let Ty::Int(s, _) = t { Some(*s) } else { None }; self.cv(e, w)? }
            Ex::Variant(n, v) => {
                let i = self.types[&**n];
                let rep = rep_of(self.d(i)).unwrap();
                match &self.d(i).body.ty {
                    Ty::Enum(_, _, items) => { let mut last = 0; for (m, x) in items { match x { EVal::Ex(e) => last = self.int(e, rep)?, EVal::Next => last += 1, EVal::Default => () } if m == v { return Ok(Cv::I(last, rep)); } } return not(); }
                    Ty::Bits(_, _, items) => { let mut last = 0; for (m, x) in items { last = match x { Some(e) => self.int(e, rep)?, None => wrap(((last as u128) << 1) as i128, rep) }; if m == v { return Ok(Cv::I(last, rep)); } } return not(); }
                    _ => Cv::Other,
                }
            }
            Ex::Cast(a, t) => match (&**t, self.cv(a, None)?) { (Ty::Int(s, _), Cv::I(x, _)) => Cv::I(wrap(x, *s), *s), (_, v) => v },
            Ex::Tern(c, a, b) => { let c = self.cv(c, None)?; let (x, y) = (self.cv(a, want), self.cv(b, want)); match c { Cv::B(true) => { y?; x? } _ => { x?; y? } } }
            Ex::Un(o, a) => match (o, self.cv(a, want)?) {
                (Uop::Not | Uop::BitNot, Cv::B(b)) => Cv::B(!b),
                (Uop::BitNot, Cv::I(x, s)) => Cv::I(wrap(!x, s), s),
                (Uop::Neg, Cv::I(x, s)) => Cv::I(x.checked_neg().filter(|x| fits(*x, s)).ok_or("overflow")?, s),
                (_, v) => v,
            },
            Ex::Bin(o, a, b) => {
                use Bop::*;
                let w = if matches!(o, Lt | Gt | Le | Ge | Eq | Ne | Or | And) { None } else { want };
                let (mut x, mut y) = (self.cv(a, w)?, self.cv(b, w)?);
                // comparisons of a literal take the type of the other side
                if let (Cv::I(p, s), Cv::I(q, t)) = (&x, &y) { if s != t { let s = if untyped(a) { *t } else { *s }; let (p, q) = (*p, *q); x = Cv::I(p, s); y = Cv::I(q, s); } }
                match (x, y) {
                    (Cv::I(p, s), Cv::I(q, _)) => match o {
                        Eq => Cv::B(p == q), Ne => Cv::B(p != q), Lt => Cv::B(p < q), Gt => Cv::B(p > q), Le => Cv::B(p <= q), Ge => Cv::B(p >= q),
                        Add | Sub | Mul | Div | Mod => { let r = match o { Add => p.checked_add(q), Sub => p.checked_sub(q), Mul => p.checked_mul(q), Div => p.checked_div(q), _ => p.checked_rem(q) }; Cv::I(r.filter(|r| fits(*r, s)).ok_or("overflow")?, s) }
                        Shl | Shr | ShrS => { if q < 0 || q >= s.bits() as i128 { return no("overflow"); } let bits = (p as u128) & s.mask(); Cv::I(match o { Shl => wrap((bits << q) as i128, s), Shr => wrap((bits >> q) as i128, s), _ => p >> q }, s) }
                        BitAnd => Cv::I(p & q, s), BitOr => Cv::I(p | q, s), BitXor => Cv::I(p ^ q, s),
                        Elvis => return no("UNSPECIFIED constant"),
                        _ => return not(),
                    },
                    (Cv::B(p), Cv::B(q)) => Cv::B(match o { Or => p || q, And => p && q, Eq => p == q, Ne => p != q, BitAnd => p & q, BitOr => p | q, BitXor => p ^ q, Lt => !p & q, Gt => p & !q, Le => !p | q, Ge => p | !q, _ => return no("UNSPECIFIED constant") }),
                    _ => return no("UNSPECIFIED constant"),
                }
            }
            Ex::Index(..) | Ex::Member(..) | Ex::Call(..) => return no("UNSPECIFIED constant"),
        })
    }
}
#[derive(Clone, Debug)]
enum Cv { I(i128, Sc), B(bool), Other }
fn untyped(e: &Ex) -> bool { match e { Ex::Int(_, _, s) => !s, Ex::Un(_, a) | Ex::Paren(a) => untyped(a), Ex::Bin(_, a, b) => untyped(a) && untyped(b), _ => false } }
fn fits(x: i128, s: Sc) -> bool { if s.signed() { s.bytes() == 16 || x >= -(1i128 << (s.bits() - 1)) && x < 1i128 << (s.bits() - 1) } else { x >= 0 && (s.bytes() == 16 || x < 1i128 << s.bits()) } }
fn wrap(x: i128, s: Sc) -> i128 { let b = (x as u128) & s.mask(); if s.signed() { s.sx(b) } else { b as i128 } }
fn refs<'b>(e: &'b Ex, out: &mut Vec<&'b str>) {
    match e {
        Ex::Name(n) => out.push(n),
        Ex::Bin(_, a, b) | Ex::Index(a, b) => { refs(a, out); refs(b, out) }
        Ex::Un(_, a) | Ex::Paren(a) | Ex::Member(a, _) => refs(a, out),
        Ex::Cast(a, t) => { refs(a, out); ty_refs(t, out) }
        Ex::Tern(a, b, c) => { refs(a, out); refs(b, out); refs(c, out) }
        Ex::Call(_, v) => for a in v { refs(a, out) },
        _ => (),
    }
}
fn ty_refs<'b>(t: &'b Ty, out: &mut Vec<&'b str>) { match t { Ty::Ref(_, a) => for e in a { refs(e, out) }, Ty::Arr(t, l) => { ty_refs(t, out); match l { Len::Fix(e) | Len::Term(e) => refs(e, out), _ => () } } _ => () } }
fn blens(e: &Ex) -> Vec<String> {
    match e {
        Ex::Call(f, a) if f == "blen" => a.iter().filter_map(|a| if let Ex::Name(n) = a { Some(n.clone()) } else { None }).collect(),
        Ex::Bin(_, a, b) | Ex::Index(a, b) => [blens(a), blens(b)].concat(),
        Ex::Un(_, a) | Ex::Paren(a) | Ex::Member(a, _) | Ex::Cast(a, _) => blens(a),
        Ex::Tern(a, b, c) => [blens(a), blens(b), blens(c)].concat(),
        Ex::Call(_, v) => v.iter().flat_map(blens).collect(),
        _ => vec![],
    }
}
/// names that the encoding of the inside of a type needs
fn inner_refs(t: &Ty, out: &mut Vec<String>) {
    let mut v = vec![];
    ty_refs(t, &mut v);
    out.extend(v.iter().map(|x| x.to_string()));
    if let Ty::Cont(c) = t {
        let mut v = vec![];
        for i in &c.items { match i {
            Item::Pad(e) => refs(e, &mut v),
            Item::F(f) => {
                for e in f.cond.iter().chain(&f.calc) { refs(e, &mut v) }
                for x in &f.xf { for e in x.args.iter().chain(&x.cond) { refs(e, &mut v) } }
                inner_refs(&f.ty, out);
            }
        } }
        // a name of the inner container is not one of the outer
        let own: Vec<&str> = c.items.iter().filter_map(|i| if let Item::F(f) = i { Some(&*f.name) } else { None }).collect();
        out.extend(v.into_iter().filter(|x| !own.contains(x)).map(|x| x.to_string()));
    }
}
