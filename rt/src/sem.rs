//! Reference semantics of the specification language: an interpreter that
//! encodes and decodes values of the independent AST, written from the
//! documentation and sharing no code with the implementation.
use crate::ast::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fk { Var(Sc), Utf8, Utf16 }
pub fn foreign(n: &str) -> Option<Fk> {
    Some(match n {
        "v8" => Fk::Var(Sc::I8), "v16" => Fk::Var(Sc::I16), "v32" => Fk::Var(Sc::I32), "v64" => Fk::Var(Sc::I64), "v128" => Fk::Var(Sc::I128),
        "utf8" => Fk::Utf8, "utf16" => Fk::Utf16,
        _ => return None,
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    /// input ended
    Eof,
    /// the message or value contradicts the specification
    Bad(&'static str),
    /// depends on a length that is not known yet (internal)
    Unknown,
}
pub type R<T> = Result<T, E>;

#[derive(Clone, Debug, PartialEq)]
pub enum EV {
    I(u128, Sc), B(bool), S(Vec<u8>), F(u64, bool),
    /// array value with its type
    A(Val, Ty),
    Str(String),
    En(u128, Sc), Bf(u128, Sc, String),
    None, Unknown,
}

#[derive(Clone)]
pub struct Slot { pub name: String, pub val: Val, pub ty: Ty, pub known: bool }
pub struct Env<'a> { pub spec: &'a Spec, pub slots: Vec<Slot>, pub blen: Vec<(String, Option<u64>)> }

pub fn repr_items(spec: &Spec, name: &str) -> Option<(bool, Sc, bool, Vec<(String, Option<u128>)>)> {
    let d = spec.get(name)?;
    match &d.body.ty {
        Ty::Enum(sc, le, items) => {
            let mut out = vec![];
            let mut last = 0i128;
            for (n, v) in items {
                match v {
                    EVal::Ex(e) => { let x = const_eval_as(spec, e, *sc).ok()?; if let EV::I(b, _) = x { last = sc.sx(b); out.push((n.clone(), Some(b & sc.mask()))); } }
                    EVal::Next => { last += 1; out.push((n.clone(), Some(last as u128 & sc.mask()))); }
                    EVal::Default => out.push((n.clone(), None)),
                }
            }
            Some((true, *sc, *le, out))
        }
        Ty::Bits(sc, le, items) => {
            let mut out = vec![];
            let mut last = 0u128;
            for (n, v) in items {
                match v {
                    Some(e) => { let x = const_eval_as(spec, e, *sc).ok()?; if let EV::I(b, _) = x { last = b & sc.mask(); } }
                    None => { last = (last << 1) & sc.mask(); }
                }
                out.push((n.clone(), Some(last)));
            }
            Some((false, *sc, *le, out))
        }
        _ => None,
    }
}

pub fn const_eval(spec: &Spec, e: &Ex) -> R<EV> { Env { spec, slots: vec![], blen: vec![] }.ev(e) }
pub fn const_eval_as(spec: &Spec, e: &Ex, s: Sc) -> R<EV> { Env { spec, slots: vec![], blen: vec![] }.ev_as(e, s) }
fn widen(x: EV, s: Sc) -> EV { match x { EV::I(b, d) | EV::En(b, d) | EV::Bf(b, d, _) if d != s => EV::I(d.sx(b) as u128 & s.mask(), s), EV::En(b, _) | EV::Bf(b, ..) => EV::I(b, s), x => x } }


fn ci(s: Sc, x: Option<i128>) -> R<EV> {
    let x = x.ok_or(E::Bad("overflow"))?;
    let b = x as u128 & s.mask();
    if s.sx(b) != x { return Err(E::Bad("overflow")); }
    Ok(EV::I(b, s))
}
fn cu(s: Sc, x: Option<u128>) -> R<EV> {
    let x = x.ok_or(E::Bad("overflow"))?;
    if x & !s.mask() != 0 { return Err(E::Bad("overflow")); }
    Ok(EV::I(x, s))
}

impl<'a> Env<'a> {
    pub fn resolve(&self, t: &Ty) -> Ty {
        match t { Ty::Ref(n, _) if foreign(n).is_none() || self.spec.get(n).is_some() => match self.spec.get(n) { Some(d) => match d.body.ty { Ty::Enum(..) | Ty::Bits(..) | Ty::Cont(..) => t.clone(), _ => self.resolve(&d.body.ty) }, None => t.clone() }, x => x.clone() }
    }
    fn to_ev(&self, v: &Val, t: &Ty) -> R<EV> {
        if *v == Val::Nil { return Ok(EV::None); }
        Ok(match (self.resolve(t), v) {
            (Ty::Int(s, _), Val::I(b)) => EV::I(*b & s.mask(), s),
            (Ty::Bool, Val::B(b)) => EV::B(*b),
            (Ty::F32, Val::F(b)) => EV::F(*b, false),
            (Ty::F64, Val::F(b)) => EV::F(*b, true),
            (t @ Ty::Arr(..), v) => EV::A(v.clone(), t),
            (Ty::Ref(n, _), v) => {
                if let Some(d) = self.spec.get(&n) {
                    match (&d.body.ty, v) {
                        (Ty::Enum(s, ..), Val::I(b)) => EV::En(*b, *s),
                        (Ty::Bits(s, ..), Val::I(b)) => EV::Bf(*b, *s, n.clone()),
                        _ => panic!("value {:?} of {} in expression", v, n),
                    }
                } else {
                    match (foreign(&n).expect("unknown type"), v) {
                        (Fk::Var(s), Val::I(b)) => EV::I(*b & s.mask(), s),
                        (_, Val::S(s)) => EV::Str(s.clone()),
                        _ => panic!("foreign value"),
                    }
                }
            }
            (t, v) => panic!("value {:?} of type {:?} in expression", v, t),
        })
    }
    /// converts to the type a position expects
    pub fn coerce(&self, v: EV, t: &Ty) -> R<Val> {
        Ok(match (v, self.resolve(t)) {
            (EV::Unknown, _) => return Err(E::Unknown),
            (EV::I(b, s), Ty::Int(..)) | (EV::En(b, s), Ty::Int(..)) | (EV::Bf(b, s, _), Ty::Int(..)) => { let Ty::Int(d, _) = self.resolve(t) else { unreachable!() }; Val::I(s.sx(b) as u128 & d.mask()) }
            (EV::I(b, _), Ty::Ref(n, _)) => match foreign(&n) { Some(Fk::Var(s)) => Val::I(b & s.mask()), _ => Val::I(b) },
            (EV::En(b, _), _) | (EV::Bf(b, ..), _) => Val::I(b),
            (EV::B(b), _) => Val::B(b),
            (EV::F(b, _), _) => Val::F(b),
            (EV::S(s), _) => Val::A(s.into_iter().map(|x| Val::I(x as u128)).collect()),
            (EV::A(v, _), _) => v,
            (EV::Str(s), _) => Val::S(s),
            (EV::None, _) => Val::Nil,
            (a, b) => panic!("coerce {:?} to {:?}", a, b),
        })
    }
    pub fn ev(&self, e: &Ex) -> R<EV> {
        Ok(match e {
            Ex::Int(v, s, _) => EV::I(*v, *s),
            Ex::Bool(b) => EV::B(*b),
            Ex::Str(s) => EV::S(s.clone()),
            Ex::Paren(a) => self.ev(a)?,
            Ex::Name(n) => {
                if let Some(s) = self.slots.iter().rev().find(|s| s.name == *n) {
                    if !s.known { return Ok(EV::Unknown); }
                    self.to_ev(&s.val, &s.ty)?
                } else if let Some((_, t, e)) = self.spec.consts.iter().find(|c| c.0 == *n) {
                    let v = self.ev_ty(e, t)?;
                    let v = self.coerce(v, t)?;
                    self.to_ev(&v, t)?
                } else { panic!("unbound {} in {}", n, self.spec.text()) }
            }
            Ex::Un(_, a) => {
                let x = self.ev(a)?;
                self.unary_on(e, x)?
            }
            Ex::Bin(o, a, b) => {
                let x = self.ev(a)?;
                match (o, &x) {
                    (_, EV::Unknown) => return Ok(EV::Unknown),
                    (Bop::Or, EV::B(true)) => return Ok(EV::B(true)),
                    (Bop::And, EV::B(false)) => return Ok(EV::B(false)),
                    (Bop::Elvis, EV::None) => return self.ev(b),
                    (Bop::Elvis, _) => { self.ev(b)?; return Ok(x); }
                    _ => (),
                }
                let y = self.ev(b)?;
                if y == EV::Unknown { return Ok(EV::Unknown); }
                binop(*o, x, y)?
            }
            Ex::Cast(a, t) => {
                let x = self.ev(a)?;
                match (x, self.resolve(t)) {
                    (EV::Unknown, _) => EV::Unknown,
                    (EV::I(b, s), Ty::Int(d, _)) | (EV::En(b, s), Ty::Int(d, _)) | (EV::Bf(b, s, _), Ty::Int(d, _)) => EV::I(s.sx(b) as u128 & d.mask(), d),
                    (EV::F(b, w), Ty::F32) => EV::F(if w { (f64::from_bits(b) as f32).to_bits() as u64 } else { b }, false),
                    (EV::F(b, w), Ty::F64) => EV::F(if w { b } else { (f32::from_bits(b as u32) as f64).to_bits() }, true),
                    (x, t) => panic!("cast {:?} to {:?}", x, t),
                }
            }
            Ex::Tern(c, a, b) => match self.ev(c)? { EV::B(true) => self.ev(a)?, EV::B(false) => self.ev(b)?, EV::Unknown => EV::Unknown, x => panic!("ternary on {:?}", x) },
            Ex::Variant(t, n) => {
                let (is_enum, sc, _, items) = repr_items(self.spec, t).expect("variant of unknown type");
                let v = items.iter().find(|x| x.0 == *n).expect("unknown variant").1.expect("default variant");
                if is_enum { EV::En(v, sc) } else { EV::Bf(v, sc, t.clone()) }
            }
            Ex::Member(a, m) => match self.ev(a)? {
                EV::Bf(b, _, t) => { let it = repr_items(self.spec, &t).unwrap().3; EV::B(b & it.iter().find(|x| x.0 == *m).expect("member").1.unwrap() != 0) }
                EV::Unknown => EV::Unknown,
                x => panic!("member of {:?}", x),
            },
            Ex::Index(a, i) => {
                let EV::I(ix, _) = self.ev(i)? else { return Ok(EV::Unknown) };
                match self.ev(a)? {
                    EV::A(Val::A(v), Ty::Arr(t, _)) => { if ix >= v.len() as u128 { return Err(E::Bad("index out of range")); } self.to_ev(&v[ix as usize], &t)? }
                    EV::S(v) => { if ix >= v.len() as u128 { return Err(E::Bad("index out of range")); } EV::I(v[ix as usize] as u128, Sc::U8) }
                    EV::Unknown => EV::Unknown,
                    x => panic!("index of {:?}", x),
                }
            }
            Ex::Call(f, args) => match &**f {
                "blen" => { let Ex::Name(n) = &args[0] else { panic!("blen argument") }; match self.blen.iter().rev().find(|x| x.0 == *n) { Some((_, Some(l))) => EV::I(*l as u128, Sc::U64), Some((_, None)) | None => EV::Unknown } }
                "len" => {
                    let n = match self.ev(&args[0])? {
                        EV::A(Val::A(v), _) => v.len(), EV::S(s) => s.len(), EV::Str(s) => s.len(),
                        EV::I(_, s) | EV::En(_, s) | EV::Bf(_, s, _) => s.bytes(),
                        EV::B(_) => 1, EV::F(_, w) => if w { 8 } else { 4 },
                        EV::Unknown => return Ok(EV::Unknown),
                        x => panic!("len of {:?}", x),
                    };
                    EV::I(n as u128, Sc::U64)
                }
                "pad" => {
                    let (EV::I(p, _), EV::I(b, _)) = (self.ev_as(&args[0], Sc::U64)?, self.ev_as(&args[1], Sc::U64)?) else { return Ok(EV::Unknown) };
                    if p == 0 { return Err(E::Bad("pad to 0")); }
                    EV::I((p - b % p) % p, Sc::U64)
                }
                "bits" => { let EV::I(p, _) = self.ev(&args[0])? else { return Ok(EV::Unknown) }; EV::I(p.count_ones() as u128, Sc::U8) }
                "sum" => match self.ev(&args[0])? {
                    EV::A(Val::A(v), Ty::Arr(t, _)) => {
                        let mut s = 0u128;
                        for x in &v { if let EV::I(b, sc) = self.to_ev(x, &t)? { s += sc.sx(b) as u64 as u128; } }
                        if s > u64::MAX as u128 { return Err(E::Bad("overflow")); }
                        EV::I(s, Sc::U64)
                    }
                    EV::Unknown => EV::Unknown,
                    x => panic!("sum of {:?}", x),
                },
                x => panic!("function {}", x),
            },
        })
    }
    /// evaluates where an integer of a type is expected: the operands of
    /// arithmetic are widened to it first
    fn ev_as(&self, e: &Ex, s: Sc) -> R<EV> {
        Ok(match e {
            Ex::Paren(a) => self.ev_as(a, s)?,
            Ex::Un(Uop::Neg | Uop::BitNot, a) => { let x = self.ev_as(a, s)?; self.unary_on(e, x)? }
            Ex::Bin(Bop::Elvis, a, b) => match self.ev(a)? { EV::None => self.ev_as(b, s)?, EV::Unknown => EV::Unknown, x => { self.ev_as(b, s)?; widen(x, s) } },
            Ex::Bin(o, a, b) if !matches!(o, Bop::Or | Bop::And | Bop::Eq | Bop::Ne | Bop::Lt | Bop::Gt | Bop::Le | Bop::Ge) => {
                let (x, y) = (self.ev_as(a, s)?, self.ev_as(b, s)?);
                if x == EV::Unknown || y == EV::Unknown { return Ok(EV::Unknown); }
                binop(*o, x, y)?
            }
            Ex::Tern(c, a, b) => match self.ev(c)? { EV::B(true) => self.ev_as(a, s)?, EV::B(false) => self.ev_as(b, s)?, EV::Unknown => EV::Unknown, x => panic!("ternary on {:?}", x) },
            e => widen(self.ev(e)?, s),
        })
    }
    fn unary_on(&self, e: &Ex, x: EV) -> R<EV> {
        let Ex::Un(o, _) = e else { unreachable!() };
        Ok(match (o, x) {
            (_, EV::Unknown) => EV::Unknown,
            (Uop::Not | Uop::BitNot, EV::B(b)) => EV::B(!b),
            (Uop::BitNot, EV::Bf(b, s, n)) => EV::Bf(!b & s.mask(), s, n),
            (Uop::BitNot, EV::I(b, s)) => EV::I(!b & s.mask(), s),
            (Uop::Neg, EV::I(b, s)) => ci(s, s.sx(b).checked_neg())?,
            (o, a) => panic!("unary {:?} {:?}", o, a),
        })
    }
    /// evaluates where a value of a type is expected
    fn ev_ty(&self, e: &Ex, t: &Ty) -> R<EV> { match self.resolve(t) { Ty::Int(s, _) => self.ev_as(e, s), _ => self.ev(e) } }
    fn cond(&self, c: &Option<Ex>) -> R<bool> {
        match c { None => Ok(true), Some(c) => match self.ev(c)? { EV::B(b) => Ok(b), EV::Unknown => Err(E::Unknown), x => panic!("condition {:?}", x) } }
    }
    /// a condition while encoding: what depends on lengths that are not known yet is settled in a later pass
    fn cond_now(&self, c: &Option<Ex>) -> R<bool> { match self.cond(c) { Err(E::Unknown) => Ok(false), r => r } }
    fn len(&self, e: &Ex) -> R<u128> { let v = self.ev_as(e, Sc::U64)?; self.length(v) }
    fn length(&self, v: EV) -> R<u128> {
        match v { EV::I(b, s) | EV::En(b, s) | EV::Bf(b, s, _) => { if s.sx(b) < 0 && s.signed() { Err(E::Bad("negative length")) } else { Ok(b) } } EV::Unknown => Err(E::Unknown), x => panic!("length {:?}", x) }
    }
    fn sub(&self, name: &str, args: &[Ex]) -> R<(&'a Decl, Env<'a>)> {
        let d = self.spec.get(name).unwrap_or_else(|| panic!("no type {}", name));
        let vals = args.iter().zip(&d.params).map(|(a, p)| { let v = self.ev_ty(a, &p.1)?; self.coerce(v, &p.1) }).collect::<R<Vec<_>>>()?;
        Ok((d, decl_env(self.spec, d, &vals)?))
    }
}
/// environment of a declaration's body, omitted or `Nil` optional arguments replaced by their defaults
pub fn decl_env<'a>(spec: &'a Spec, d: &'a Decl, args: &[Val]) -> R<Env<'a>> {
    let mut env = Env { spec, slots: vec![], blen: vec![] };
    for (i, (n, t, def)) in d.params.iter().enumerate() {
        let v = match args.get(i) {
            Some(Val::Nil) | None => { let e = def.as_ref().expect("missing argument"); let v = env.ev_ty(e, t)?; env.coerce(v, t)? }
            Some(v) => v.clone(),
        };
        env.slots.push(Slot { name: n.clone(), val: v, ty: t.clone(), known: true });
    }
    Ok(env)
}

pub fn binop(o: Bop, x: EV, y: EV) -> R<EV> {
    use Bop::*;
    Ok(match (o, x, y) {
        (Or, EV::B(a), EV::B(b)) => EV::B(a || b),
        (And, EV::B(a), EV::B(b)) => EV::B(a && b),
        (Eq, a, b) => EV::B(veq(&a, &b)),
        (Ne, a, b) => EV::B(!veq(&a, &b)),
        (Lt | Gt | Le | Ge, EV::I(a, s), EV::I(b, s2)) => {
            let ord = if s.signed() { s.sx(a).cmp(&s2.sx(b)) } else { a.cmp(&b) };
            EV::B(match o { Lt => ord.is_lt(), Gt => ord.is_gt(), Le => ord.is_le(), _ => ord.is_ge() })
        }
        (Lt | Gt | Le | Ge, EV::F(a, w), EV::F(b, _)) => {
            let (a, b) = if w { (f64::from_bits(a), f64::from_bits(b)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
            EV::B(match o { Lt => a < b, Gt => a > b, Le => a <= b, _ => a >= b })
        }
        (Lt, EV::B(a), EV::B(b)) => EV::B(!a & b),
        (Gt, EV::B(a), EV::B(b)) => EV::B(a & !b),
        (Le, EV::B(a), EV::B(b)) => EV::B(!a | b),
        (Ge, EV::B(a), EV::B(b)) => EV::B(a | !b),
        (Lt | Gt | Le | Ge, EV::En(a, s), EV::En(b, _)) => binop(o, EV::I(a, s), EV::I(b, s))?,
        (BitOr, EV::B(a), EV::B(b)) => EV::B(a | b),
        (BitAnd, EV::B(a), EV::B(b)) => EV::B(a & b),
        (BitXor, EV::B(a), EV::B(b)) => EV::B(a ^ b),
        (BitOr, EV::I(a, s), EV::I(b, _)) => EV::I(a | b, s),
        (BitAnd, EV::I(a, s), EV::I(b, _)) => EV::I(a & b, s),
        (BitXor, EV::I(a, s), EV::I(b, _)) => EV::I(a ^ b, s),
        (BitOr, EV::Bf(a, s, n), EV::Bf(b, ..)) => EV::Bf(a | b, s, n),
        (BitAnd, EV::Bf(a, s, n), EV::Bf(b, ..)) => EV::Bf(a & b, s, n),
        (BitXor, EV::Bf(a, s, n), EV::Bf(b, ..)) => EV::Bf(a ^ b, s, n),
        (Shl | Shr | ShrS, EV::I(a, s), EV::I(b, s2)) => {
            if s2.sx(b) < 0 && s2.signed() || b >= s.bits() as u128 { return Err(E::Bad("shift out of range")); }
            match o {
                Shl => EV::I((a << b) & s.mask(), s),
                Shr => EV::I((a & s.mask()) >> b, s),
                _ => EV::I(((s.sx(a) >> b) as u128) & s.mask(), s),
            }
        }
        (Add | Sub | Mul | Div | Mod, EV::I(a, s), EV::I(b, _)) => {
            if s.signed() {
                let (a, b) = (s.sx(a), s.sx(b));
                ci(s, match o { Add => a.checked_add(b), Sub => a.checked_sub(b), Mul => a.checked_mul(b), Div => a.checked_div(b),
                    // the remainder of MIN / -1 overflows with the division
                    _ => if b == -1 && a as u128 & s.mask() == s.min_bits() { None } else { a.checked_rem(b) } })?
            } else {
                cu(s, match o { Add => a.checked_add(b), Sub => a.checked_sub(b), Mul => a.checked_mul(b), Div => a.checked_div(b), _ => a.checked_rem(b) })?
            }
        }
        (o, a, b) => panic!("operator {:?} on {:?}, {:?}", o, a, b),
    })
}
fn veq(a: &EV, b: &EV) -> bool {
    match (a, b) {
        (EV::I(a, s), EV::I(b, _)) => a & s.mask() == b & s.mask(),
        (EV::En(a, _), EV::En(b, _)) | (EV::Bf(a, ..), EV::Bf(b, ..)) => a == b,
        (EV::B(a), EV::B(b)) => a == b,
        (EV::F(a, true), EV::F(b, _)) => f64::from_bits(*a) == f64::from_bits(*b),
        (EV::F(a, false), EV::F(b, _)) => f32::from_bits(*a as u32) == f32::from_bits(*b as u32),
        (EV::S(a), EV::S(b)) => a == b,
        (EV::A(a, _), EV::A(b, _)) => a == b,
        (a, b) => panic!("compare {:?} {:?}", a, b),
    }
}

// ------------------------------------------------------------------ shapes
/// a field of the flattened view of a container
#[derive(Clone)]
pub struct Flat<'a> { pub f: &'a Field, pub optional: bool }
/// the value-carrying fields of a container, nested containers flattened
pub fn flat<'a>(c: &'a Cont, optional: bool, out: &mut Vec<Flat<'a>>) {
    for i in &c.items {
        if let Item::F(f) = i {
            let o = optional || f.cond.is_some();
            match &f.ty { Ty::Cont(c) => flat(c, o, out), _ => out.push(Flat { f, optional: o }) }
        }
    }
}
pub fn flatten(c: &Cont) -> Vec<Flat<'_>> { let mut v = vec![]; flat(c, false, &mut v); v }

// ------------------------------------------------------------------ transforms
/// reference of the test transforms and their inverses
pub fn xf_apply(name: &str, args: &[Val], data: &[u8]) -> Vec<u8> {
    let a = match args.first() { Some(Val::I(x)) => Some(*x as u8), _ => None };
    match name {
        "xor" => data.iter().enumerate().map(|(i, b)| b ^ a.unwrap_or(0x55).wrapping_add(i as u8)).collect(),
        "add" => data.iter().map(|b| b.wrapping_add(a.unwrap_or(1))).collect(),
        "hold" => data.to_vec(),
        "gzip" => { use std::io::Write; let mut w = flate2::write::GzEncoder::new(vec![], flate2::Compression::default()); w.write_all(data).unwrap(); w.finish().unwrap() }
        "base64" => b64_text(data),
        "frame" => { let mut o = vec![data.len() as u8]; o.extend_from_slice(data); o.push(0xee); o }
        x => panic!("transform {}", x),
    }
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64_text(data: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in data.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { o.push(if i <= c.len() { B64[(x >> (18 - 6 * i)) as usize & 63] } else { b'=' }); }
    }
    o
}
/// the data of a text that is one, in canonical form
fn b64_data(t: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    for c in t.chunks(4) {
        if c.len() < 4 { return None; }
        let pads = c.iter().rev().take_while(|x| **x == b'=').count();
        if pads > 2 { return None; }
        let mut x = 0u32;
        for b in &c[..4 - pads] { x = x << 6 | B64.iter().position(|y| y == b)? as u32; }
        x <<= 6 * pads;
        o.extend([(x >> 16) as u8, (x >> 8) as u8, x as u8].iter().take(3 - pads));
    }
    if b64_text(&o) == t { Some(o) } else { None }
}

// ------------------------------------------------------------------ encoder
impl<'a> Env<'a> {
    fn enc_ty(&mut self, t: &Ty, v: &Val, top: &str, out: &mut Vec<u8>) -> R<Val> {
        match t {
            Ty::Int(s, le) => {
                let Val::I(b) = v else { panic!("int value {:?}", v) };
                put(out, *b, *s, *le);
                Ok(Val::I(b & s.mask()))
            }
            Ty::F32 => { let Val::F(b) = v else { panic!() }; out.extend_from_slice(&(*b as u32).to_be_bytes()); Ok(v.clone()) }
            Ty::F64 => { let Val::F(b) = v else { panic!() }; out.extend_from_slice(&b.to_be_bytes()); Ok(v.clone()) }
            Ty::Bool => { let Val::B(b) = v else { panic!("bool {:?}", v) }; out.push(*b as u8); Ok(v.clone()) }
            Ty::Enum(..) | Ty::Bits(..) => {
                let (is_enum, s, le, items) = repr_items(self.spec, top).unwrap();
                let Val::I(b) = v else { panic!("repr {:?}", v) };
                put(out, *b, s, le);
                let _ = (is_enum, items); // undeclared bits of a bitfield are written as they are
                Ok(v.clone())
            }
            Ty::Arr(t, l) => {
                let Val::A(vs) = v else { panic!("array {:?}", v) };
                if let Len::Fix(e) = l { match self.len(e) { Ok(n) if n != vs.len() as u128 => return Err(E::Bad("array length")), Err(E::Unknown) | Ok(_) => (), Err(e) => return Err(e) } }
                let tm = match l { Len::Term(e) => match self.ev(e)? { EV::S(s) => Some(s), x => panic!("terminator {:?}", x) }, _ => None };
                let mut r = vec![];
                for x in vs {
                    r.push(self.enc_ty(t, x, "", out)?);
                }
                if let Some(tm) = tm { out.extend_from_slice(&tm); }
                Ok(Val::A(r))
            }
            Ty::Ref(n, a) => {
                if self.spec.get(n).is_some() {
                    let (d, mut env) = self.sub(n, a)?;
                    env.enc_decl(d, v, out)
                } else {
                    match foreign(n).unwrap_or_else(|| panic!("no type {}", n)) {
                        Fk::Var(s) => {
                            let Val::I(b) = v else { panic!() };
                            let mut x = b & s.mask();
                            while x > 127 { out.push(x as u8 & 127 | 128); x >>= 7; }
                            out.push(x as u8);
                            Ok(Val::I(b & s.mask()))
                        }
                        Fk::Utf8 => {
                            let Val::S(s) = v else { panic!() };
                            match a.first() {
                                Some(e) => if self.len(e)? != s.len() as u128 { return Err(E::Bad("string length")) },
                                None => if s.contains('\0') { return Err(E::Bad("NUL in string")) },
                            }
                            out.extend_from_slice(s.as_bytes());
                            if a.is_empty() { out.push(0); }
                            Ok(v.clone())
                        }
                        Fk::Utf16 => {
                            let Val::S(s) = v else { panic!() };
                            let u: Vec<u16> = s.encode_utf16().collect();
                            if self.len(&a[0])? != u.len() as u128 { return Err(E::Bad("string length")); }
                            for x in u { out.extend_from_slice(&x.to_be_bytes()); }
                            Ok(v.clone())
                        }
                    }
                }
            }
            Ty::Cont(_) => panic!("container in type position"),
        }
    }
    pub fn enc_decl(&mut self, d: &'a Decl, v: &Val, out: &mut Vec<u8>) -> R<Val> {
        match &d.body.ty {
            Ty::Cont(c) if c.tagged => {
                let Val::V(ix, payload) = v else { panic!("variant {:?}", v) };
                let mut raw = vec![];
                let mut sel = None;
                for (i, it) in c.items.iter().enumerate() {
                    let Item::F(f) = it else { panic!() };
                    if self.cond(&f.cond)? { sel = Some((i, f)); break; }
                }
                let Some((i, f)) = sel else { return Err(E::Bad("no variant selected")) };
                if i != *ix { return Err(E::Bad("wrong variant")); }
                let nv = match &f.ty {
                    Ty::Cont(sc) => self.enc_struct(sc, payload, |env, vals, out| env.enc_cont_field(f, sc, vals, out), &mut raw)?,
                    t => { let mut plain = vec![]; let nv = self.enc_ty(t, payload, "", &mut plain)?; self.xform(f, &mut plain)?; raw.extend(plain); nv }
                };
                if let Some(l) = &c.len { if self.len(l)? != raw.len() as u128 { return Err(E::Bad("container length")); } }
                if !self.cond(&d.body.cond)? { return Ok(v.clone()); }
                self.xform(&d.body, &mut raw)?;
                out.extend(raw);
                Ok(Val::V(i, Box::new(nv)))
            }
            Ty::Cont(c) => {
                self.enc_struct(c, v, |env, vals, out| env.enc_cont_field(&d.body, c, vals, out), out)
            }
            t => {
                if !self.cond(&d.body.cond)? { return Ok(if d.body.cond.is_some() { Val::Nil } else { v.clone() }); }
                if *v == Val::Nil { return Err(E::Bad("absent value")); }
                let mut plain = vec![];
                let r = self.enc_ty(t, v, &d.name, &mut plain)?;
                self.xform(&d.body, &mut plain)?;
                out.extend(plain);
                Ok(r)
            }
        }
    }
    /// a complete struct: binds its flattened fields, iterates until every blen is known
    fn enc_struct(&mut self, c: &'a Cont, v: &Val, f: impl Fn(&mut Env<'a>, &mut Vec<Val>, &mut Vec<u8>) -> R<()>, out: &mut Vec<u8>) -> R<Val> {
        let fl = flatten(c);
        let Val::R(vals) = v else { panic!("struct {:?}", v) };
        assert_eq!(vals.len(), fl.len(), "field count of {:?}", v);
        let base = self.slots.len();
        for (x, y) in fl.iter().zip(vals) { self.slots.push(Slot { name: x.f.name.clone(), val: y.clone(), ty: x.f.ty.clone(), known: x.f.calc.is_none() }); }
        for _ in 0..6 {
            // calculated fields see the other fields
            for _ in 0..fl.len() { let mut at = base; self.calc_pass(c, Some(true), &mut at)?; }
            let mut raw = vec![];
            let mut nv = vec![];
            let before = self.blen.clone();
            f(self, &mut nv, &mut raw)?;
            let settled = self.slots[base..].iter().all(|s| s.known) && before == self.blen;
            if settled {
                self.slots.truncate(base);
                out.extend(raw);
                return Ok(Val::R(nv));
            }
        }
        panic!("blen does not settle: {}", self.spec.text())
    }
    fn holds_nothing(&self, t: &Ty) -> bool { match t { Ty::Ref(n, _) => self.spec.decls.iter().any(|d| d.name == *n && d.body.cond.is_some()), _ => false } }
    /// evaluates the calculated fields that are present (None: not known yet), `at` is the slot of the next field
    fn calc_pass(&mut self, c: &'a Cont, present: Option<bool>, at: &mut usize) -> R<()> {
        if present == Some(true) {
            // what is unconditionally in a container that is present must have a value
            let mut i = *at;
            for it in &c.items {
                let Item::F(g) = it else { continue };
                if let Ty::Cont(sc) = &g.ty { i += flatten(sc).len(); continue; }
                if g.calc.is_none() && g.cond.is_none() && self.slots[i].val == Val::Nil && !self.holds_nothing(&g.ty) { return Err(E::Bad("absent field")); }
                i += 1;
            }
        }
        for it in &c.items {
            let Item::F(g) = it else { continue };
            let p = match present { Some(true) => match self.cond(&g.cond) { Ok(b) => Some(b), Err(E::Unknown) => None, Err(e) => return Err(e) }, x => x };
            if let Ty::Cont(sc) = &g.ty { self.calc_pass(sc, p, at)?; continue; }
            if let Some(e) = &g.calc {
                let v = match p { Some(true) => match self.ev_ty(e, &g.ty)? { EV::Unknown => None, r => Some(self.coerce(r, &g.ty)?) }, Some(false) => Some(Val::Nil), None => None };
                self.slots[*at].known = v.is_some();
                if let Some(v) = v { self.slots[*at].val = v; }
            }
            *at += 1;
        }
        Ok(())
    }
    fn enc_cont_field(&mut self, f: &'a Field, c: &'a Cont, vals: &mut Vec<Val>, out: &mut Vec<u8>) -> R<()> {
        let mut raw = vec![];
        if !self.cond_now(&f.cond)? {
            for _ in flatten(c) { vals.push(Val::Nil); }
            if c.len.is_some() { self.set_blen(f, 0); }
            return Ok(());
        }
        for it in &c.items {
            match it {
                Item::Pad(e) => { let n = self.len(e)?; raw.extend(std::iter::repeat(0u8).take(n as usize)); }
                Item::F(g) => match &g.ty {
                    Ty::Cont(sc) => self.enc_cont_field(g, sc, vals, &mut raw)?,
                    t => {
                        let slot = self.slots.iter().rev().find(|s| s.name == g.name).unwrap().clone();
                        if !self.cond_now(&g.cond)? { vals.push(Val::Nil); continue; }
                        let mut plain = vec![];
                        if !slot.known {
                            plain.extend(std::iter::repeat(0u8).take(match t { Ty::Int(s, _) => s.bytes(), _ => 0 }));
                            vals.push(Val::I(0));
                        } else {
                            // a reference to a conditional alias is present even when the alias holds nothing
                            if slot.val == Val::Nil && !self.holds_nothing(t) { return Err(E::Bad("absent field")); }
                            vals.push(self.enc_ty(t, &slot.val, "", &mut plain)?);
                        }
                        self.xform(g, &mut plain)?;
                        raw.extend(plain);
                    }
                },
            }
        }
        if let Some(l) = &c.len {
            match self.len(l) { Ok(n) => if n != raw.len() as u128 { return Err(E::Bad("container length")); }, Err(E::Unknown) => (), Err(e) => return Err(e) }
            self.set_blen(f, raw.len() as u64);
        }
        self.xform(f, &mut raw)?;
        out.extend(raw);
        Ok(())
    }
    fn set_blen(&mut self, f: &Field, n: u64) { match self.blen.iter_mut().find(|x| x.0 == f.name) { Some(x) => x.1 = Some(n), None => self.blen.push((f.name.clone(), Some(n))) } }
    fn xform(&self, f: &Field, data: &mut Vec<u8>) -> R<()> {
        for x in &f.xf {
            if !self.cond(&x.cond)? { continue; }
            let args = x.args.iter().map(|a| { let v = self.ev_as(a, Sc::U8)?; self.coerce(v, &Ty::Int(Sc::U8, false)) }).collect::<R<Vec<_>>>()?;
            *data = xf_apply(&x.name, &args, data);
        }
        Ok(())
    }
}
fn put(out: &mut Vec<u8>, b: u128, s: Sc, le: bool) {
    let n = s.bytes();
    for i in 0..n { let k = if le { i } else { n - 1 - i }; out.push((b >> (8 * k)) as u8); }
}
fn get(b: &[u8], le: bool) -> u128 {
    let mut x = 0u128;
    for i in 0..b.len() { x = x << 8 | if le { b[b.len() - 1 - i] } else { b[i] } as u128; }
    x
}
/// the bytes a value must encode to, and the value a decoder must produce from them
pub fn encode(spec: &Spec, args: &[Val], v: &Val) -> R<(Vec<u8>, Val)> {
    let d = spec.root_decl();
    let mut env = decl_env(spec, d, args)?;
    let mut out = vec![];
    let n = env.enc_decl(d, v, &mut out)?;
    Ok((out, n))
}

// ------------------------------------------------------------------ decoder
pub trait Src {
    fn next(&mut self) -> R<Option<u8>>;
    /// up to n of the bytes to come
    fn peek(&mut self, n: usize) -> R<Vec<u8>>;
}
pub struct Bytes<'b> { pub data: &'b [u8], pub pos: usize, pub hit_end: bool }
impl<'b> Src for Bytes<'b> {
    fn next(&mut self) -> R<Option<u8>> {
        if self.pos < self.data.len() { self.pos += 1; Ok(Some(self.data[self.pos - 1])) } else { self.hit_end = true; Ok(None) }
    }
    fn peek(&mut self, n: usize) -> R<Vec<u8>> {
        let e = self.data.len().min(self.pos.saturating_add(n));
        if e < self.pos.saturating_add(n) { self.hit_end = true; }
        Ok(self.data[self.pos..e].to_vec())
    }
}
struct Limit<'s> { inner: &'s mut dyn Src, left: Rc<Cell<u128>> }
impl<'s> Src for Limit<'s> {
    fn next(&mut self) -> R<Option<u8>> { if self.left.get() == 0 { return Ok(None); } let b = self.inner.next()?; if b.is_some() { self.left.set(self.left.get() - 1); } Ok(b) }
    fn peek(&mut self, n: usize) -> R<Vec<u8>> { let n = (n as u128).min(self.left.get()) as usize; if n == 0 { Ok(vec![]) } else { self.inner.peek(n) } }
}
struct Fwd<'s>(&'s mut dyn Src);
impl<'s> Src for Fwd<'s> { fn next(&mut self) -> R<Option<u8>> { self.0.next() } fn peek(&mut self, n: usize) -> R<Vec<u8>> { self.0.peek(n) } }
struct Map<'s> { inner: Box<dyn Src + 's>, pos: usize, f: Box<dyn Fn(usize, u8) -> u8> }
impl<'s> Src for Map<'s> {
    fn next(&mut self) -> R<Option<u8>> { Ok(self.inner.next()?.map(|b| { self.pos += 1; (self.f)(self.pos - 1, b) })) }
    fn peek(&mut self, n: usize) -> R<Vec<u8>> { let p = self.pos; Ok(self.inner.peek(n)?.into_iter().enumerate().map(|(i, b)| (self.f)(p + i, b)).collect()) }
}
/// a block with a one-byte length in front and a trailer behind
struct Frame<'s> { inner: Box<dyn Src + 's>, buf: Option<Vec<u8>>, pos: usize }
impl<'s> Frame<'s> {
    fn fill(&mut self) -> R<()> {
        if self.buf.is_none() {
            let n = self.inner.next()?.ok_or(E::Eof)?;
            let mut v = vec![];
            for _ in 0..n { v.push(self.inner.next()?.ok_or(E::Eof)?); }
            if self.inner.next()?.ok_or(E::Eof)? != 0xee { return Err(E::Bad("frame trailer")); }
            self.buf = Some(v);
        }
        Ok(())
    }
}
impl<'s> Src for Frame<'s> {
    fn next(&mut self) -> R<Option<u8>> { self.fill()?; let b = self.buf.as_ref().unwrap().get(self.pos).copied(); if b.is_some() { self.pos += 1; } Ok(b) }
    fn peek(&mut self, n: usize) -> R<Vec<u8>> { self.fill()?; let b = self.buf.as_ref().unwrap(); Ok(b[self.pos..b.len().min(self.pos + n)].to_vec()) }
}
/// data that was read in full beforehand
struct Whole { data: Vec<u8>, pos: usize }
impl Src for Whole {
    fn next(&mut self) -> R<Option<u8>> { let b = self.data.get(self.pos).copied(); if b.is_some() { self.pos += 1; } Ok(b) }
    fn peek(&mut self, n: usize) -> R<Vec<u8>> { Ok(self.data[self.pos..self.data.len().min(self.pos.saturating_add(n))].to_vec()) }
}
/// one byte of a source at a time
struct OneByOne<'s, 't> { s: &'t mut (dyn Src + 's), b: Vec<u8> }
impl<'s, 't> std::io::Read for OneByOne<'s, 't> { fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> { use std::io::BufRead; if o.is_empty() { return Ok(0); } let n = self.fill_buf()?.len(); if n > 0 { o[0] = self.b[0]; self.consume(1); } Ok(n) } }
impl<'s, 't> std::io::BufRead for OneByOne<'s, 't> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> { if self.b.is_empty() { self.b = self.s.peek(1).map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "source"))?; } Ok(&self.b) }
    fn consume(&mut self, n: usize) { if n > 0 { let _ = self.s.next(); self.b.clear(); } }
}
fn take(s: &mut dyn Src, n: usize) -> R<Vec<u8>> { let mut v = vec![]; for _ in 0..n { v.push(s.next()?.ok_or(E::Eof)?); } Ok(v) }

/// elements a decoder may produce before the model gives up (guards the model itself)
const CAP: u128 = 1 << 20;

/// counts the bytes taken
struct Count<'s> { inner: &'s mut dyn Src, n: usize }
impl<'s> Src for Count<'s> {
    fn next(&mut self) -> R<Option<u8>> { let b = self.inner.next()?; if b.is_some() { self.n += 1; } Ok(b) }
    fn peek(&mut self, n: usize) -> R<Vec<u8>> { self.inner.peek(n) }
}

impl<'a> Env<'a> {
    /// an element of an array that ends where the data does: one without data would repeat forever
    fn dec_elem(&mut self, t: &Ty, s: &mut dyn Src) -> R<Val> {
        let mut c = Count { inner: s, n: 0 };
        let v = self.dec_ty(t, "", &mut c)?;
        if c.n == 0 { return Err(E::Bad("element without data")); }
        Ok(v)
    }
    fn dec_ty(&mut self, t: &Ty, top: &str, s: &mut dyn Src) -> R<Val> {
        Ok(match t {
            Ty::Int(sc, le) => Val::I(get(&take(s, sc.bytes())?, *le)),
            Ty::F32 => Val::F(get(&take(s, 4)?, false) as u64),
            Ty::F64 => Val::F(get(&take(s, 8)?, false) as u64),
            Ty::Bool => Val::B(take(s, 1)?[0] != 0),
            Ty::Enum(..) | Ty::Bits(..) => {
                let (is_enum, sc, le, items) = repr_items(self.spec, top).unwrap();
                let b = get(&take(s, sc.bytes())?, le);
                if is_enum { if !items.iter().any(|x| x.1.is_none() || x.1 == Some(b)) { return Err(E::Bad("enum value")); } }
                else if b & !items.iter().fold(0, |a, x| a | x.1.unwrap()) != 0 { return Err(E::Bad("undeclared bits")); }
                Val::I(b)
            }
            Ty::Arr(t, Len::Fix(e)) => {
                let n = self.len(e)?;
                let mut v = vec![];
                let mut i = 0;
                while i < n { v.push(self.dec_ty(t, "", s)?); i += 1; if i > CAP { panic!("model array too long") } }
                Val::A(v)
            }
            Ty::Arr(t, Len::Rest) => {
                let mut v = vec![];
                while !s.peek(1)?.is_empty() { v.push(self.dec_elem(t, s)?); }
                Val::A(v)
            }
            Ty::Arr(t, Len::Term(e)) => {
                let tm = match self.ev(e)? { EV::S(s) => s, x => panic!("terminator {:?}", x) };
                let mut v = vec![];
                loop {
                    let p = s.peek(tm.len())?;
                    if p.is_empty() { break; }
                    if p == tm { take(s, tm.len())?; break; }
                    v.push(self.dec_elem(t, s)?);
                }
                Val::A(v)
            }
            Ty::Ref(n, a) => {
                if self.spec.get(n).is_some() {
                    let (d, mut env) = self.sub(n, a)?;
                    env.dec_decl(d, s)?
                } else {
                    match foreign(n).unwrap() {
                        Fk::Var(sc) => {
                            let mut x = 0u128;
                            let mut sh = 0u32;
                            loop {
                                let b = take(s, 1)?[0];
                                let g = (b & 127) as u128;
                                if sh >= sc.bits() || sh + 7 > sc.bits() && g >> (sc.bits() - sh) != 0 { return Err(E::Bad("varint too large")); }
                                x |= g << sh;
                                sh += 7;
                                if b & 128 == 0 { break; }
                            }
                            Val::I(x)
                        }
                        Fk::Utf8 => {
                            let raw = match a.first() {
                                Some(e) => { let n = self.len(e)?; takebig(s, n)? }
                                None => { let mut v = vec![]; while let Some(b) = s.next()? { if b == 0 { break; } v.push(b); } v }
                            };
                            Val::S(String::from_utf8(raw).map_err(|_| E::Bad("utf8"))?)
                        }
                        Fk::Utf16 => {
                            let n = self.len(&a[0])?;
                            let raw = takebig(s, n.saturating_mul(2))?;
                            let u: Vec<u16> = raw.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
                            Val::S(String::from_utf16(&u).map_err(|_| E::Bad("utf16"))?)
                        }
                    }
                }
            }
            Ty::Cont(_) => panic!("container in type position"),
        })
    }
    pub fn dec_decl(&mut self, d: &'a Decl, s: &mut dyn Src) -> R<Val> {
        match &d.body.ty {
            Ty::Cont(c) if c.tagged => {
                if !self.cond(&d.body.cond)? { return Err(E::Bad("conditional tagged enum")); }
                self.undo(&d.body, s, |env, s| {
                    let mut lim;
                    let left = Rc::new(Cell::new(0));
                    let s: &mut dyn Src = match &c.len { Some(l) => { left.set(env.len(l)?); lim = Limit { left: left.clone(), inner: s }; &mut lim } None => s };
                    for (i, it) in c.items.iter().enumerate() {
                        let Item::F(f) = it else { panic!() };
                        if !env.cond(&f.cond)? { continue; }
                        let v = match &f.ty {
                            Ty::Cont(sc) => {
                                let base = env.slots.len();
                                let mut vals = vec![];
                                env.undo(f, s, |env, s| env.dec_items(sc, &mut vals, s))?;
                                env.slots.truncate(base);
                                Val::R(vals)
                            }
                            t => { let mut r = Val::Nil; env.undo(f, s, |env, s| { r = env.dec_ty(t, "", s)?; Ok(()) })?; r }
                        };
                        if left.get() > 0 { return Err(E::Bad("leftover bytes")); }
                        return Ok(Val::V(i, Box::new(v)));
                    }
                    Err(E::Bad("no variant selected"))
                })
            }
            Ty::Cont(c) => {
                let base = self.slots.len();
                let mut vals = vec![];
                if self.cond(&d.body.cond)? { self.undo(&d.body, s, |env, s| env.dec_items(c, &mut vals, s))?; }
                else { return Err(E::Bad("conditional container")); }
                self.slots.truncate(base);
                Ok(Val::R(vals))
            }
            t => {
                if !self.cond(&d.body.cond)? { return Ok(Val::Nil); }
                let mut r = Val::Nil;
                self.undo(&d.body, s, |env, s| { r = env.dec_ty(t, &d.name, s)?; Ok(()) })?;
                Ok(r)
            }
        }
    }
    fn dec_items(&mut self, c: &'a Cont, vals: &mut Vec<Val>, s: &mut dyn Src) -> R<()> {
        let mut lim;
        let left = Rc::new(Cell::new(0));
        let s: &mut dyn Src = match &c.len { Some(l) => { left.set(self.len(l)?); lim = Limit { left: left.clone(), inner: s }; &mut lim } None => s };
        for it in &c.items {
            match it {
                Item::Pad(e) => { let n = self.len(e)?; skip(s, n)?; }
                Item::F(g) => match &g.ty {
                    Ty::Cont(sc) => {
                        if self.cond(&g.cond)? { self.undo(g, s, |env, s| env.dec_items(sc, vals, s))?; }
                        else { for x in flatten(sc) { vals.push(Val::Nil); self.slots.push(Slot { name: x.f.name.clone(), val: Val::Nil, ty: x.f.ty.clone(), known: true }); } }
                    }
                    t => {
                        let mut v = Val::Nil;
                        if self.cond(&g.cond)? { self.undo(g, s, |env, s| { v = env.dec_ty(t, "", s)?; Ok(()) })?; }
                        self.slots.push(Slot { name: g.name.clone(), val: v.clone(), ty: g.ty.clone(), known: true });
                        vals.push(v);
                    }
                },
            }
        }
        if left.get() > 0 { return Err(E::Bad("leftover bytes")); }
        Ok(())
    }
    fn undo<T>(&mut self, f: &Field, s: &mut dyn Src, k: impl FnOnce(&mut Env<'a>, &mut dyn Src) -> R<T>) -> R<T> {
        let mut act = vec![];
        for x in f.xf.iter().rev() {
            if !self.cond(&x.cond)? { continue; }
            let mut a = None;
            for e in &x.args { let v = self.ev_as(e, Sc::U8)?; if let Val::I(b) = self.coerce(v, &Ty::Int(Sc::U8, false))? { a = Some(b as u8); } }
            act.push((x.name.clone(), a));
        }
        let mut cur: Box<dyn Src + '_> = Box::new(Fwd(s));
        for (n, a) in act {
            cur = match &*n {
                "xor" => Box::new(Map { inner: cur, pos: 0, f: Box::new(move |i, b| b ^ a.unwrap_or(0x55).wrapping_add(i as u8)) }),
                "add" => Box::new(Map { inner: cur, pos: 0, f: Box::new(move |_, b| b.wrapping_sub(a.unwrap_or(1))) }),
                "hold" => cur,
                "frame" => Box::new(Frame { inner: cur, buf: None, pos: 0 }),
                "gzip" => {
                    use std::io::Read;
                    let mut data = vec![];
                    flate2::bufread::GzDecoder::new(OneByOne { s: &mut *cur, b: vec![] }).read_to_end(&mut data).map_err(|_| E::Bad("gzip"))?;
                    Box::new(Whole { data, pos: 0 })
                }
                "base64" => {
                    let mut t = vec![];
                    while let Some(b) = cur.next()? { t.push(b); }
                    Box::new(Whole { data: b64_data(&t).ok_or(E::Bad("base64"))?, pos: 0 })
                }
                x => panic!("transform {}", x),
            };
        }
        k(self, &mut *cur)
    }
}
fn skip(s: &mut dyn Src, n: u128) -> R<()> { let mut i = 0; while i < n { s.next()?.ok_or(E::Eof)?; i += 1; } Ok(()) }
fn takebig(s: &mut dyn Src, n: u128) -> R<Vec<u8>> { let mut v = vec![]; let mut i = 0; while i < n { v.push(s.next()?.ok_or(E::Eof)?); i += 1; } Ok(v) }

pub struct Dec { pub res: R<Val>, pub used: usize, pub hit_end: bool }
pub fn decode(spec: &Spec, args: &[Val], data: &[u8]) -> Dec {
    let d = spec.root_decl();
    let mut b = Bytes { data, pos: 0, hit_end: false };
    let res = decl_env(spec, d, args).and_then(|mut env| env.dec_decl(d, &mut b));
    Dec { res, used: b.pos, hit_end: b.hit_end }
}
