//! Independent abstract syntax of the specification language, the value
//! universe, and the pretty printer to specification source text.
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sc { U8, U16, U32, U64, U128, I8, I16, I32, I64, I128 }
use Sc::*;
pub const ALL_SC: [Sc; 10] = [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128];
impl Sc {
    pub fn bytes(self) -> usize { match self { U8 | I8 => 1, U16 | I16 => 2, U32 | I32 => 4, U64 | I64 => 8, _ => 16 } }
    pub fn bits(self) -> u32 { self.bytes() as u32 * 8 }
    pub fn signed(self) -> bool { matches!(self, I8 | I16 | I32 | I64 | I128) }
    pub fn name(self) -> &'static str {
        match self { U8 => "u8", U16 => "u16", U32 => "u32", U64 => "u64", U128 => "u128", I8 => "i8", I16 => "i16", I32 => "i32", I64 => "i64", I128 => "i128" }
    }
    pub fn mask(self) -> u128 { if self.bytes() == 16 { u128::MAX } else { (1u128 << self.bits()) - 1 } }
    pub fn sx(self, b: u128) -> i128 {
        let b = b & self.mask();
        if self.signed() && self.bytes() < 16 && (b >> (self.bits() - 1)) & 1 == 1 { (b | !self.mask()) as i128 } else { b as i128 }
    }
    pub fn min_bits(self) -> u128 { if self.signed() { 1u128 << (self.bits() - 1) } else { 0 } }
    pub fn max_bits(self) -> u128 { if self.signed() { self.mask() >> 1 } else { self.mask() } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop { Or, And, BitOr, BitXor, BitAnd, Eq, Ne, Lt, Gt, Le, Ge, Shr, Shl, ShrS, Add, Sub, Mul, Div, Mod, Elvis }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Uop { Not, Neg, BitNot }
impl Bop {
    pub fn sym(self) -> &'static str {
        use Bop::*;
        match self { Or => "||", And => "&&", BitOr => "|", BitXor => "^", BitAnd => "&", Eq => "==", Ne => "!=", Lt => "<", Gt => ">", Le => "<=", Ge => ">=", Shr => ">>", Shl => "<<", ShrS => ">>>", Add => "+", Sub => "-", Mul => "*", Div => "/", Mod => "%", Elvis => "?:" }
    }
    /// binding level, larger binds tighter
    pub fn level(self) -> u8 {
        use Bop::*;
        match self { Or => 1, And => 2, BitOr => 3, BitXor => 4, BitAnd => 5, Eq | Ne => 6, Lt | Gt | Le | Ge => 7, Shr | Shl | ShrS => 8, Add | Sub => 9, Mul | Div | Mod => 10, Elvis => 11 }
    }
}

/// An expression.  Integer literals carry the type they are meant to have;
/// the flag says whether it is written as a suffix.
#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Int(u128, Sc, bool),
    Bool(bool),
    Str(Vec<u8>),
    /// field, input or constant
    Name(String),
    Bin(Bop, Box<Ex>, Box<Ex>),
    Un(Uop, Box<Ex>),
    Cast(Box<Ex>, Box<Ty>),
    Tern(Box<Ex>, Box<Ex>, Box<Ex>),
    Call(String, Vec<Ex>),
    Member(Box<Ex>, String),
    Variant(String, String),
    Index(Box<Ex>, Box<Ex>),
    Paren(Box<Ex>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(Sc, bool),
    F32, F64, Bool,
    Arr(Box<Ty>, Len),
    Cont(Cont),
    Enum(Sc, bool, Vec<(String, EVal)>),
    Bits(Sc, bool, Vec<(String, Option<Ex>)>),
    Ref(String, Vec<Ex>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum EVal { Ex(Ex), Next, Default }
#[derive(Clone, Debug, PartialEq)]
pub enum Len { Fix(Ex), Rest, Term(Ex) }
#[derive(Clone, Debug, PartialEq)]
pub struct Cont { pub len: Option<Ex>, pub tagged: bool, pub items: Vec<Item> }
#[derive(Clone, Debug, PartialEq)]
pub enum Item { F(Field), Pad(Ex) }
#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub name: String, pub ty: Ty, pub calc: Option<Ex>, pub cond: Option<Ex>, pub xf: Vec<Xf>,
    /// value domain override for enumeration
    pub dom: Option<Vec<Val>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Xf { pub name: String, pub args: Vec<Ex>, pub cond: Option<Ex> }
#[derive(Clone, Debug, PartialEq)]
pub struct Decl { pub name: String, pub params: Vec<(String, Ty, Option<Ex>)>, pub body: Field }
#[derive(Clone, Debug)]
pub struct Spec {
    pub fam: &'static str,
    pub consts: Vec<(String, Ty, Ex)>,
    pub ffi: Vec<(String, &'static str)>,
    pub decls: Vec<Decl>,
    pub root: String,
    /// argument tuples for the root (one empty tuple if it has no parameters)
    pub args: Vec<Vec<Val>>,
    /// chunks the byte-string exploration is made of (None: default bytes)
    pub alphabet: Option<Vec<Vec<u8>>>,
    /// all beginnings of this length are decoded and encoded back
    pub complete: usize,
    /// at least this many values are enumerated, whatever the tier
    pub big: usize,
    /// reads to the end of its stream
    pub open: bool,
    pub no_async: bool,
    /// imported file texts are not modelled here; extra source text appended verbatim
    pub note: String,
}

/// A value. Optional fields hold `Nil` or the plain value.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val { I(u128), F(u64), B(bool), A(Vec<Val>), S(String), Nil, R(Vec<Val>), V(usize, Box<Val>) }
impl Val {
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.sh(&mut s);
        s
    }
    fn sh(&self, s: &mut String) {
        match self {
            Val::I(x) => { if *x > 0xffff { let _ = write!(s, "{:#x}", x); } else { let _ = write!(s, "{}", x); } }
            Val::F(x) => { let _ = write!(s, "f{:#x}", x); }
            Val::B(b) => { let _ = write!(s, "{}", b); }
            Val::A(v) => { s.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { s.push(','); } x.sh(s); } s.push(']'); }
            Val::R(v) => { s.push('{'); for (i, x) in v.iter().enumerate() { if i > 0 { s.push(','); } x.sh(s); } s.push('}'); }
            Val::S(t) => { let _ = write!(s, "{:?}", t); }
            Val::Nil => s.push_str("None"),
            Val::V(i, x) => { let _ = write!(s, "#{}", i); x.sh(s); }
        }
    }
}

// ---------------------------------------------------------------- builders
pub fn lit(v: u128, s: Sc) -> Ex { Ex::Int(v, s, false) }
pub fn lits(v: u128, s: Sc) -> Ex { Ex::Int(v, s, true) }
pub fn nm(s: &str) -> Ex { Ex::Name(s.to_string()) }
pub fn bin(o: Bop, a: Ex, b: Ex) -> Ex { Ex::Bin(o, Box::new(a), Box::new(b)) }
pub fn un(o: Uop, a: Ex) -> Ex { Ex::Un(o, Box::new(a)) }
pub fn cast(a: Ex, s: Sc) -> Ex { Ex::Cast(Box::new(a), Box::new(Ty::Int(s, false))) }
pub fn call(f: &str, a: Vec<Ex>) -> Ex { Ex::Call(f.to_string(), a) }
pub fn tern(c: Ex, a: Ex, b: Ex) -> Ex { Ex::Tern(Box::new(c), Box::new(a), Box::new(b)) }
pub fn ti(s: Sc) -> Ty { Ty::Int(s, false) }
pub fn tl(s: Sc) -> Ty { Ty::Int(s, true) }
pub fn rf(n: &str) -> Ty { Ty::Ref(n.to_string(), vec![]) }
pub fn rfa(n: &str, a: Vec<Ex>) -> Ty { Ty::Ref(n.to_string(), a) }
pub fn arr(t: Ty, n: Ex) -> Ty { Ty::Arr(Box::new(t), Len::Fix(n)) }
pub fn rest(t: Ty) -> Ty { Ty::Arr(Box::new(t), Len::Rest) }
pub fn term(t: Ty, s: &[u8]) -> Ty { Ty::Arr(Box::new(t), Len::Term(Ex::Str(s.to_vec()))) }
pub fn cont(items: Vec<Item>) -> Ty { Ty::Cont(Cont { len: None, tagged: false, items }) }
pub fn contl(len: Ex, items: Vec<Item>) -> Ty { Ty::Cont(Cont { len: Some(len), tagged: false, items }) }
pub fn tagged(items: Vec<Item>) -> Ty { Ty::Cont(Cont { len: None, tagged: true, items }) }
pub fn fld(name: &str, ty: Ty) -> Field { Field { name: name.to_string(), ty, calc: None, cond: None, xf: vec![], dom: None } }
pub fn it(name: &str, ty: Ty) -> Item { Item::F(fld(name, ty)) }
impl Field {
    pub fn when(mut self, c: Ex) -> Field { self.cond = Some(c); self }
    pub fn is(mut self, c: Ex) -> Field { self.calc = Some(c); self }
    pub fn via(mut self, n: &str, args: Vec<Ex>, cond: Option<Ex>) -> Field { self.xf.push(Xf { name: n.to_string(), args, cond }); self }
    pub fn ints(mut self, d: &[u128]) -> Field { self.dom = Some(d.iter().map(|x| Val::I(*x)).collect()); self }
    pub fn dom(mut self, d: Vec<Val>) -> Field { self.dom = Some(d); self }
    pub fn i(self) -> Item { Item::F(self) }
}
pub fn decl(name: &str, ty: Ty) -> Decl { Decl { name: name.to_string(), params: vec![], body: fld("", ty) } }
pub fn declf(name: &str, f: Field) -> Decl { Decl { name: name.to_string(), params: vec![], body: f } }
impl Decl {
    pub fn p(mut self, n: &str, t: Ty) -> Decl { self.params.push((n.to_string(), t, None)); self }
    pub fn po(mut self, n: &str, t: Ty, d: Ex) -> Decl { self.params.push((n.to_string(), t, Some(d))); self }
}
pub fn spec(fam: &'static str, decls: Vec<Decl>) -> Spec {
    let root = decls.last().unwrap().name.clone();
    let mut s = Spec { fam, consts: vec![], ffi: vec![], decls, root, args: vec![vec![]], alphabet: None, complete: 0, big: 0, open: false, no_async: false, note: String::new() };
    s.auto_ffi();
    s
}
impl Spec {
    pub fn args(mut self, a: Vec<Vec<Val>>) -> Spec { self.args = a; self }
    pub fn alpha(mut self, a: &[&[u8]]) -> Spec { self.alphabet = Some(a.iter().map(|x| x.to_vec()).collect()); self }
    pub fn complete(mut self, n: usize) -> Spec { self.complete = n; self }
    pub fn big(mut self, n: usize) -> Spec { self.big = n; self }
    pub fn open(mut self) -> Spec { self.open = true; self }
    pub fn consts(mut self, c: Vec<(&str, Ty, Ex)>) -> Spec { self.consts = c.into_iter().map(|(a, b, c)| (a.to_string(), b, c)).collect(); self.auto_ffi(); self }
    pub fn noasync(mut self) -> Spec { self.no_async = true; self }
    pub fn note(mut self, n: &str) -> Spec { self.note = n.to_string(); self }
    pub fn get(&self, n: &str) -> Option<&Decl> { self.decls.iter().find(|d| d.name == n) }
    pub fn ffi_names(&self) -> impl Iterator<Item = &str> { self.ffi.iter().map(|x| x.0.as_str()) }
    pub fn root_decl(&self) -> &Decl { self.get(&self.root).unwrap() }
    /// adds the import_ffi declarations the specification needs
    fn auto_ffi(&mut self) {
        let mut seen: Vec<(String, &'static str)> = vec![];
        fn ex(e: &Ex, s: &mut Vec<(String, &'static str)>) {
            match e {
                Ex::Bin(_, a, b) | Ex::Index(a, b) => { ex(a, s); ex(b, s) }
                Ex::Un(_, a) | Ex::Paren(a) | Ex::Member(a, _) => ex(a, s),
                Ex::Cast(a, t) => { ex(a, s); ty(t, s) }
                Ex::Tern(a, b, c) => { ex(a, s); ex(b, s); ex(c, s) }
                Ex::Call(f, a) => {
                    if ["pad", "bits", "sum"].contains(&&**f) { add(f, "function", s) }
                    for x in a { ex(x, s) }
                }
                _ => (),
            }
        }
        fn add(n: &str, k: &'static str, s: &mut Vec<(String, &'static str)>) { if !s.iter().any(|x| x.0 == n) { s.push((n.to_string(), k)) } }
        fn ty(t: &Ty, s: &mut Vec<(String, &'static str)>) {
            match t {
                Ty::Arr(t, l) => { ty(t, s); match l { Len::Fix(e) | Len::Term(e) => ex(e, s), _ => () } }
                Ty::Cont(c) => { if let Some(e) = &c.len { ex(e, s) } for i in &c.items { match i { Item::F(f) => field(f, s), Item::Pad(e) => ex(e, s) } } }
                Ty::Ref(n, a) => { if crate::sem::foreign(n).is_some() { add(n, "type", s) } for x in a { ex(x, s) } }
                _ => (),
            }
        }
        fn field(f: &Field, s: &mut Vec<(String, &'static str)>) {
            ty(&f.ty, s);
            for e in f.calc.iter().chain(f.cond.iter()) { ex(e, s) }
            for x in &f.xf { add(&x.name, "transform", s); for e in x.args.iter().chain(x.cond.iter()) { ex(e, s) } }
        }
        for d in &self.decls { for p in &d.params { ty(&p.1, &mut seen); if let Some(e) = &p.2 { ex(e, &mut seen) } } field(&d.body, &mut seen) }
        for c in &self.consts { ex(&c.2, &mut seen) }
        let names: Vec<String> = self.decls.iter().map(|d| d.name.clone()).collect();
        seen.retain(|x| x.1 != "type" || !names.contains(&x.0));
        self.ffi = seen;
    }
    pub fn decl_texts(&self) -> Vec<String> {
        let mut out = vec![];
        for (n, k) in &self.ffi { out.push(format!("import_ffi {} as {};", n, k)); }
        for (n, t, e) in self.consts.iter().filter(|x| !matches!(x.1, Ty::Ref(..))) { out.push(format!("const {}: {} = {};", bare(n), pty(t), pex(e))); }
        for d in &self.decls {
            let mut s = format!("type {}", d.name);
            if !d.params.is_empty() {
                s.push('(');
                for (i, (n, t, def)) in d.params.iter().enumerate() {
                    if i > 0 { s.push_str(", "); }
                    let _ = write!(s, "{}: {}", bare(n), pty(t));
                    if let Some(x) = def { let _ = write!(s, " ? {}", pex(x)); }
                }
                s.push(')');
            }
            let _ = write!(s, " = {};", pfield(&d.body));
            out.push(s);
        }
        // constants see only the enums and bitfields declared before them
        for (n, t, e) in self.consts.iter().filter(|x| matches!(x.1, Ty::Ref(..))) { out.push(format!("const {}: {} = {};", bare(n), pty(t), pex(e))); }
        out
    }
    pub fn text(&self) -> String { let mut s = self.decl_texts().join("\n"); s.push('\n'); s }
}

// ---------------------------------------------------------------- printer
/// names may carry a mark after ' that tells the declarations of one name apart
pub fn bare(n: &str) -> &str { n.split('\'').next().unwrap() }
pub fn pty(t: &Ty) -> String {
    match t {
        Ty::Int(s, le) => format!("{}{}", s.name(), if *le && s.bytes() > 1 { "le" } else { "" }),
        Ty::F32 => "f32".into(), Ty::F64 => "f64".into(), Ty::Bool => "bool".into(),
        Ty::Arr(t, l) => match l {
            Len::Fix(e) => format!("{}[{}]", pty(t), pex(e)),
            Len::Rest => format!("{}[..]", pty(t)),
            Len::Term(e) => format!("{}[..{}]", pty(t), pex(e)),
        },
        Ty::Cont(c) => {
            let mut s = String::from("container ");
            if let Some(l) = &c.len { let _ = write!(s, "[{}] ", pex(l)); }
            if c.tagged { s.push_str("+tagged_enum "); }
            s.push_str("{ ");
            for i in &c.items {
                match i { Item::F(f) => { let _ = write!(s, "{}: {}, ", bare(&f.name), pfield(f)); } Item::Pad(e) => { let _ = write!(s, ".pad: {}, ", pex(e)); } }
            }
            s.push('}');
            s
        }
        Ty::Enum(sc, le, items) => {
            let mut s = format!("enum {} {{ ", pty(&Ty::Int(*sc, *le)));
            for (n, v) in items { match v { EVal::Ex(e) => { let _ = write!(s, "{} = {}, ", n, pex(e)); } EVal::Next => { let _ = write!(s, "{}, ", n); } EVal::Default => { let _ = write!(s, "{} = default, ", n); } } }
            s.push('}');
            s
        }
        Ty::Bits(sc, le, items) => {
            let mut s = format!("bitfield {} {{ ", pty(&Ty::Int(*sc, *le)));
            for (n, v) in items { match v { Some(e) => { let _ = write!(s, "{} = {}, ", n, pex(e)); } None => { let _ = write!(s, "{}, ", n); } } }
            s.push('}');
            s
        }
        Ty::Ref(n, a) => if a.is_empty() { n.clone() } else { format!("{}({})", n, a.iter().map(pex).collect::<Vec<_>>().join(", ")) },
    }
}
pub fn pfield(f: &Field) -> String {
    let mut s = pty(&f.ty);
    if let Some(c) = &f.calc { let _ = write!(s, " = {}", pex(c)); }
    if let Some(c) = &f.cond { let _ = write!(s, " {{ {} }}", pex(c)); }
    for x in &f.xf {
        let _ = write!(s, " -> {}", x.name);
        if !x.args.is_empty() { let _ = write!(s, "({})", x.args.iter().map(pex).collect::<Vec<_>>().join(", ")); }
        if let Some(c) = &x.cond { let _ = write!(s, " {{ {} }}", pex(c)); }
    }
    s
}
/// level of the outermost construct: 0 ternary, 1..=10 binary, 11 cast/elvis, 12 unary, 13 postfix
fn lvl(e: &Ex) -> u8 {
    match e { Ex::Tern(..) => 0, Ex::Bin(o, ..) => o.level(), Ex::Cast(..) => 11, Ex::Un(..) => 12, _ => 13 }
}
fn at(e: &Ex, min: u8) -> String { if lvl(e) < min { format!("({})", pex(e)) } else { pex(e) } }
/// prints with the minimal parentheses the grammar needs
pub fn pex(e: &Ex) -> String {
    match e {
        Ex::Int(v, s, suf) => {
            let body = if s.signed() && !*suf && s.sx(*v) < 0 { panic!("negative literals are written with unary minus") } else { v.to_string() };
            if *suf { format!("{}{}", body, s.name()) } else { body }
        }
        Ex::Bool(b) => b.to_string(),
        Ex::Str(s) => {
            let mut o = String::from("\"");
            for c in s { if (0x20..0x7f).contains(c) && *c != b'"' && *c != b'\\' { o.push(*c as char) } else { let _ = write!(o, "\\{:02x}", c); } }
            o.push('"');
            o
        }
        Ex::Name(n) => bare(n).to_string(),
        Ex::Bin(Bop::Elvis, a, b) => format!("{} ?: {}", at(a, 11), at(b, 12)),
        Ex::Bin(o, a, b) => format!("{} {} {}", at(a, o.level()), o.sym(), at(b, o.level() + 1)),
        Ex::Un(o, a) => format!("{}{}", match o { Uop::Not => "!", Uop::Neg => "-", Uop::BitNot => "~" }, at(a, 12)),
        Ex::Cast(a, t) => format!("{} :> {}", at(a, 11), pty(t)),
        Ex::Tern(c, a, b) => format!("{} ? {} : {}", at(c, 1), pex(a), at(b, 1)),
        Ex::Call(f, a) => format!("{}({})", f, a.iter().map(pex).collect::<Vec<_>>().join(", ")),
        Ex::Member(a, m) => format!("{}.{}", at(a, 13), m),
        Ex::Variant(e, v) => format!("{}::{}", e, v),
        Ex::Index(a, i) => format!("{}[{}]", at(a, 13), pex(i)),
        Ex::Paren(a) => format!("({})", pex(a)),
    }
}
