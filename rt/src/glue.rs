//! Writes the Rust code that connects generated types with model values.
use crate::ast::*;
use crate::sem::{flatten, foreign, repr_items, Fk};
use std::fmt::Write;

fn mk(s: Sc) -> &'static str { s.name() }
fn unsigned(s: Sc) -> &'static str { match s.bytes() { 1 => "u8", 2 => "u16", 4 => "u32", 8 => "u64", _ => "u128" } }
/// expression turning `e` (a reference) into a Val
fn to(t: &Ty, e: &str, spec: &Spec) -> String {
    match t {
        Ty::Int(s, _) => format!("Val::I(*{} as {} as u128)", e, unsigned(*s)),
        Ty::F32 | Ty::F64 => format!("Val::F({}.to_bits() as u64)", e),
        Ty::Bool => format!("Val::B(*{})", e),
        Ty::Arr(t, _) => format!("Val::A({}.iter().map(|x| {}).collect())", e, to(t, "x", spec)),
        Ty::Ref(n, _) => if spec.get(n).is_some() { format!("to_{}({})", n, e) } else {
            match foreign(n).unwrap() { Fk::Var(s) => format!("Val::I(*{} as {} as u128)", e, unsigned(s)), _ => format!("Val::S({}.clone())", e) }
        },
        _ => panic!("inline type"),
    }
}
fn from(t: &Ty, e: &str, spec: &Spec) -> String {
    match t {
        Ty::Int(s, _) => format!("(gi({}) as {})", e, mk(*s)),
        Ty::F32 => format!("f32::from_bits(gf({}) as u32)", e),
        Ty::F64 => format!("f64::from_bits(gf({}))", e),
        Ty::Bool => format!("gb({})", e),
        Ty::Arr(t, _) => format!("ga({}).iter().map(|x| {}).collect::<Vec<_>>()", e, from(t, "x", spec)),
        Ty::Ref(n, _) => if spec.get(n).is_some() { format!("from_{}({})", n, e) } else {
            match foreign(n).unwrap() { Fk::Var(s) => format!("(gi({}) as {})", e, mk(s)), _ => format!("gs({})", e) }
        },
        _ => panic!("inline type"),
    }
}
fn to_opt(t: &Ty, o: bool, e: &str, spec: &Spec) -> String {
    if o { format!("match {} {{ Some(y) => {}, None => Val::Nil }}", e, to(t, "y", spec)) } else { to(t, e, spec) }
}
fn from_opt(t: &Ty, o: bool, e: &str, spec: &Spec) -> String {
    if o { format!("(if *{0} == Val::Nil {{ None }} else {{ Some({1}) }})", e, from(t, e, spec)) } else { from(t, e, spec) }
}

/// independent spelling of the names derived for flags
pub fn snake(n: &str) -> String {
    let mut o = String::new();
    for (i, c) in n.chars().enumerate() {
        if c.is_ascii_uppercase() && i > 0 && !o.ends_with('_') { o.push('_'); }
        o.push(c.to_ascii_lowercase());
    }
    o
}
fn needs(spec: &Spec) -> Vec<&Decl> {
    // declarations that produce a Rust type
    spec.decls.iter().collect()
}
pub fn glue(spec: &Spec, with_async: bool) -> String {
    let mut s = String::from("#[allow(unused_imports)] use rt::ast::Val; use rt::glue::*;\n");
    let mut probe = String::new();
    for d in needs(spec) {
        let n = &d.name;
        match &d.body.ty {
            Ty::Cont(c) if c.tagged => {
                let (mut a, mut b) = (String::new(), String::new());
                for (i, x) in c.items.iter().enumerate() {
                    let Item::F(f) = x else { panic!() };
                    match &f.ty {
                        Ty::Cont(sc) => {
                            let fl = flatten(sc);
                            let names: Vec<&str> = fl.iter().map(|x| bare(&x.f.name)).collect();
                            let _ = write!(a, "ty::{}::{} {{ {} }} => Val::V({}, Box::new(Val::R(vec![{}]))),\n", n, bare(&f.name), names.join(", "), i, fl.iter().map(|x| to_opt(&x.f.ty, x.optional, bare(&x.f.name), spec)).collect::<Vec<_>>().join(", "));
                            let _ = write!(b, "Val::V({}, p) => {{ let p = gr(p); ty::{}::{} {{ {} }} }}\n", i, n, bare(&f.name), fl.iter().enumerate().map(|(k, x)| format!("{}: {}", bare(&x.f.name), from_opt(&x.f.ty, x.optional, &format!("(&p[{}])", k), spec))).collect::<Vec<_>>().join(", "));
                        }
                        t => {
                            let _ = write!(a, "ty::{}::{}(p) => Val::V({}, Box::new({})),\n", n, bare(&f.name), i, to(t, "p", spec));
                            let _ = write!(b, "Val::V({}, p) => {{ let p: &Val = p; ty::{}::{}({}) }}\n", i, n, bare(&f.name), from(t, "p", spec));
                        }
                    }
                }
                let _ = write!(s, "pub fn to_{0}(v: &ty::{0}) -> Val {{ match v {{ {1} }} }}\npub fn from_{0}(v: &Val) -> ty::{0} {{ match v {{ {2} x => panic!(\"{{:?}}\", x) }} }}\n", n, a, b);
            }
            Ty::Cont(c) => {
                let fl = flatten(c);
                let a: Vec<String> = fl.iter().map(|x| to_opt(&x.f.ty, x.optional, &format!("(&v.{})", bare(&x.f.name)), spec)).collect();
                let b: Vec<String> = fl.iter().enumerate().map(|(i, x)| format!("{}: {}", bare(&x.f.name), from_opt(&x.f.ty, x.optional, &format!("(&p[{}])", i), spec))).collect();
                let _ = write!(s, "pub fn to_{0}(v: &ty::{0}) -> Val {{ Val::R(vec![{1}]) }}\npub fn from_{0}(v: &Val) -> ty::{0} {{ let p = gr(v); ty::{0} {{ {2} }} }}\n", n, a.join(", "), b.join(", "));
            }
            Ty::Enum(sc, _, _) => {
                let _ = write!(s, "pub fn to_{0}(v: &ty::{0}) -> Val {{ Val::I(v.clone().to_repr() as {1} as u128) }}\npub fn from_{0}(v: &Val) -> ty::{0} {{ ty::{0}::from_repr(gi(v) as {2}).unwrap() }}\n", n, unsigned(*sc), mk(*sc));
                for (x, v) in repr_items(spec, n).unwrap().3 {
                    if v.is_some() { let _ = write!(probe, "f(\"{0}::{1}\".into(), ty::{0}::{1}.to_repr() as {2} as u128);\nf(\"from_repr({0}::{1})\".into(), (ty::{0}::from_repr(ty::{0}::{1}.to_repr()).map(|x| format!(\"{{:?}}\", x)).unwrap_or_default() == \"{1}\") as u128);\n", n, x, unsigned(*sc)); }
                    else { let _ = write!(probe, "f(\"{0}::{1}\".into(), ty::{0}::{1}(0x42).to_repr() as {2} as u128);\n", n, x, unsigned(*sc)); }
                }
            }
            Ty::Bits(sc, _, _) => {
                let _ = write!(s, "pub fn to_{0}(v: &ty::{0}) -> Val {{ Val::I(v.0 as {1} as u128) }}\npub fn from_{0}(v: &Val) -> ty::{0} {{ ty::{0}(gi(v) as {2}) }}\n", n, unsigned(*sc), mk(*sc));
                let items = repr_items(spec, n).unwrap().3;
                let u = unsigned(*sc);
                let _ = write!(probe, "f(\"{0}::ALL\".into(), ty::{0}::ALL.0 as {1} as u128);\nf(\"{0}::ZERO\".into(), ty::{0}::ZERO.0 as {1} as u128);\n", n, u);
                for (x, _) in &items {
                    let _ = write!(probe, "f(\"{0}::{1}\".into(), ty::{0}::{2}.0 as {3} as u128);\n", n, x, snake(x).to_uppercase(), u);
                    let _ = write!(probe, "{{ let mut z = ty::{0}::ZERO; z.set_{1}(); f(\"{0}.set_{1}\".into(), z.0 as {2} as u128); let mut y = ty::{0}::ALL; y.set_{1}(); f(\"ALL.set_{1}\".into(), y.0 as {2} as u128); }}\n", n, snake(x), u);
                    for (y, _) in &items { let _ = write!(probe, "f(\"{0}::{1}.{2}()\".into(), ty::{0}::{3}.{4}() as u128);\n", n, x, y, snake(x).to_uppercase(), snake(y)); }
                    let _ = write!(probe, "f(\"{0}::ZERO.{1}()\".into(), ty::{0}::ZERO.{2}() as u128);\n", n, x, snake(x));
                }
                for (x, _) in &items { for (y, _) in &items {
                    let (a, b) = (snake(x).to_uppercase(), snake(y).to_uppercase());
                    let _ = write!(probe, "f(\"{0} {3}|{4}\".into(), (ty::{0}::{1} | ty::{0}::{2}).0 as {5} as u128); f(\"{0} {3}&{4}\".into(), (ty::{0}::{1} & ty::{0}::{2}).0 as {5} as u128); f(\"{0} {3}^{4}\".into(), (ty::{0}::{1} ^ ty::{0}::{2}).0 as {5} as u128);\n", n, a, b, x, y, u);
                    let _ = write!(probe, "{{ let mut z = ty::{0}::{1}; z |= ty::{0}::{2}; f(\"|=\".into(), z.0 as {3} as u128); let mut z = ty::{0}::{1}; z &= ty::{0}::{2}; f(\"&=\".into(), z.0 as {3} as u128); let mut z = ty::{0}::{1}; z ^= ty::{0}::{2}; f(\"^=\".into(), z.0 as {3} as u128); }}\n", n, a, b, u);
                } }
            }
            t => {
                let o = d.body.cond.is_some();
                let _ = write!(s, "pub fn to_{0}(v: &ty::{0}) -> Val {{ {1} }}\npub fn from_{0}(v: &Val) -> ty::{0} {{ ty::{0}({2}) }}\n", n, to_opt(t, o, "(&v.0)", spec), from_opt(t, o, "v", spec));
            }
        }
    }
    let r = spec.root_decl();
    let args: String = r.params.iter().enumerate().map(|(i, (_, t, d))| format!(", {}", from_opt(t, d.is_some(), &format!("(&a[{}])", i), spec))).collect();
    let n = &spec.root;
    let _ = write!(s, "pub fn enc(v: &Val, a: &[Val], w: &mut dyn std::io::Write) -> Result<(), String> {{ let mut w = w; from_{0}(v).encode_sync(&mut w{1}).map_err(|e| e.to_string()) }}\n", n, args);
    let _ = write!(s, "pub fn dec(a: &[Val], r: &mut dyn std::io::BufRead) -> Result<Val, String> {{ let mut r = r; ty::{0}::decode_sync(&mut r{1}).map(|x| to_{0}(&x)).map_err(|e| e.to_string()) }}\n", n, args);
    if with_async {
        let _ = write!(s, "pub fn enc_a<'a>(v: &'a Val, a: &'a [Val], w: &'a mut rt::env::aio::AWr<'a>) -> rt::run::Fut<'a, ()> {{ Box::pin(async move {{ from_{0}(v).encode_async(w{1}).await.map_err(|e| e.to_string()) }}) }}\n", n, args);
        let _ = write!(s, "pub fn dec_a<'a>(a: &'a [Val], r: &'a mut rt::env::aio::ARd<'a>) -> rt::run::Fut<'a, Val> {{ Box::pin(async move {{ ty::{0}::decode_async(r{1}).await.map(|x| to_{0}(&x)).map_err(|e| e.to_string()) }}) }}\n", n, args);
    }
    let _ = write!(s, "pub fn probe(f: &mut dyn FnMut(String, u128)) {{ {} }}\n", probe);
    let _ = write!(s, "pub static CODEC: rt::run::Codec = rt::run::Codec {{ enc, dec, {} probe }};\n", if with_async { "enc_a, dec_a," } else { "" });
    s
}
/// what the probes of a specification must report
pub fn probe_expect(spec: &Spec) -> Vec<(String, u128)> {
    let mut out = vec![];
    for d in needs(spec) {
        let n = &d.name;
        let Some((is_enum, _, _, items)) = repr_items(spec, n) else { continue };
        if is_enum {
            for (x, v) in items {
                match v { Some(v) => { out.push((format!("{}::{}", n, x), v)); out.push((format!("from_repr({}::{})", n, x), 1)); } None => out.push((format!("{}::{}", n, x), 0x42)) }
            }
        } else {
            let all = items.iter().fold(0, |a, x| a | x.1.unwrap());
            out.push((format!("{}::ALL", n), all));
            out.push((format!("{}::ZERO", n), 0));
            for (x, v) in &items {
                let v = v.unwrap();
                out.push((format!("{}::{}", n, x), v));
                out.push((format!("{}.set_{}", n, snake(x)), v));
                out.push((format!("ALL.set_{}", snake(x)), all));
                for (y, w) in &items { out.push((format!("{}::{}.{}()", n, x, y), (v & w.unwrap() != 0) as u128)); }
                out.push((format!("{}::ZERO.{}()", n, x), 0));
            }
            for (x, v) in &items { for (y, w) in &items {
                let (v, w) = (v.unwrap(), w.unwrap());
                out.push((format!("{} {}|{}", n, x, y), v | w));
                out.push((format!("{} {}&{}", n, x, y), v & w));
                out.push((format!("{} {}^{}", n, x, y), v ^ w));
                out.push(("|=".into(), v | w));
                out.push(("&=".into(), v & w));
                out.push(("^=".into(), v ^ w));
            } }
        }
    }
    out
}
// helpers of the glue
pub fn gi(v: &Val) -> u128 { match v { Val::I(x) => *x, x => panic!("int {:?}", x) } }
pub fn gf(v: &Val) -> u64 { match v { Val::F(x) => *x, x => panic!("float {:?}", x) } }
pub fn gb(v: &Val) -> bool { match v { Val::B(x) => *x, x => panic!("bool {:?}", x) } }
pub fn ga(v: &Val) -> &Vec<Val> { match v { Val::A(x) => x, x => panic!("array {:?}", x) } }
pub fn gr(v: &Val) -> &Vec<Val> { match v { Val::R(x) => x, x => panic!("struct {:?}", x) } }
pub fn gs(v: &Val) -> String { match v { Val::S(x) => x.clone(), x => panic!("string {:?}", x) } }
