//! Runs the front end of the code under test.
use proc_macro2::TokenStream;
use protospec_build as pb;
use quote::quote;
use std::cell::RefCell;
use std::collections::HashMap;

/// resolver of imports (texts given) and of the test transforms
#[derive(Clone, Default)]
pub struct Res { pub files: HashMap<String, String>, pub fail: Option<String> }

struct Xf(&'static str);
impl pb::ForeignTransform for Xf {
    fn decoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        if self.0 == "frame" { return if is_async { quote! { rt::xf::aio::AFrameR::new(#s) } } else { quote! { rt::xf::FrameR::new(#s) } }; }
        let k = kind(self.0, a);
        if is_async { quote! { rt::xf::aio::AMapR::new(#s, #k) } } else { quote! { rt::xf::MapR::new(#s, #k) } }
    }
    fn encoding_gen(&self, s: TokenStream, a: Vec<TokenStream>, is_async: bool) -> TokenStream {
        if self.0 == "frame" { return if is_async { quote! { rt::xf::aio::AFrameW(#s, vec![]) } } else { quote! { rt::xf::FrameW(#s, vec![]) } }; }
        if self.0 == "hold" { return if is_async { quote! { rt::xf::aio::AHoldW(#s, vec![], 0) } } else { quote! { rt::xf::HoldW(#s, vec![]) } }; }
        let k = kind(self.0, a);
        if is_async { quote! { rt::xf::aio::AMapW(#s, #k, 0) } } else { quote! { rt::xf::MapW(#s, #k, 0) } }
    }
    fn finish_gen(&self, s: TokenStream, is_async: bool) -> TokenStream {
        let a = if is_async { quote! { .await } } else { quote! {} };
        // "frame" has a way of its own to be finished, the others are flushed
        if self.0 == "frame" { quote! { #s.finish()#a?; } } else { quote! { #s.flush()#a?; } }
    }
    fn arguments(&self) -> Vec<pb::FFIArgument> {
        if self.0 == "frame" || self.0 == "hold" { return vec![]; }
        vec![pb::FFIArgument { name: "key".into(), type_: Some(pb::asg::Type::Scalar(pb::ScalarType::U8.into())), optional: true }]
    }
}
fn kind(n: &str, a: Vec<TokenStream>) -> TokenStream {
    let a = match a.into_iter().next() { Some(e) => quote! { Some(#e) }, None => quote! { None } };
    if n == "hold" { return quote! { rt::xf::K::Same } }
    if n == "xor" { quote! { rt::xf::K::Xor(#a) } } else { quote! { rt::xf::K::Add(#a) } }
}

impl pb::ImportResolver for Res {
    fn normalize_import(&self, i: &str) -> pb::Result<String> {
        // "./x" names the same file as "x"
        Ok(i.strip_prefix("./").unwrap_or(i).to_string())
    }
    fn resolve_import(&self, i: &str) -> pb::Result<Option<String>> {
        if self.fail.as_deref() == Some(i) { return Err("resolver failure".into()); }
        Ok(self.files.get(i).cloned())
    }
    fn resolve_ffi_transform(&self, n: &str) -> pb::Result<Option<pb::ForeignTransformObj>> {
        Ok(match n { "xor" => Some(Box::new(Xf("xor"))), "add" => Some(Box::new(Xf("add"))), "frame" => Some(Box::new(Xf("frame"))), "hold" => Some(Box::new(Xf("hold"))), _ => None })
    }
    fn resolve_ffi_type(&self, _: &str) -> pb::Result<Option<pb::ForeignTypeObj>> { Ok(None) }
    fn resolve_ffi_function(&self, _: &str) -> pb::Result<Option<pb::ForeignFunctionObj>> { Ok(None) }
    fn prelude_ffi_functions(&self) -> pb::Result<HashMap<String, pb::ForeignFunctionObj>> { Ok(HashMap::new()) }
}

/// how a specification fared in the front end
#[derive(Clone, Debug, PartialEq)]
pub enum Fe { Code(String), Parse(String), Reject(String), Panic(&'static str, String) }

thread_local! { static PANIC: RefCell<Option<String>> = RefCell::new(None); }
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let quiet = PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_some() { *p = Some(m.clone()); true } else { false } });
        if !quiet { eprintln!("panic: {} at {:?}", m, i.location()); }
    }));
}
/// runs f; the message of its panic if it does
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = Some(String::new()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    r.map_err(|_| m)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Opt { pub is_async: bool, pub anyhow: bool, pub debug: bool, pub derives: u8 }
pub const PLAIN: Opt = Opt { is_async: false, anyhow: false, debug: false, derives: 0 };
impl Opt {
    pub fn compile(&self) -> pb::CompileOptions {
        let d: &[&str] = match self.derives { 0 => &["PartialEq", "Debug", "Clone", "Default"], 1 => &[], 2 => &["Clone"], _ => &["Eq", "PartialEq", "Debug", "Clone", "Default"] };
        let d: Vec<String> = d.iter().map(|x| x.to_string()).collect();
        pb::CompileOptions { enum_derives: d.clone(), struct_derives: d, include_async: self.is_async, use_anyhow: self.anyhow, debug_mode: self.debug }
    }
}

pub fn front(text: &str, res: &Res, opt: Opt) -> Fe {
    let _on = crate::watch::on(text);
    let ast = match quiet(|| pb::parse(text).map_err(|e| e.to_string())) { Err(p) => return Fe::Panic("parse", p), Ok(Err(e)) => return Fe::Parse(e), Ok(Ok(a)) => a };
    let r = pb::PreludeImportResolver(res.clone());
    let prog = match quiet(|| pb::asg::Program::from_ast(&ast, &r).map_err(|e| e.to_string())) { Err(p) => return Fe::Panic("analysis", p), Ok(Err(e)) => return Fe::Reject(e), Ok(Ok(p)) => p };
    match quiet(|| pb::compile_program(&prog, &opt.compile()).to_string()) { Err(p) => Fe::Panic("code generation", p), Ok(s) => Fe::Code(s) }
}

/// runs f on a thread with a large stack
pub fn big<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

/// `drv try FILE`: for each specification in FILE (after a line "=== ..."), with imported files after lines "-- name": verdict, generated code in FILE.N.rs
pub fn try_file(path: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    for (i, part) in text.split("=== ").skip(1).enumerate() {
        let (title, body) = part.split_once('\n').unwrap();
        let mut secs = body.split("\n-- ");
        let root = secs.next().unwrap();
        let files = secs.map(|s| { let (n, b) = s.split_once('\n').unwrap(); (n.to_string(), b.to_string()) }).collect();
        let f = big(|| front(root, &Res { files, fail: None }, PLAIN));
        match f { Fe::Code(c) => { println!("{} {}: code", i, title); std::fs::write(format!("{}.{}.rs", path, i), c).unwrap(); } f => println!("{} {}: {:?}", i, title, f) }
    }
}
