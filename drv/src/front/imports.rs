//! C22: every small import graph and every small list of imported items, against a model of what names denote.
use crate::fe::*;
use crate::par::*;
use crate::report::Report;
use protospec_build as pb;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// what an import names
#[derive(Clone, Debug, PartialEq)]
struct Import { from: &'static str, items: Vec<(&'static str, Option<&'static str>)> }
#[derive(Clone, Debug)]
enum Decl { Cont(&'static str, Vec<&'static str>), Alias(&'static str, &'static str), Enum(&'static str), Const(&'static str), Ffi(&'static str, &'static str) }
#[derive(Clone, Debug, Default)]
struct File { id: usize, imports: Vec<Import>, decls: Vec<Decl> }
/// the files that can be imported, by normalized name
#[derive(Clone, Debug)]
enum Node { File(File), Missing, Fails, Broken(&'static str) }
type World = Vec<(&'static str, Node)>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Item { Decl(usize, &'static str), Foreign(&'static str) }
#[derive(Clone, Debug, Default)]
struct Env { types: BTreeMap<&'static str, Item>, consts: BTreeMap<&'static str, Item>, transforms: BTreeMap<&'static str, Item>, functions: BTreeSet<&'static str> }
#[derive(Debug)]
enum No { Error(&'static str), Either }
/// environments of the files, by id
struct Model<'a> { world: &'a World, done: HashMap<usize, Env>, bodies: HashMap<Item, (usize, Decl)> }

impl<'a> Model<'a> {
    fn node(&self, name: &str) -> &'a Node { let n = name.strip_prefix("./").unwrap_or(name); self.world.iter().find(|x| x.0 == n).map(|x| &x.1).unwrap_or(&Node::Missing) }
    /// all files below exist, can be read and parsed, and none imports itself
    fn reach(&self, f: &File, path: &mut Vec<usize>, seen: &mut BTreeSet<usize>) -> Result<(), No> {
        for i in &f.imports {
            match self.node(i.from) {
                Node::Missing => return Err(No::Error("a missing file")),
                Node::Fails => return Err(No::Error("a file that cannot be read")),
                Node::Broken(_) => return Err(No::Error("a file with an error")),
                Node::File(g) => {
                    if path.contains(&g.id) { return Err(No::Error("a cycle")) }
                    if seen.insert(g.id) { path.push(g.id); self.reach(g, path, seen)?; path.pop(); }
                }
            }
        }
        Ok(())
    }
    fn env(&mut self, f: &File) -> Result<Env, No> {
        if let Some(e) = self.done.get(&f.id) { return Ok(e.clone()) }
        let mut e = Env::default();
        fn add(m: &mut BTreeMap<&'static str, Item>, n: &'static str, i: Item) -> Result<(), No> { match m.insert(n, i.clone()) { Some(j) if j != i => Err(No::Error("one name for two items")), _ => Ok(()) } }
        e.functions.extend(["len", "blen"]);
        for d in &f.decls { if let Decl::Ffi(n, k) = d { match *k { "type" => add(&mut e.types, n, Item::Foreign(n))?, "transform" => add(&mut e.transforms, n, Item::Foreign(n))?, _ => { e.functions.insert(n); } } } }
        for i in &f.imports {
            let Node::File(g) = self.node(i.from) else { unreachable!() };
            let from = self.env(g)?;
            for (n, alias) in &i.items {
                let a = alias.unwrap_or(n);
                match (from.types.get(n), from.consts.get(n), from.transforms.get(n)) {
                    (Some(t), None, None) => add(&mut e.types, a, t.clone())?,
                    (None, Some(t), None) => add(&mut e.consts, a, t.clone())?,
                    (None, None, Some(t)) => add(&mut e.transforms, a, t.clone())?,
                    (None, None, None) => return Err(No::Error("no such item")),
                    _ => return Err(No::Either),
                }
            }
        }
        for d in &f.decls {
            let (m, n) = match d { Decl::Ffi(..) => continue, Decl::Const(n) => (&mut e.consts, *n), Decl::Cont(n, _) | Decl::Alias(n, _) | Decl::Enum(n) => (&mut e.types, *n) };
            if m.insert(n, Item::Decl(f.id, n)).is_some() { return Err(No::Error("one name for two items")) }
            self.bodies.insert(Item::Decl(f.id, n), (f.id, d.clone()));
        }
        for d in &f.decls { match d {
            Decl::Cont(_, u) => for n in u { if !e.types.contains_key(n) { return Err(No::Error("no such type")) } },
            Decl::Alias(_, n) => if !e.types.contains_key(n) { return Err(No::Error("no such type")) },
            _ => (),
        } }
        self.done.insert(f.id, e.clone());
        Ok(e)
    }
    /// the type an item stands for, written out
    fn term(&self, i: &Item) -> String {
        let (file, d) = match i { Item::Foreign("v8") => return "i8".into(), Item::Foreign("v16") => return "i16".into(), Item::Foreign(n) => return n.to_string(), i => &self.bodies[i] };
        match d {
            Decl::Cont(n, u) => format!("{{f{}{}:u8{}}}", file, n, u.iter().enumerate().map(|(k, n)| format!(",r{}:{}", k, self.term(&self.done[file].types[n]))).collect::<String>()),
            Decl::Alias(_, n) => format!("({})", self.term(&self.done[file].types[n])),
            Decl::Enum(n) => format!("enum V{}{}", file, n),
            d => unreachable!("{:?}", d),
        }
    }
}
fn konst(file: usize, n: &str) -> u64 { 1 + file as u64 * 10 + n.bytes().map(|b| b as u64 & 7).sum::<u64>() }
fn text(f: &File) -> String {
    let mut t = String::new();
    for d in &f.decls { if let Decl::Ffi(n, k) = d { t.push_str(&format!("import_ffi {} as {};\n", n, k)); } }
    for i in &f.imports { t.push_str(&format!("import {} from \"{}\";\n", i.items.iter().map(|(n, a)| match a { Some(a) => format!("{} as {}", n, a), None => n.to_string() }).collect::<Vec<_>>().join(", "), i.from)); }
    for d in &f.decls { match d {
        Decl::Ffi(..) => (),
        Decl::Cont(n, u) => t.push_str(&format!("type {} = container {{ f{}{}: u8{} }};\n", n, f.id, n, u.iter().enumerate().map(|(k, n)| format!(", r{}: {}", k, n)).collect::<String>())),
        Decl::Alias(n, m) => t.push_str(&format!("type {} = {};\n", n, m)),
        Decl::Enum(n) => t.push_str(&format!("type {} = enum u8 {{ V{}{} = 1 }};\n", n, f.id, n)),
        Decl::Const(n) => t.push_str(&format!("const {}: u32 = {};\n", n, konst(f.id, n))),
    } }
    t
}
const CAP: usize = 60;
/// resolver that keeps a record
struct Log { files: HashMap<&'static str, Result<String, ()>>, loads: RefCell<Vec<String>> }
struct Rec(std::rc::Rc<Log>);
impl pb::ImportResolver for Rec {
    fn normalize_import(&self, i: &str) -> pb::Result<String> { Ok(i.strip_prefix("./").unwrap_or(i).to_string()) }
    fn resolve_import(&self, i: &str) -> pb::Result<Option<String>> {
        let mut l = self.0.loads.borrow_mut();
        l.push(i.to_string());
        if l.len() > CAP { return Err("too many".into()) }
        match self.0.files.get(i) { Some(Ok(t)) => Ok(Some(t.clone())), Some(Err(())) => Err("resolver failure".into()), None => Ok(None) }
    }
    fn resolve_ffi_transform(&self, n: &str) -> pb::Result<Option<pb::ForeignTransformObj>> { Res::default().resolve_ffi_transform(n) }
    fn resolve_ffi_type(&self, _: &str) -> pb::Result<Option<pb::ForeignTypeObj>> { Ok(None) }
    fn resolve_ffi_function(&self, _: &str) -> pb::Result<Option<pb::ForeignFunctionObj>> { Ok(None) }
    fn prelude_ffi_functions(&self) -> pb::Result<HashMap<String, pb::ForeignFunctionObj>> { Ok(HashMap::new()) }
}
/// the types of a generated module
#[derive(Default)]
struct Module { structs: BTreeMap<String, Vec<(String, syn::Type)>>, enums: BTreeMap<String, Vec<(String, String)>>, uses: BTreeMap<String, String>, twice: Vec<String> }
impl Module {
    fn new(code: proc_macro2::TokenStream) -> Module {
        use quote::ToTokens;
        let f: syn::File = syn::parse2(code).expect("generated code is a Rust file");
        let mut m = Module::default();
        let items = f.items.into_iter().find_map(|i| match i { syn::Item::Mod(m) => m.content, _ => None }).unwrap().1;
        let mut names = BTreeSet::new();
        for i in items { match i {
            syn::Item::Struct(s) => { let n = s.ident.to_string(); if !names.insert(n.clone()) { m.twice.push(n.clone()) } m.structs.insert(n, s.fields.into_iter().map(|f| (f.ident.map(|i| i.to_string()).unwrap_or_default(), f.ty)).collect()); }
            syn::Item::Enum(s) => { let n = s.ident.to_string(); if !names.insert(n.clone()) { m.twice.push(n.clone()) } m.enums.insert(n, s.variants.into_iter().map(|v| (v.ident.to_string(), v.discriminant.map(|d| d.1.to_token_stream().to_string()).unwrap_or_default())).collect()); }
            syn::Item::Use(u) if matches!(u.vis, syn::Visibility::Public(_)) => if let syn::UseTree::Path(p) = u.tree { if p.ident == "self" { match *p.tree { syn::UseTree::Rename(r) => { let n = r.rename.to_string(); if !names.insert(n.clone()) { m.twice.push(n.clone()) } m.uses.insert(n, r.ident.to_string()); } _ => () } } },
            _ => (),
        } }
        m
    }
    fn real<'a>(&'a self, n: &'a str) -> &'a str { match self.uses.get(n) { Some(m) => m, None => n } }
    fn term(&self, n: &str, depth: u32) -> String {
        if depth > 12 { return "...".into() }
        let n = self.real(n);
        if let Some(e) = self.enums.get(n) { return format!("enum {}", e[0].0) }
        match self.structs.get(n) {
            None => n.to_string(),
            Some(f) if f.len() == 1 && f[0].0.is_empty() => format!("({})", self.ty(&f[0].1, depth)),
            Some(f) => format!("{{{}}}", f.iter().map(|(n, t)| format!("{}:{}", n, self.ty(t, depth))).collect::<Vec<_>>().join(",")),
        }
    }
    fn ty(&self, t: &syn::Type, depth: u32) -> String {
        use quote::ToTokens;
        match t { syn::Type::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() => self.term(&p.path.segments[0].ident.to_string(), depth + 1), t => t.to_token_stream().to_string().replace(' ', "") }
    }
}
const TYPES: &[&str] = &["T", "E", "U", "Z", "K", "v8", "v16", "I0", "I1"];
const CONSTS: &[&str] = &["K", "T", "E", "U", "Z"];
const TRANSFORMS: &[&str] = &["xor", "Z", "T", "U", "E", "K"];

struct Case { root: File, world: World }
fn show(root: &str, w: &World) -> String { format!("{}{}", root, w.iter().map(|(n, f)| match f { Node::File(f) => format!("-- {}\n{}", n, text(f)), Node::Broken(t) => format!("-- {}\n{}\n", n, t), Node::Fails => format!("-- {} cannot be read\n", n), Node::Missing => String::new() }).collect::<String>()) }
fn run(root: &str, w: &World) -> (Result<proc_macro2::TokenStream, String>, Vec<String>) {
    let log = std::rc::Rc::new(Log { files: w.iter().filter_map(|(n, f)| match f { Node::File(f) => Some((*n, Ok(text(f)))), Node::Broken(t) => Some((*n, Ok(t.to_string()))), Node::Fails => Some((*n, Err(()))), Node::Missing => None }).collect(), loads: RefCell::new(vec![]) });
    let shown = if w.is_empty() { root.to_string() } else { show(root, w) };
    let _on = crate::watch::on(&shown);
    let r = quiet(|| {
        let ast = pb::parse(root).map_err(|e| format!("SYNTAX {}", e))?;
        let p = pb::asg::Program::from_ast(&ast, &pb::PreludeImportResolver(Rec(log.clone()))).map_err(|e| e.to_string())?;
        Ok(pb::compile_program(&p, &PLAIN.compile()))
    }).unwrap_or_else(|p| Err(format!("PANIC {}", p)));
    let l = log.loads.borrow().clone();
    (r, l)
}
fn check_case(c: &Case, negative: bool, a: &mut Acc) {
    let mut m = Model { world: &c.world, done: HashMap::new(), bodies: HashMap::new() };
    let want = m.reach(&c.root, &mut vec![], &mut BTreeSet::new()).and_then(|_| m.env(&c.root));
    a.states += 1;
    let mut all = true;
    let root = text(&c.root);
    let e = match want {
        Err(No::Either) => { let (r, l) = run(&root, &c.world); a.steps += 1; if matches!(&r, Err(m) if m.starts_with("PANIC")) || l.len() > CAP { a.viol("a panic or too many loads", &show(&root, &c.world), String::new()); } a.ok += 1; return }
        Err(No::Error(why)) => {
            let (r, l) = run(&root, &c.world);
            a.steps += 1;
            match r { Ok(_) => a.viol("accepted", &show(&root, &c.world), why.into()), Err(m) if m.starts_with("PANIC") || m.starts_with("SYNTAX") => a.viol("panic", &show(&root, &c.world), m), Err(_) if l.len() > CAP => a.viol("resolution does not end", &show(&root, &c.world), format!("{} loads", l.len())), Err(_) => a.ok += 1 }
            return
        }
        Ok(e) => e,
    };
    a.yes += 1;
    // every visible name is used
    let mut probe = root.clone();
    probe.push_str("type Probe = container { pp: u8");
    for n in e.types.keys() { probe.push_str(&format!(", t_{}: {}", n, n)); }
    for n in e.transforms.keys() { probe.push_str(&format!(", x_{}: u8 -> {}", n, n)); }
    probe.push_str(" };\n");
    for n in e.consts.keys() { probe.push_str(&format!("type QK{} = enum u32 {{ q = {} }};\n", n, n)); }
    for (n, i) in &e.types { if let Some((f, Decl::Enum(d))) = m.bodies.get(i) { probe.push_str(&format!("const CE{}: u8 = {}::V{}{} :> u8;\n", n, n, f, d)); } }
    let (r, l) = run(&probe, &c.world);
    a.steps += 1;
    let sub = || show(&probe, &c.world);
    let code = match r { Err(m) => { a.viol("rejected", &sub(), m); return } Ok(c) => c };
    let mut once = l.clone();
    once.sort(); once.dedup();
    if once.len() != l.len() { a.viol("a file is loaded more than once", &sub(), format!("{:?}", l)); all = false }
    let g = match quiet(|| Module::new(code)) { Ok(g) => g, Err(p) => { a.viol("unreadable code", &sub(), p); return } };
    if !g.twice.is_empty() { a.viol("two generated items with one name", &sub(), format!("{:?}", g.twice)); all = false }
    let mut rust: BTreeMap<String, Item> = BTreeMap::new();
    let Some(p) = g.structs.get("Probe") else { a.viol("no type", &sub(), "Probe".into()); return };
    for (n, i) in &e.types {
        let want = m.term(i);
        let Some((_, t)) = p.iter().find(|f| f.0 == format!("t_{}", n)) else { a.viol("no field", &sub(), n.to_string()); return };
        let got = g.ty(t, 0);
        if got != want { a.viol("a name denotes another item", &sub(), format!("{} is {} instead of {}", n, got, want)); all = false }
        if let Item::Decl(..) = i {
            // a type of its own in the generated module, reachable by its name in the root file
            let by_name = g.term(n, 0);
            if by_name != want || !(g.structs.contains_key(*n) || g.enums.contains_key(*n) || g.uses.contains_key(*n)) { a.viol("the generated module has no such name", &sub(), format!("{} is {} instead of {}", n, by_name, want)); all = false }
            let r = g.real(n).to_string();
            if let Some(j) = rust.insert(r.clone(), i.clone()) { if j != *i { a.viol("two items are one", &sub(), r.clone()); all = false } }
            if rust.iter().any(|(s, j)| j == i && *s != r) { a.viol("one item is two types", &sub(), format!("{} {:?}", r, rust)); all = false }
        }
    }
    for (n, i) in &e.consts {
        let Item::Decl(f, d) = i else { continue };
        let got = g.enums.get(&format!("QK{}", n)).map(|e| e[0].1.clone());
        if got != Some(format!("{}u32", konst(*f, d))) { a.viol("a name denotes another constant", &sub(), format!("{} is {:?} instead of {}", n, got, konst(*f, d))); all = false }
    }
    if all { a.ok += 1 }
    if negative {
        let mut neg = vec![];
        for n in TYPES { if !e.types.contains_key(n) { neg.push(format!("type Probe = container {{ p: {} }};", n)); } }
        for n in CONSTS { if !e.consts.contains_key(n) { neg.push(format!("const PP: u32 = {};", n)); } }
        for n in TRANSFORMS { if !e.transforms.contains_key(n) { neg.push(format!("type Probe = container {{ p: u8 -> {} }};", n)); } }
        if !e.functions.contains("sum") { neg.push("type Probe = container { a: u8[2], p: u8 = sum(a) };".into()) }
        for t in neg {
            let t = format!("{}{}\n", root, t);
            a.steps += 1;
            match run(&t, &c.world).0 { Ok(_) => a.viol("a name is visible that is not imported", &show(&t, &c.world), String::new()), Err(m) if m.starts_with("PANIC") || m.starts_with("SYNTAX") => a.viol("panic", &show(&t, &c.world), m), Err(_) => () }
        }
    }
}
const TARGETS: &[&str] = &["a", "b", "c", "m", "x", "p", "s", "./a"];
fn lists(max: usize) -> Vec<Vec<&'static str>> {
    let mut v = vec![vec![]];
    for t in TARGETS { v.push(vec![*t]); }
    if max > 1 { for t in TARGETS { for u in TARGETS { v.push(vec![*t, *u]); } } }
    v
}
fn graph_file(id: usize, l: &[&'static str]) -> File {
    let names = ["I0", "I1"];
    File { id, imports: l.iter().zip(names).map(|(t, n)| Import { from: t, items: vec![("T", Some(n))] }).collect(), decls: vec![Decl::Cont("T", names[..l.len()].to_vec())] }
}
fn specials(w: &mut World) { w.push(("m", Node::Missing)); w.push(("x", Node::Fails)); w.push(("p", Node::Broken("type T = container { a u8 };"))); w.push(("s", Node::Broken("type T = container { a: Nope };"))); }
const ITEMS: &[&str] = &["T", "E", "K", "U", "xor", "v8", "sum", "Nope"];
const ALIASES: &[Option<&str>] = &[None, Some("T"), Some("E"), Some("K"), Some("Z"), Some("v16")];

pub fn check(rep: &mut Report) {
    let thorough = rep.tier == "thorough";
    // graphs
    let (l2, l1) = (lists(2), lists(1));
    let (lb, lc) = if thorough { (l2.clone(), l1.clone()) } else { (l1.clone(), l1.clone()) };
    let n = (l2.len() * l2.len() * lb.len() * lc.len()) as u64;
    let accs = par(n, Acc::default, |i, a| {
        let mut i = i as usize;
        let mut pick = |v: &Vec<Vec<&'static str>>| { let k = i % v.len(); i /= v.len(); v[k].clone() };
        let (r, fa, fb, fc) = (pick(&l2), pick(&l2), pick(&lb), pick(&lc));
        let mut world: World = vec![("a", Node::File(graph_file(1, &fa))), ("b", Node::File(graph_file(2, &fb))), ("c", Node::File(graph_file(3, &fc)))];
        specials(&mut world);
        check_case(&Case { root: graph_file(0, &r), world }, false, a);
    });
    collect(rep, "graphs", accs);
    // items
    let mut entries: Vec<Vec<Import>> = vec![];
    let mut one: Vec<(&'static str, &'static str, Option<&'static str>)> = vec![];
    for f in ["a", "b"] { for n in ITEMS { for al in ALIASES { one.push((f, n, *al)); } } }
    for (f, n, al) in &one { entries.push(vec![Import { from: f, items: vec![(n, *al)] }]); }
    let single = entries.len();
    for (f, n, al) in &one { for (g, o, bl) in &one {
        entries.push(vec![Import { from: f, items: vec![(n, *al)] }, Import { from: g, items: vec![(o, *bl)] }]);
        if f == g { entries.push(vec![Import { from: f, items: vec![(n, *al), (o, *bl)] }]); }
    } }
    entries.push(vec![]);
    let own: Vec<Vec<Decl>> = vec![vec![], vec![Decl::Cont("T", vec![]), Decl::Enum("E"), Decl::Const("K")], vec![Decl::Ffi("xor", "transform"), Decl::Ffi("v8", "type"), Decl::Ffi("sum", "function")], vec![Decl::Const("T"), Decl::Cont("K", vec![])], vec![Decl::Enum("T"), Decl::Alias("Z", "T")]];
    let full = |u: Vec<&'static str>| vec![Decl::Cont("T", u), Decl::Enum("E"), Decl::Const("K"), Decl::Ffi("xor", "transform"), Decl::Ffi("v8", "type"), Decl::Ffi("sum", "function")];
    let mut configs: Vec<File> = vec![File { id: 1, imports: vec![], decls: full(vec![]) }, File { id: 1, imports: vec![], decls: { let mut d = full(vec![]); d.push(Decl::Alias("U", "T")); d } }];
    for n in ["T", "E", "K", "xor", "v8"] { for al in [None, Some("U"), Some("T"), Some("K")] {
        // all imported or some own
        let seen = al.unwrap_or(n);
        let ty = matches!(n, "T" | "E" | "v8");
        configs.push(File { id: 1, imports: vec![Import { from: "b", items: vec![(n, al)] }], decls: full(vec![]).into_iter().filter(|d| match d { Decl::Cont(m, _) | Decl::Enum(m) | Decl::Const(m) => *m != seen, Decl::Ffi(m, _) => *m != seen, _ => true }).map(|d| if let (Decl::Cont(m, _), true) = (&d, ty) { Decl::Cont(m, vec![seen]) } else { d }).collect() });
        if thorough || al.is_none() { configs.push(File { id: 1, imports: vec![Import { from: "b", items: vec![(n, al)] }], decls: full(vec![]) }); }
        configs.push(File { id: 1, imports: vec![Import { from: "b", items: vec![(n, al)] }], decls: vec![] });
    } }
    let b = File { id: 2, imports: vec![], decls: { let mut d = full(vec!["v8"]); d.push(Decl::Alias("U", "E")); d } };
    let part = |name: &str, entries: &[Vec<Import>], negative: bool, rep: &mut Report| {
        let n = (entries.len() * own.len() * configs.len()) as u64;
        let accs = par(n, Acc::default, |i, a| {
            let i = i as usize;
            let (x, i) = (i % entries.len(), i / entries.len());
            let (o, k) = (i % own.len(), i / own.len());
            let c = Case { root: File { id: 0, imports: entries[x].clone(), decls: own[o].clone() }, world: vec![("a", Node::File(configs[k].clone())), ("b", Node::File(b.clone()))] };
            check_case(&c, negative, a);
            if i % 7919 == 0 { a.samples.push(show(&text(&c.root), &c.world).replace('\n', " ")); }
        });
        collect(rep, name, accs);
    };
    part("one item", &entries[..single], true, rep);
    if thorough { part("two items", &entries[single..], false, rep); } else { let few: Vec<Vec<Import>> = entries[single..].iter().filter(|e| e.iter().flat_map(|i| &i.items).all(|x| matches!(x.1, None | Some("T") | Some("Z")) && x.0 != "Nope" && x.0 != "sum")).cloned().collect(); part("two items", &few, false, rep); }
}
