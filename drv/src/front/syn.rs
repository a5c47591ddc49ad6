//! C19: the real parser against a table-driven reference parser on all token sequences of bounded spaces.
use crate::par::*;
use crate::report::Report;
use protospec_build as pb;
use std::collections::HashMap;

/// the grammar: `x` a rule, `'x'` a token, ID INT STR token classes, `( | )? *`, `X % e` a comma-separated list with
/// an optional trailing comma, `X %% e` the same with at least one item
const GRAMMAR: &str = "
program = decl *
decl = ( typedecl | import | ffi | const ) ';'
typedecl = 'type' ID params ? '=' field
params = '(' param % ')'
param = ID ':' type default ?
default = '?' expr
import = 'import' item %% 'from' STR
item = ID alias ?
alias = 'as' ID
ffi = 'import_ffi' ID 'as' ( 'transform' | 'type' | 'function' )
const = 'const' ID ':' type '=' expr
field = type calc ? flag * cond ? xform *
calc = '=' expr
flag = '+' ID
cond = '{' expr '}'
xform = '->' ID args ? cond ?
args = '(' expr % ')'
type = base suffix *
suffix = '[' length ']'
length = ( open expr ? | expr )
open = '..'
base = ( container | enum | bitfield | scalar | 'f32' | 'f64' | 'bool' | named )
named = ID args ?
scalar = ( 'u8' | 'u16' | 'u32' | 'u64' | 'u128' | 'i8' | 'i16' | 'i32' | 'i64' | 'i128' | 'u16le' | 'u32le' | 'u64le' | 'u128le' | 'i16le' | 'i32le' | 'i64le' | 'i128le' )
container = 'container' clen ? flag * '{' entry % '}'
clen = '[' expr ']'
entry = ( pad | member )
pad = '.' 'pad' ':' expr
member = ID ':' field
enum = 'enum' scalar '{' variant1 ( ',' ( variant | !'}' ) ) * '}'
variant1 = ID evalue
variant = ID evalue ?
evalue = '=' ( 'default' | expr )
bitfield = 'bitfield' scalar '{' flag1 ( ',' ( bflag | !'}' ) ) * '}'
flag1 = ID bvalue
bflag = ID bvalue ?
bvalue = '=' expr
expr = or tern ?
tern = '?' expr ':' or
or = and ( '||' and ) *
and = bor ( '&&' bor ) *
bor = bxor ( '|' bxor ) *
bxor = band ( '^' band ) *
band = eq ( '&' eq ) *
eq = rel ( ( '==' | '!=' ) rel ) *
rel = shift ( ( '<' | '<=' | '>' | '>=' ) shift ) *
shift = add ( ( '<<' | '>>' | '>>>' ) add ) *
add = mul ( ( '+' | '-' ) mul ) *
mul = cast ( ( '*' | '/' | '%' ) cast ) *
cast = unary ( ( casting | elvis ) ) *
casting = ':>' type
elvis = '?:' unary
unary = ( '!' | '-' | '~' ) * post
post = prim ( ( index | dot ) ) *
index = '[' expr ']'
dot = '.' ID
prim = ( int | string | 'true' | 'false' | word | paren )
int = INT scalar ?
string = STR
word = ID wordtail ?
wordtail = ( variantof | args )
variantof = '::' ID
paren = '(' expr ')'
";

#[derive(Debug, Clone)]
enum G { Tok(String), Class(&'static str), Rule(usize), Seq(Vec<G>), Alt(Vec<G>), Opt(Box<G>), Star(Box<G>), List(Box<G>, String, bool), Not(String) }
pub struct Grammar { names: Vec<String>, rules: Vec<G> }
#[derive(Debug, Clone)]
pub enum Tree { Leaf(usize), Node(usize, Vec<Tree>) }

fn seq(w: &[&str], i: &mut usize, names: &HashMap<String, usize>) -> G {
    let mut out = vec![];
    while *i < w.len() && w[*i] != ")" && w[*i] != "|" {
        let t = w[*i];
        *i += 1;
        let g = match t {
            "(" => { let mut alts = vec![seq(w, i, names)]; while w[*i] == "|" { *i += 1; alts.push(seq(w, i, names)); } assert_eq!(w[*i], ")"); *i += 1; if alts.len() == 1 { alts.pop().unwrap() } else { G::Alt(alts) } }
            "*" => { let g = out.pop().unwrap(); out.push(G::Star(Box::new(g))); continue }
            "?" => { let g = out.pop().unwrap(); out.push(G::Opt(Box::new(g))); continue }
            "%" | "%%" => { let g = out.pop().unwrap(); let end = w[*i].trim_matches('\''); *i += 1; out.push(G::List(Box::new(g), end.into(), t == "%%")); out.push(G::Tok(end.into())); continue }
            "ID" => G::Class("ID"), "INT" => G::Class("INT"), "STR" => G::Class("STR"),
            t if t.starts_with("!'") => G::Not(t[1..].trim_matches('\'').to_string()),
            t if t.starts_with('\'') => G::Tok(t[1..t.len() - 1].to_string()),
            t => G::Rule(*names.get(t).unwrap_or_else(|| panic!("no rule {}", t))),
        };
        out.push(g);
    }
    if out.len() == 1 { out.pop().unwrap() } else { G::Seq(out) }
}
impl Grammar {
    pub fn new() -> Grammar {
        let lines: Vec<Vec<&str>> = GRAMMAR.lines().filter(|l| !l.is_empty()).map(|l| l.split_whitespace().collect()).collect();
        let names: HashMap<String, usize> = lines.iter().enumerate().map(|(i, l)| (l[0].to_string(), i)).collect();
        let rules = lines.iter().map(|l| { let mut i = 2; let g = seq(l, &mut i, &names); assert_eq!(i, l.len()); g }).collect();
        Grammar { names: lines.iter().map(|l| l[0].to_string()).collect(), rules }
    }
}
pub fn class(t: &str) -> &'static str {
    const KEY: &[&str] = &["type", "as", "import", "import_ffi", "from", "transform", "function", "const", "container", "enum", "default", "bitfield", "bool", "true", "false", "f32", "f64"];
    let scalar = t.len() > 1 && (t.starts_with('u') || t.starts_with('i')) && ["8", "16", "32", "64", "128", "16le", "32le", "64le", "128le"].contains(&&t[1..]);
    let c = t.chars().next().unwrap();
    if c == '"' { "STR" } else if c.is_ascii_digit() { "INT" } else if (c == '_' || c.is_ascii_alphabetic()) && !KEY.contains(&t) && !scalar { "ID" } else { "" }
}
/// where a sequence stops being a prefix of a derivation; the number of its tokens if it is one but not a derivation itself
pub struct At(pub usize);
struct P<'a> { g: &'a Grammar, t: &'a [&'a str], i: usize }
/// Ok(false): does not begin here; Err: begins here and goes wrong
impl<'a> P<'a> {
    fn run(&mut self, g: &G, out: &mut Vec<Tree>) -> Result<bool, At> {
        let here = self.i;
        Ok(match g {
            G::Tok(x) => if self.t.get(self.i) == Some(&x.as_str()) { out.push(Tree::Leaf(self.i)); self.i += 1; true } else { false },
            G::Class(c) => if self.t.get(self.i).map_or(false, |t| class(t) == *c) { out.push(Tree::Leaf(self.i)); self.i += 1; true } else { false },
            G::Not(x) => self.t.get(self.i) == Some(&x.as_str()),
            G::Rule(r) => { let mut kids = vec![]; let ok = self.run(&self.g.rules[*r], &mut kids)?; if ok { out.push(Tree::Node(*r, kids)); } ok }
            G::Seq(gs) => {
                for x in gs { if !self.run(x, out)? { return if self.i == here { Ok(false) } else { Err(At(self.i)) }; } }
                true
            }
            G::Alt(gs) => { for x in gs { if self.run(x, out)? { return Ok(true); } } false }
            G::Opt(x) => { self.run(x, out)?; true }
            G::Star(x) => { loop { let before = self.i; if !self.run(x, out)? || self.i == before { break; } } true }
            G::List(x, end, some) => {
                let mut n = 0;
                loop {
                    if self.t.get(self.i) == Some(&end.as_str()) && (n > 0 || !some) { break; }
                    if !self.run(x, out)? { if n == 0 && !some { break; } return Err(At(self.i)); }
                    n += 1;
                    if self.t.get(self.i) == Some(&",") { self.i += 1; } else { break; }
                }
                true
            }
        })
    }
}
pub fn reference(g: &Grammar, t: &[&str]) -> Result<Tree, At> {
    let mut p = P { g, t, i: 0 };
    let mut out = vec![];
    p.run(&G::Rule(0), &mut out)?;
    if p.i < t.len() { return Err(At(p.i)); }
    Ok(out.pop().unwrap_or(Tree::Node(0, vec![])))
}

/// canonical form of the reference tree; leaves that have a position of their own carry the index of their token
struct S<'a> { g: &'a Grammar, t: &'a [&'a str] }
impl<'a> S<'a> {
    fn leaf(&self, t: &Tree) -> String { match t { Tree::Leaf(i) => format!("{}@{}", self.t[*i], i), _ => panic!() } }
    fn text(&self, t: &Tree) -> &'a str { match t { Tree::Leaf(i) => self.t[*i], Tree::Node(_, k) => self.text(&k[0]) } }
    fn kids<'b>(&self, t: &'b Tree) -> &'b [Tree] { match t { Tree::Node(_, k) => k, _ => &[] } }
    fn name(&self, t: &Tree) -> &str { match t { Tree::Node(r, _) => &self.g.names[*r], _ => "" } }
    fn some<'b>(&self, k: &'b [Tree], n: &str) -> Option<&'b Tree> { k.iter().find(|x| self.name(x) == n) }
    fn all<'b>(&self, k: &'b [Tree], n: &str) -> Vec<&'b Tree> { k.iter().filter(|x| self.name(x) == n).collect() }
    fn many(&self, k: &[Tree], n: &str) -> String { self.all(k, n).iter().map(|x| self.s(x)).collect::<Vec<_>>().join(" ") }
    fn opt(&self, k: &[Tree], n: &str) -> String { self.some(k, n).map(|x| self.s(x)).unwrap_or("-".into()) }
    fn args(&self, k: &[Tree]) -> String { self.some(k, "args").map(|a| self.many(self.kids(a), "expr")).unwrap_or_default() }
    fn s(&self, t: &Tree) -> String {
        let k = self.kids(t);
        match self.name(t) {
            "program" => k.iter().map(|x| self.s(x)).collect::<Vec<_>>().join("\n"),
            "decl" => self.s(&k[0]),
            "typedecl" => format!("(type {} [{}] {})", self.leaf(&k[1]), self.some(k, "params").map(|p| self.many(self.kids(p), "param")).unwrap_or_default(), self.opt(k, "field")),
            "param" => format!("({} {} {})", self.leaf(&k[0]), self.s(&k[2]), self.some(k, "default").map(|d| self.s(&self.kids(d)[1])).unwrap_or("-".into())),
            "import" => format!("(import [{}] {})", self.many(k, "item"), self.leaf(k.last().unwrap())),
            "item" => format!("({} {})", self.leaf(&k[0]), self.some(k, "alias").map(|d| self.leaf(&self.kids(d)[1])).unwrap_or("-".into())),
            "ffi" => format!("(ffi {} {})", self.leaf(&k[1]), self.text(&k[3])),
            "const" => format!("(const {} {} {})", self.leaf(&k[1]), self.s(&k[3]), self.s(&k[5])),
            "field" => format!("(field {} ={} [{}] {} [{}])", self.s(&k[0]), self.some(k, "calc").map(|c| self.s(&self.kids(c)[1])).unwrap_or("-".into()), self.many(k, "flag"), self.opt(k, "cond"), self.many(k, "xform")),
            "flag" => self.leaf(&k[1]),
            "cond" => self.s(&k[1]),
            "xform" => format!("(-> {} [{}] {})", self.leaf(&k[1]), self.args(k), self.opt(k, "cond")),
            "type" => { let mut out = self.s(&k[0]); for x in self.all(k, "suffix") { out = format!("(array {} {})", out, self.s(&self.kids(x)[1])); } out }
            "length" => format!("{}{}", if self.some(k, "open").is_some() { ".." } else { "" }, self.opt(k, "expr")),
            "base" => match &k[0] { Tree::Leaf(_) => self.text(&k[0]).to_string(), n => self.s(n) },
            "named" => format!("(ref {} [{}])", self.leaf(&k[0]), self.args(k)),
            "scalar" => self.text(&k[0]).to_string(),
            "container" => format!("(container {} [{}] {})", self.some(k, "clen").map(|c| self.s(&self.kids(c)[1])).unwrap_or("-".into()), self.many(k, "flag"), self.many(k, "entry")),
            "entry" => { let e = &k[0]; let k = self.kids(e); if self.name(e) == "pad" { format!("(pad {})", self.s(&k[3])) } else { format!("({} {})", self.leaf(&k[0]), self.s(&k[2])) } }
            "enum" | "bitfield" => {
                let items: Vec<String> = k.iter().filter(|x| ["variant1", "variant", "flag1", "bflag"].contains(&self.name(x))).map(|v| {
                    let vk = self.kids(v);
                    let val = vk.get(1).map(|e| { let e = &self.kids(e)[1]; match e { Tree::Leaf(_) => "default".to_string(), e => self.s(e) } }).unwrap_or("-".into());
                    format!("({} {})", self.leaf(&vk[0]), val)
                }).collect();
                format!("({} {} {})", self.name(t), self.s(&k[1]), items.join(" "))
            }
            "expr" => match self.some(k, "tern") { Some(x) => { let tk = self.kids(x); format!("(? {} {} {})", self.s(&k[0]), self.s(&tk[1]), self.s(&tk[3])) } None => self.s(&k[0]) },
            "or" | "and" | "bor" | "bxor" | "band" | "eq" | "rel" | "shift" | "add" | "mul" => {
                let mut out = self.s(&k[0]);
                for c in k[1..].chunks(2) { out = format!("({} {} {})", self.text(&c[0]), out, self.s(&c[1])); }
                out
            }
            "cast" => { let mut out = self.s(&k[0]); for c in &k[1..] { out = format!("({} {} {})", self.text(c), out, self.s(&self.kids(c)[1])); } out }
            "unary" => { let mut out = self.s(k.last().unwrap()); for o in k[..k.len() - 1].iter().rev() { out = format!("({} {})", self.text(o), out); } out }
            "post" => { let mut out = self.s(&k[0]); for c in &k[1..] { let ck = self.kids(c); out = if self.name(c) == "index" { format!("([] {} {})", out, self.s(&ck[1])) } else { format!("(. {} {})", out, self.leaf(&ck[1])) }; } out }
            "prim" => match &k[0] { Tree::Leaf(_) => self.leaf(&k[0]), n => self.s(n) },
            "int" => format!("{}:{}", self.leaf(&k[0]), self.some(k, "scalar").map(|x| self.s(x).trim_end_matches("le").to_string()).unwrap_or("-".into())),
            "string" => self.leaf(&k[0]),
            "word" => match k.get(1).map(|x| &self.kids(x)[0]) {
                None => self.leaf(&k[0]),
                Some(x) if self.name(x) == "args" => format!("(call {} [{}])", self.leaf(&k[0]), self.many(self.kids(x), "expr")),
                Some(x) => format!("({} :: {})", self.leaf(&k[0]), self.leaf(&self.kids(x)[1])),
            },
            "paren" => self.s(&k[1]),
            n => panic!("no canonical form of {}", n),
        }
    }
}

/// canonical form of the real tree
struct A<'a> { at: &'a dyn Fn(&pb::Span) -> String }
impl<'a> A<'a> {
    fn id(&self, i: &pb::Ident) -> String { format!("{}@{}", i.name, (self.at)(&i.span)) }
    fn ids(&self, i: &[pb::Ident]) -> String { i.iter().map(|x| self.id(x)).collect::<Vec<_>>().join(" ") }
    fn str_(&self, s: &pb::Str) -> String { format!("\"{}\"@{}", String::from_utf8_lossy(&s.content), (self.at)(&s.span)) }
    fn es(&self, e: &[pb::ast::Expression]) -> String { e.iter().map(|x| self.e(x)).collect::<Vec<_>>().join(" ") }
    fn oe(&self, e: &Option<Box<pb::ast::Expression>>) -> String { e.as_ref().map(|x| self.e(x)).unwrap_or("-".into()) }
    fn program(&self, p: &pb::ast::Program) -> String {
        p.declarations.iter().map(|d| match d {
            pb::ast::Declaration::Type(t) => format!("(type {} [{}] {})", self.id(&t.name), t.arguments.iter().map(|a| format!("({} {} {})", self.id(&a.name), self.t(&a.type_), a.default_value.as_ref().map(|e| self.e(e)).unwrap_or("-".into()))).collect::<Vec<_>>().join(" "), self.f(&t.value)),
            pb::ast::Declaration::Import(i) => format!("(import [{}] {})", i.items.iter().map(|i| format!("({} {})", self.id(&i.name), i.alias.as_ref().map(|x| self.id(x)).unwrap_or("-".into()))).collect::<Vec<_>>().join(" "), self.str_(&i.from)),
            pb::ast::Declaration::Ffi(f) => format!("(ffi {} {})", self.id(&f.name), match f.ffi_type { pb::FfiType::Transform => "transform", pb::FfiType::Type => "type", pb::FfiType::Function => "function" }),
            pb::ast::Declaration::Const(c) => format!("(const {} {} {})", self.id(&c.name), self.t(&c.type_), self.e(&c.value)),
        }).collect::<Vec<_>>().join("\n")
    }
    fn f(&self, f: &pb::ast::Field) -> String {
        format!("(field {} ={} [{}] {} [{}])", self.t(&f.type_), self.oe(&f.calculated), self.ids(&f.flags), self.oe(&f.condition),
            f.transforms.iter().map(|x| format!("(-> {} [{}] {})", self.id(&x.name), self.es(&x.arguments), self.oe(&x.conditional))).collect::<Vec<_>>().join(" "))
    }
    fn scalar(&self, s: &pb::EndianScalarType) -> String { format!("{}{}", scalar(s.scalar), if s.endian == pb::Endian::Little { "le" } else { "" }) }
    fn t(&self, t: &pb::ast::Type) -> String {
        use pb::ast::RawType::*;
        match &t.raw_type {
            F32 => "f32".into(), F64 => "f64".into(), Bool => "bool".into(),
            Scalar(s) => self.scalar(s),
            Ref(r) => format!("(ref {} [{}])", self.id(&r.name), self.es(&r.arguments)),
            Array(a) => format!("(array {} {}{})", self.t(&a.interior_type), if a.length.expandable { ".." } else { "" }, self.oe(&a.length.inner)),
            Container(c) => format!("(container {} [{}] {})", self.oe(&c.length), self.ids(&c.flags), c.items.iter().map(|i| match i { pb::ast::ContainerItem::Pad(e) => format!("(pad {})", self.e(e)), pb::ast::ContainerItem::Field(n, f) => format!("({} {})", self.id(n), self.f(f)) }).collect::<Vec<_>>().join(" ")),
            Enum(e) => format!("(enum {} {})", self.scalar(&e.rep), e.items.iter().map(|(n, v)| format!("({} {})", self.id(n), match v { pb::ast::EnumValue::Default => "default".into(), pb::ast::EnumValue::None => "-".into(), pb::ast::EnumValue::Expression(e) => self.e(e) })).collect::<Vec<_>>().join(" ")),
            Bitfield(b) => format!("(bitfield {} {})", self.scalar(&b.rep), b.items.iter().map(|(n, v)| format!("({} {})", self.id(n), self.oe(v))).collect::<Vec<_>>().join(" ")),
        }
    }
    fn e(&self, e: &pb::ast::Expression) -> String {
        use pb::ast::Expression::*;
        match e {
            Binary(b) => format!("({} {} {})", binop(b.op), self.e(&b.left), self.e(&b.right)),
            Unary(u) => format!("({} {})", match u.op { pb::UnaryOp::Negate => "-", pb::UnaryOp::Not => "!", pb::UnaryOp::BitNot => "~" }, self.e(&u.inner)),
            Cast(c) => format!("(:> {} {})", self.e(&c.inner), self.t(&c.type_)),
            ArrayIndex(a) => format!("([] {} {})", self.e(&a.array), self.e(&a.index)),
            EnumAccess(x) => format!("({} :: {})", self.id(&x.name), self.id(&x.variant)),
            Int(i) => format!("{}@{}:{}", i.value, (self.at)(&i.span), i.type_.map(scalar).unwrap_or("-")),
            Ref(i) => self.id(i),
            Str(s) => self.str_(s),
            Ternary(t) => format!("(? {} {} {})", self.e(&t.condition), self.e(&t.if_true), self.e(&t.if_false)),
            Bool(b) => format!("{}@{}", b.value, (self.at)(&b.span)),
            Call(c) => format!("(call {} [{}])", self.id(&c.function), self.es(&c.arguments)),
            Member(m) => format!("(. {} {})", self.e(&m.target), self.id(&m.member)),
        }
    }
}
fn scalar(s: pb::ScalarType) -> &'static str {
    use pb::ScalarType::*;
    match s { U8 => "u8", U16 => "u16", U32 => "u32", U64 => "u64", U128 => "u128", I8 => "i8", I16 => "i16", I32 => "i32", I64 => "i64", I128 => "i128" }
}
fn binop(o: pb::BinaryOp) -> &'static str {
    use pb::BinaryOp::*;
    match o { Lt => "<", Gt => ">", Lte => "<=", Gte => ">=", Eq => "==", Ne => "!=", Or => "||", And => "&&", BitOr => "|", BitAnd => "&", BitXor => "^", Shr => ">>", Shl => "<<", ShrSigned => ">>>", Add => "+", Sub => "-", Mul => "*", Div => "/", Mod => "%", Elvis => "?:" }
}

/// parses the joined tokens with the code under test; the canonical form, or the index of the reported token if one is reported
fn real(t: &[&str], joined: Option<&str>) -> Result<Result<String, (Option<usize>, String)>, String> {
    let mut starts = vec![];
    let mut text = String::new();
    for x in t { starts.push(text.len() as u64 + 1); text.push_str(x); text.push(' '); }
    let apart = joined.is_none();
    let src = joined.unwrap_or(&text);
    let at = |s: &pb::Span| -> String {
        match starts.iter().position(|p| *p == s.col_start) { Some(i) if s.line_start == 1 && s.line_stop == 1 && s.col_stop == s.col_start + t[i].len() as u64 => i.to_string(), _ => format!("?{}:{}-{}:{}", s.line_start, s.col_start, s.line_stop, s.col_stop) }
    };
    let none = |_: &pb::Span| String::new();
    let _on = crate::watch::on(src);
    crate::fe::quiet(|| match pb::parse(src) {
        Ok(p) => Ok(A { at: if apart { &at } else { &none } }.program(&p)),
        Err(pb::ParseError::Unexpected(tok, want)) => Err((at(&tok.span).parse().ok(), format!("unexpected {}, expecting {}", tok, want))),
        Err(pb::ParseError::UnknownContainerDirective(n, s)) => Err((at(&s).parse().ok(), format!("directive {}", n))),
        Err(pb::ParseError::EmptyLengthConstraint(s)) => Err((at(&s).parse().ok(), "empty length".to_string())),
        Err(pb::ParseError::UnexpectedEOF) => Err((Some(t.len()), "end of file".to_string())),
        Err(e) => Err((None, e.to_string())),
    })
}

/// compares both parsers; whether the sequence is a derivation, or where it stops being a prefix of one
fn compare(g: &Grammar, t: &[&str], a: &mut Acc) -> Result<(), usize> {
    a.states += 1;
    a.steps += 1;
    let text = t.join(" ");
    let want = reference(g, t);
    match (&want, real(t, None)) {
        (_, Err(p)) => a.viol("the parser panics", &text, p),
        (Ok(w), Ok(Ok(got))) => { let w = S { g, t }.s(w); if w != got { a.viol("other syntax tree", &text, format!("expected\n{}\ngot\n{}", w, got)); } else { a.ok += 1; a.yes += 1; } }
        (Ok(_), Ok(Err((_, e)))) => a.viol("rejects what the grammar derives", &text, e),
        (Err(at), Ok(Ok(got))) => a.viol("accepts what the grammar does not derive", &text, format!("stops being a prefix at token {}, parsed as {}", at.0, got)),
        // an enum or bitfield without representation type is reported where it begins
        (Err(at), Ok(Err((i, e)))) => if i.is_some() && i != Some(at.0) { a.viol("error reported at another token", &text, format!("stops being a prefix at token {}, reported at {:?}: {}", at.0, i, e)) } else { a.ok += 1 },
    }
    if a.samples.len() < 3 && want.is_ok() && t.len() > 9 { a.samples.push(text); }
    want.map(|_| ()).map_err(|e| e.0)
}
/// other layouts of the same tokens parse to the same tree
fn layouts(g: &Grammar, t: &[&str], a: &mut Acc) {
    let base = match reference(g, t) { Ok(w) => { let s = S { g, t }.s(&w); strip(&s) } Err(_) => return };
    let toks: Vec<_> = super::tok::reference(&t.join(" ")).unwrap().into_iter().map(|x| x.0).collect();
    for (sep, what) in [("\n", "lines"), (" /* * / // \" */", "block comments"), (" //* \" } ;\n", "line comments"), ("\t \r\n", "white space"), ("", "nothing")] {
        let mut text = String::new();
        for x in t {
            if sep.is_empty() {
                let glued = format!("{}{}", text, x);
                let n = super::tok::reference(&glued).map(|g| g.into_iter().map(|x| x.0).collect::<Vec<_>>()).unwrap_or_default();
                if n.len() > 0 && toks.starts_with(&n) && n.len() == super::tok::reference(&text).map_or(0, |x| x.len()) + 1 { text = glued; continue; }
                text.push(' ');
            }
            text.push_str(x);
            text.push_str(sep);
        }
        a.states += 1; a.steps += 1;
        match real(t, Some(&text)) {
            Ok(Ok(got)) if strip(&got) == base => a.ok += 1,
            r => a.viol("layout changes the result", &text, format!("tokens {:?} apart by {}: {:?}, expected {}", t, what, r, base)),
        }
    }
}
fn strip(s: &str) -> String {
    let mut out = String::new();
    let mut cs = s.chars().peekable();
    let mut quoted = false;
    while let Some(c) = cs.next() { if c == '"' { quoted = !quoted; } if c == '@' && !quoted { while cs.peek().map_or(false, |c| c.is_ascii_digit()) { cs.next(); } } else { out.push(c); } }
    out
}

struct Space { part: &'static str, pre: &'static str, post: &'static str, alpha: Vec<&'static str>, len: usize, lay: usize }
fn words_of(s: &'static str) -> Vec<&'static str> { s.split_whitespace().collect() }
/// explores every viable prefix over the alphabet up to the length, with every token that ends viability
fn explore(rep: &mut Report, g: &Grammar, sp: &Space) {
    let pre = words_of(sp.pre);
    let post = words_of(sp.post);
    // work items: all pairs of first tokens
    let k = sp.alpha.len() as u64;
    let accs = par(k * k + 1, Acc::default, |i, a| {
        let mut t = pre.clone();
        if i == k * k {
            step(g, sp, &pre, &post, &mut t, 0, 0, a);
            for x in &sp.alpha { t.truncate(pre.len()); t.push(x); step(g, sp, &pre, &post, &mut t, 1, 1, a); }
            return;
        }
        let (x, y) = (sp.alpha[(i % k) as usize], sp.alpha[(i / k) as usize]);
        t.push(x);
        if matches!(reference(g, &t), Err(At(n)) if n < t.len()) { return; }
        t.push(y);
        step(g, sp, &pre, &post, &mut t, 2, sp.len, a);
    });
    collect(rep, sp.part, accs);
}
fn step<'a>(g: &Grammar, sp: &Space, pre: &[&'a str], post: &[&'a str], t: &mut Vec<&'a str>, depth: usize, max: usize, a: &mut Acc) where 'static: 'a {
    let at = compare(g, t, a);
    if matches!(at, Err(n) if n < t.len()) { return; }
    let n = t.len();
    t.extend(post);
    compare(g, t, a).ok();
    if depth <= sp.lay { layouts(g, t, a); }
    t.truncate(n);
    if depth >= max { return; }
    for x in &sp.alpha { t.push(x); step(g, sp, pre, post, t, depth + 1, max, a); t.pop(); }
}

const ALL: &str = "a 1 \"s\" type = as import , from import_ffi transform function const .. . ?: u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 u16le u32le u64le u128le i16le i32le i64le i128le f32 f64 bool < > -> container [ ] { } enum default bitfield <= >= == != ? : :: ; + - * / % ! ( ) :> || && | ^ & >> << >>> ~ true false";
pub fn check(rep: &mut Report) {
    let g = Grammar::new();
    let d: usize = if rep.tier == "thorough" { 2 } else { 1 };
    let sp = |part, pre, post, alpha, len, lay| Space { part, pre, post, alpha: words_of(alpha), len: len + d, lay };
    let spaces = [
        sp("declarations", "", "", "a \"s\" type = as import , from import_ffi transform function const : u8 ; 1 ( )", 9, 9),
        sp("all_tokens_program", "", "", ALL, 4, 4),
        sp("all_tokens_type", "type a =", ";", ALL, 3, 2),
        sp("all_tokens_expression", "const a : u8 =", ";", ALL, 4 - d, 2),
        sp("all_tokens_container", "type a = container {", "} ;", ALL, 3, 2),
        sp("all_tokens_enum", "type a = enum u8 { a =", "} ;", ALL, 3, 2),
        sp("types", "type a =", ";", "u8 u16le f32 bool b container enum bitfield { } [ ] .. 1 : , = ( )", 6, 5),
        sp("field_parts", "type a = u8", ";", "= + { } -> ( ) , b 1 [ ..  ]", 8, 6),
        sp("container_items", "type a = container {", "} ;", "b pad . : u8 1 , + { } =", 8, 6),
        sp("container_heads", "type a = container", "b : u8 } ;", "[ ] { 1 + b } ..", 7, 7),
        sp("enum_items", "type a = enum u8 {", "} ;", "b = , default 1 + ( ) }", 8, 6),
        sp("enum_heads", "type a =", "b = 1 } ;", "enum bitfield u8 i16le { b f32", 5, 5),
        sp("bitfield_items", "type a = bitfield u8 {", "} ;", "b = , default 1 | }", 8, 6),
        sp("parameters", "type a (", "= u8 ;", "b : u8 ? 1 , ) ( [ ]", 8, 6),
        sp("arguments", "type a = b", ";", "( ) , 1 b + [ ]", 7, 6),
        sp("imports", "import", ";", "b as , from \"s\" 1", 8, 8),
        sp("operators", "const a : u8 =", ";", "1 b ! - ~ :> u8 ?: || && | ^ & == != < <= > >= << >> >>> + - * / % ? :", 5, 3),
        sp("grouping", "const a : u8 =", ";", "1 ( ) + * - == ?  : || [ ] :> u8 ?: . b", 6, 5),
        sp("postfix", "const a : u8 =", ";", "b ( ) [ ] . :: , 1 u16le -", 7, 5),
        sp("ternaries", "const a : u8 =", ";", "1 ? : || ( )", 9, 7),
        sp("casts", "const a : u8 =", ";", "1 :> u8 b ( ) [ ] ?: - * ..", 7, 5),
    ];
    for s in &spaces { explore(rep, &g, s); }
    // operator pairs and triples with every unary operator and suffix, grouped in every way
    let bin = words_of("?: || && | ^ & == != < <= > >= << >> >>> + - * / %");
    let operand: Vec<Vec<&str>> = ["x", "- x", "! ~ x", "x . y", "x [ 1 ]", "x :> u8", "5 u16", "f ( x )", "E :: V", "( x ? y : z )", "\"s\"", "true"].iter().map(|s| words_of(s)).collect();
    let (nb, no) = (bin.len() as u64, operand.len() as u64);
    let accs = par(nb * nb * no * no * 3, Acc::default, |i, a| {
        let (o1, o2, x, y, sh) = ((i % nb) as usize, (i / nb % nb) as usize, (i / nb / nb % no) as usize, (i / nb / nb / no % no) as usize, i / nb / nb / no / no);
        let mut t = words_of("const a : u8 =");
        if sh == 1 { t.push("("); }
        t.extend(&operand[x]); t.push(bin[o1]);
        if sh == 2 { t.push("("); }
        t.extend(&operand[y]);
        if sh == 1 { t.push(")"); }
        t.push(bin[o2]); t.push("z");
        if sh == 2 { t.push(")"); }
        t.push(";");
        compare(&g, &t, a).ok();
    });
    collect(rep, "operator_pairs", accs);
    let ops = if d == 2 { bin.clone() } else { words_of("?: || && | ^ & == < << + *") };
    let n = ops.len() as u64;
    let accs = par(n * n * n * n * 3, Acc::default, |i, a| {
        let o: Vec<&str> = (0..4).map(|j| ops[(i / n.pow(j) % n) as usize]).collect();
        let t = match i / n.pow(4) { 0 => vec!["a", o[0], "b", o[1], "c", o[2], "d", o[3], "e"], 1 => vec!["a", o[0], "-", "b", o[1], "c", "?", "d", o[2], "e", ":", "f", o[3], "g"], _ => vec!["a", o[0], "b", ":>", "u8", o[1], "c", "[", "d", o[2], "e", "]", o[3], "f"] };
        let mut full = words_of("const a : u8 =");
        full.extend(t); full.push(";");
        compare(&g, &full, a).ok();
    });
    collect(rep, "operator_quadruples", accs);
    rep.notes.push("spans of composite nodes are not compared".into());
}
