//! C20: the front end ends with a result on every text of the mutation spaces; runs in shards that may crash.
use super::corpus::*;
use super::tok;
use crate::fe::*;
use crate::report::Report;
use protospec_build as pb;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Seek, SeekFrom, Write};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// token texts of a specification
pub fn tokens(text: &str) -> Vec<String> { tok::reference(text).unwrap_or_default().into_iter().filter(|t| !matches!(t.0, pb::Token::CommentLine(_) | pb::Token::CommentBlock(_))).map(|t| text[t.1..t.2].to_string()).collect() }
pub fn is_name(t: &str) -> bool { super::syn::class(t) == "ID" }
const ANY: &[&str] = &["a", "T", "1", "0", "300", "99999999999999999999999999999999999999999", "0x", "\"s\"", "\"\"", "true", "type", "const", "import", "from", "as", "container", "enum", "bitfield", "default", "u8", "i64", "u16le", "f32", "bool", "(", ")", "[", "]", "{", "}", ",", ";", ":", "::", ":>", "=", "==", "<", "+", "-", "*", "/", "!", "~", "&&", "|", "<<", ">>>", "?", "?:", ".", "..", "->", "len", "blen", "pad", "utf8", "gzip"];
const TYPES: &[&str] = &["u8", "u16le", "u64", "u128", "i8", "i32", "f64", "bool"];
const INTS: &[&str] = &["0", "1", "2", "255", "256", "65536", "4294967296", "18446744073709551616", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "0x", "0xff", "00", "1u8", "1i64", "-1"];

type Sink<'a> = dyn FnMut(&str, &str, &HashMap<String, String>) + 'a;
fn mutate(c: &Case, toks: &[String], level: u8, build: &dyn Fn(&str) -> (String, HashMap<String, String>), out: &mut Sink) {
    let n = toks.len();
    let mut emit = |kind: &str, t: Vec<&str>| { let (r, f) = build(&t.join(" ")); out(kind, &r, &f); };
    let all: Vec<&str> = toks.iter().map(|x| x.as_str()).collect();
    emit("as it is", all.clone());
    for i in 0..n {
        let mut t = all.clone(); t.remove(i); emit("a token missing", t);
        let mut t = all.clone(); t.insert(i, all[i]); emit("a token twice", t);
        if i + 1 < n && all[i] != all[i + 1] { let mut t = all.clone(); t.swap(i, i + 1); emit("two tokens swapped", t); }
        if i > 0 { emit("ends early", all[..i].to_vec()); }
    }
    let mut names: Vec<&str> = all.iter().copied().filter(|t| is_name(t)).collect();
    names.sort(); names.dedup();
    for i in 0..n {
        if is_name(all[i]) { for x in &names { if *x != all[i] { let mut t = all.clone(); t[i] = x; emit("another name", t); } } let mut t = all.clone(); t[i] = "undefined"; emit("another name", t); }
        if super::syn::class(all[i]) == "INT" { for x in INTS { if *x != all[i] { let mut t = all.clone(); t[i] = x; emit("another number", t); } } for x in &names { let mut t = all.clone(); t[i] = x; emit("a name for a number", t); } }
        if TYPES.iter().any(|x| *x == all[i]) || (all[i].len() > 1 && super::syn::class(all[i]) == "" && (all[i].starts_with('u') || all[i].starts_with('i')) && all[i].as_bytes()[1].is_ascii_digit()) { for x in TYPES.iter().chain(&names) { if *x != all[i] { let mut t = all.clone(); t[i] = x; emit("another type", t); } } }
    }
    // declarations: missing, twice, swapped
    let decls: Vec<&[&str]> = all.split_inclusive(|t| *t == ";").collect();
    for i in 0..decls.len() {
        emit("a declaration missing", decls.iter().enumerate().filter(|(j, _)| *j != i).flat_map(|(_, d)| d.iter().copied()).collect());
        emit("a declaration twice", decls.iter().chain([&decls[i]]).flat_map(|d| d.iter().copied()).collect());
        for j in 0..i { let mut d = decls.clone(); d.swap(i, j); emit("declarations swapped", d.into_iter().flat_map(|d| d.iter().copied()).collect()); }
    }
    // brackets: groups missing, twice, or moved elsewhere
    let mut open = vec![];
    let mut groups = vec![];
    for (i, t) in all.iter().enumerate() { match *t { "(" | "[" | "{" => open.push(i), ")" | "]" | "}" => if let Some(o) = open.pop() { groups.push((o, i)); }, _ => () } }
    for (a, b) in &groups {
        let mut t = all.clone(); t.drain(*a..=*b); emit("a group missing", t);
        let mut t = all.clone(); let g: Vec<&str> = all[*a..=*b].to_vec(); t.splice(*b + 1..*b + 1, g.clone()); emit("a group twice", t);
        let mut t = all.clone(); t.drain(*a + 1..*b); emit("a group emptied", t);
        if level > 0 { for (c, d) in &groups { if (c, d) != (a, b) && all[*a] == all[*c] && (d < a || b < c) { let (lo, hi, x, y) = if d < a { (*c, *d, *a, *b) } else { (*a, *b, *c, *d) }; let mut t = all[..lo].to_vec(); t.extend(&all[x..=y]); t.extend(&all[hi + 1..x]); t.extend(&all[lo..=hi]); t.extend(&all[y + 1..]); emit("groups exchanged", t); } } }
    }
    if level > 0 {
        for i in 0..n { for x in ANY { if *x != all[i] { let mut t = all.clone(); t[i] = x; emit("another token", t); } } }
    }
    if level > 1 {
        for i in 0..=n { for x in ANY { let mut t = all.clone(); t.insert(i, x); emit("an extra token", t); } }
    }
    let _ = c;
}

/// deep or long programs: (kind, size) to text
pub fn ladder(kind: usize, n: usize) -> Option<(&'static str, String)> {
    let r = |s: &str| s.repeat(n);
    Some(match kind {
        0 => ("parentheses", format!("const A: u8 = {}1{};", r("("), r(")"))),
        1 => ("prefix operators", format!("const A: u8 = {}1;", r("~"))),
        2 => ("sum of literals", format!("const A: u32 = 1{};", r("+1"))),
        3 => ("mixed operators", format!("const A: u32 = 1{};", r("+1*1|1<<1"))),
        4 => ("conditional expressions", format!("const A: u32 = {}1{};", r("true?"), r(":2"))),
        5 => ("sum of fields", format!("type T = container {{ a: u8, b: u8[a{}] }};", r("+a"))),
        6 => ("parenthesised sums", format!("type T = container {{ a: u8, b: u8[{}a{}] }};", r("("), r("+1)"))),
        7 => ("negations", format!("type T = container {{ a: bool, b: u8 {{ {}a }} }};", r("!"))),
        8 => ("indices", format!("type T = container {{ a: u8[2], b: u8[{}0{}] }};", r("a["), r("]"))),
        9 => ("array types", format!("type T = u8{};", r("[1]"))),
        10 => ("nested containers", format!("type T = {}u8{};", r("container { a: "), r("}"))),
        11 => ("casts", format!("type T = container {{ a: u8, b: u8[a{}] }};", r(":> u8"))),
        12 => ("array types in casts", format!("type T = container {{ a: u8, b: u8[1 {}{}] }};", r(":> u8[1 "), r("]"))),
        13 => ("members", format!("type T = container {{ a: u8, b: u8 {{ a{} }} }};", r(".a"))),
        14 => ("calls", format!("type T = container {{ a: u8[1], b: u8[{}a{}] }};", r("len("), r(")"))),
        15 => ("type arguments", format!("type P(k: u8) = u8[k]; type T = {}1{};", r("P("), r(")"))),
        16 => ("elvis", format!("type T = container {{ k: bool, a: u8 {{ k }}, b: u8[a{}] }};", r("?:1"))),
        17 => ("nested conditional containers", format!("type T = {}u8{};", r("container { a: "), r("}{true}"))),
        18 => ("comparisons of comparisons", format!("type T = container {{ a: u8, b: u8 {{ a == a{} }} }};", r("== (a == a)"))),
        19 => ("conjunctions", format!("type T = container {{ a: u8, b: u8 {{ a == a{} }} }};", r("&& a == a || a == 1"))),
        20 => ("unclosed brackets", r("type T = container { a: u8[(")),
        21 => ("stray closing brackets", r(")]};")),
        22 => ("aliases", (0..n).map(|i| format!("type T{} = T{};", i, i + 1)).collect::<String>() + &format!("type T{} = u8;", n)),
        23 => ("aliases backwards", "type T0 = u8;".to_string() + &(0..n).map(|i| format!("type T{} = T{};", i + 1, i)).collect::<String>()),
        24 => ("containers of containers", (0..n).map(|i| format!("type T{} = container {{ a: T{} }};", i, i + 1)).collect::<String>() + &format!("type T{} = u8;", n)),
        25 => ("constants", "const C0: u32 = 1;".to_string() + &(0..n).map(|i| format!("const C{}: u32 = C{};", i + 1, i)).collect::<String>()),
        26 => ("enum items", format!("type E = enum u32 {{ A0 = 1{} }};", (0..n).map(|i| format!(", A{}", i + 1)).collect::<String>())),
        27 => ("calculated fields", format!("type T = container {{ {}a{}: u8 }};", (0..n).map(|i| format!("a{}: u8 = a{}, ", i, i + 1)).collect::<String>(), n)),
        28 => ("transforms", format!("import_ffi xor as transform; type T = u8[2]{};", r(" -> xor"))),
        29 => ("fields", format!("type T = container {{ {} }};", (0..n).map(|i| format!("a{}: u8, ", i)).collect::<String>())),
        30 => ("conditional fields", format!("type T = container {{ a: u8, {} }};", (0..n).map(|i| format!("a{}: u8 {{ a == 1 }}, ", i)).collect::<String>())),
        31 => ("recursive containers", (0..n).map(|i| format!("type T{} = container {{ n: u8, a: T{}[n], b: T{}[n] }};", i, (i + 1) % n, (i + 2) % n)).collect()),
        32 => ("tagged variants", format!("type T(k: u32) = container +tagged_enum {{ {} }};", (0..n).map(|i| format!("a{}: u8 {{ k == {} }}, ", i, i)).collect::<String>())),
        33 => ("nested casts of sums", format!("type T = container {{ a: u8, b: u8[{}a{}] }};", r("("), r(" :> u16 + 1) :> u8"))),
        34 => ("conditional expressions in parentheses", format!("type T = container {{ a: bool, b: u8[{}1{}] }};", r("(a ? "), r(" : 2)"))),
        35 => ("string", format!("const S: u8[1] = \"{}\";", r("\\00"))),
        36 => ("comment", format!("/*{}*/ type T = u8;", r("*/ /*"))),
        37 => ("digits", format!("const A: u8 = {}1;", r("0"))),
        38 => ("name", format!("type {} = u8;", r("a"))),
        39 => ("shifts", format!("const A: u32 = 1{};", r("<<1>>1"))),
        40 => ("enum values", format!("type E = enum u32 {{ A = 1{} }};", r("+1"))),
        41 => ("blen chain", format!("type T = container {{ {} c: container [n0] {{ x: u8[..] }} }};", (0..n).map(|i| format!("n{}: u64 = {}, ", i, if i == 0 { "blen(c)".to_string() } else { format!("n{}", i - 1) })).collect::<String>())),
        _ => return None,
    })
}
const SIZES: &[usize] = &[1, 2, 3, 8, 20, 40, 60, 80, 100, 120, 127, 128, 129, 200, 256, 257, 300, 500, 1000];

/// changes of the written specifications and of those of the codec families
pub fn mutants(written_level: u8, family_level: Option<u8>, out: &mut dyn FnMut(&str, &str, &HashMap<String, String>, Option<&str>)) {
    let mut cases = written();
    let fams = families(rt::run::Tier::Quick);
    let nw = cases.len();
    cases.extend(fams);
    for (ci, c) in cases.iter().enumerate() {
        let toks = tokens(&c.root);
        let level = if ci < nw { written_level } else { family_level.unwrap_or(0) };
        if ci >= nw && family_level.is_none() { continue; }
        if ci >= nw && family_level == Some(0) && ci % 4 != 0 { out("as it is", &c.root, &c.files, None); continue; }
        mutate(c, &toks, level, &|t| (t.to_string(), c.files.clone()), &mut |k, r, f| out(k, r, f, None));
        for (n, text) in &c.files {
            let toks = tokens(text);
            mutate(c, &toks, level, &|t| { let mut f = c.files.clone(); f.insert(n.clone(), t.to_string()); (c.root.clone(), f) }, &mut |k, r, f| out(k, r, f, None));
            let mut f = c.files.clone(); f.remove(n); out("a file missing", &c.root, &f, None);
            out("the resolver fails", &c.root, &c.files, Some(n));
            let mut f = c.files.clone(); f.insert(n.clone(), c.root.clone()); out("a file importing itself", &c.root, &f, None);
        }
    }
}
/// all inputs, in a fixed order
pub fn inputs(tier: &str, out: &mut dyn FnMut(&str, &str, &HashMap<String, String>, Option<&str>)) {
    let thorough = tier == "thorough";
    let none = HashMap::new();
    for k in 0.. { if ladder(k, 1).is_none() { break; } for n in SIZES { if *n > 500 && (22..=24).contains(&k) && !thorough { continue; } let (what, t) = ladder(k, *n).unwrap(); out(&format!("{} ({})", what, n), &t, &none, None); } }
    mutants(if thorough { 2 } else { 1 }, Some(if thorough { 1 } else { 0 }), out);
    super::space::programs("quick", &mut |_, make| out("small program", &super::rules::text(&make()), &none, None));
}

static CUR: Mutex<Option<(Instant, String)>> = Mutex::new(None);
fn begin(log: &mut std::fs::File, i: u64, kind: &str, text: &str, files: &HashMap<String, String>) {
    let mut t = format!("{}\t{}\t{}", i, kind, text);
    let mut fs: Vec<_> = files.iter().collect();
    fs.sort();
    for (n, f) in fs { t.push_str(&format!("\n-- {}\n{}", n, f)); }
    log.seek(SeekFrom::Start(0)).unwrap();
    log.write_all(format!("{:08}", t.len()).as_bytes()).unwrap();
    log.write_all(t.as_bytes()).unwrap();
    *CUR.lock().unwrap() = Some((Instant::now(), t));
}
pub const LIMIT: u64 = 20;
/// `drv c20shard K N TIER LOG FROM`
pub fn shard(a: &[String]) -> ! {
    let (k, n, tier, from): (u64, u64, &str, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), &a[2], a[4].parse().unwrap());
    let mut log = std::fs::File::create(&a[3]).unwrap();
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some((t, _)) = &*CUR.lock().unwrap() { if t.elapsed() > Duration::from_secs(LIMIT) { std::process::exit(97) } }
    });
    let mut i = 0;
    let mut stat: BTreeMap<String, [u64; 4]> = BTreeMap::new();
    let mut phases = 0u64;
    inputs(tier, &mut |kind, text, files, fail| {
        i += 1;
        if i % n != k || i <= from { return; }
        begin(&mut log, i, kind, text, files);
        let res = Res { files: files.clone(), fail: fail.map(|x| x.to_string()) };
        // deep programs get the stack of an ordinary thread
        let run = || front_both(text, &res);
        let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, run).unwrap().join().unwrap());
        let key = kind.split(" (").next().unwrap().to_string();
        let e = stat.entry(key).or_default();
        match r {
            Fe::Code(_) => { e[0] += 1; phases += 4; }
            Fe::Parse(_) => { e[1] += 1; phases += 1; }
            Fe::Reject(_) => { e[2] += 1; phases += 2; }
            Fe::Panic(w, m) => { e[3] += 1; println!("VIOL\t{}\t{}\t{}", i, format!("panic in {}", w), json(&[kind, text, &m, &show(files)])) }
        }
    });
    for (k, e) in stat { println!("STAT\t{}\t{}\t{}\t{}\t{}", k, e[0], e[1], e[2], e[3]); }
    println!("PHASES\t{}", phases);
    println!("DONE");
    std::process::exit(0)
}
fn show(files: &HashMap<String, String>) -> String { let mut v: Vec<_> = files.iter().collect(); v.sort(); v.iter().map(|(n, t)| format!("\n-- {}\n{}", n, t)).collect() }
fn json(v: &[&str]) -> String { serde_json::to_string(v).unwrap() }

/// all phases, code generation with two sets of options
pub fn front_both(text: &str, res: &Res) -> Fe {
    let ast = match quiet(|| pb::parse(text).map_err(|e| e.to_string())) { Err(p) => return Fe::Panic("parsing", p), Ok(Err(e)) => return Fe::Parse(e), Ok(Ok(a)) => a };
    let r = pb::PreludeImportResolver(res.clone());
    let prog = match quiet(|| pb::asg::Program::from_ast(&ast, &r).map_err(|e| e.to_string())) { Err(p) => return Fe::Panic("semantic analysis", p), Ok(Err(e)) => return Fe::Reject(e), Ok(Ok(p)) => p };
    for o in [PLAIN, Opt { is_async: true, anyhow: true, debug: true, derives: 1 }] {
        if let Err(p) = quiet(|| pb::compile_program(&prog, &o.compile())) { return Fe::Panic("code generation", p) }
    }
    Fe::Code(String::new())
}

pub fn check(rep: &mut Report) {
    let n = 8;
    let dir = std::path::PathBuf::from("/verif/target/w/C20");
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let tier = rep.tier.clone();
    let outs: Vec<(Vec<String>, Vec<(String, String)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|k| { let (exe, dir, tier) = (exe.clone(), dir.clone(), tier.clone()); s.spawn(move || {
            let log = dir.join(format!("cur{}", k));
            let mut from = 0u64;
            let (mut lines, mut dead) = (vec![], vec![]);
            for _ in 0..6 {
                let o = std::process::Command::new("bash").arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$@\"").arg("x").arg(&exe).args(["c20shard", &k.to_string(), &n.to_string(), &tier, log.to_str().unwrap(), &from.to_string()]).output().unwrap();
                let text = String::from_utf8_lossy(&o.stdout).to_string();
                lines.extend(text.lines().map(|l| l.to_string()));
                if o.status.success() && text.trim_end().ends_with("DONE") { break; }
                let mut cur = String::new();
                std::fs::File::open(&log).unwrap().read_to_string(&mut cur).ok();
                let len: usize = cur.get(..8).and_then(|x| x.parse().ok()).unwrap_or_else(|| crate::codec::die(&format!("shard {}: {:?} {}", k, o.status, String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>())));
                let t = cur.get(8..8 + len).unwrap_or("").to_string();
                from = t.split('\t').next().unwrap().parse().unwrap();
                let what = if o.status.code() == Some(97) { format!("no result after {} s", LIMIT) } else { format!("the process ended ({}): {}", o.status, String::from_utf8_lossy(&o.stderr).lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" ")) };
                dead.push((t, what));
            }
            (lines, dead)
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut kinds: BTreeMap<String, [u64; 4]> = BTreeMap::new();
    for (lines, dead) in outs {
        for (t, what) in dead {
            let f: Vec<&str> = t.splitn(3, '\t').collect();
            rep.viol(if what.starts_with("no result") { "hang" } else { "crash" }, f[2], format!("{}: {}", f[1], what));
        }
        for l in lines {
            let f: Vec<&str> = l.splitn(4, '\t').collect();
            match f[0] {
                "VIOL" => { let v: Vec<String> = serde_json::from_str(f[3]).unwrap(); rep.viol(f[2], &v[2], format!("{}: {}{}", v[0], v[1], v[3])); }
                "STAT" => { let f: Vec<&str> = l.split('\t').collect(); let e = kinds.entry(f[1].to_string()).or_default(); for j in 0..4 { e[j] += f[2 + j].parse::<u64>().unwrap(); } }
                "PHASES" => rep.transitions += f[1].parse::<u64>().unwrap(),
                _ => (),
            }
        }
    }
    for (k, e) in kinds {
        let n: u64 = e.iter().sum();
        rep.states += n; rep.validated += n - e[3];
        rep.set(&format!("{} [code, parse error, rejected, panic]", k), e.to_vec());
    }
    for k in [0, 10, 31] { let (n, t) = ladder(k, 3).unwrap(); rep.sample(format!("{}: {}", n, t)); }
    for c in written().iter().take(4) { rep.sample(format!("mutations of: {}", c.root.replace('\n', " "))); }
    rep.notes.push(format!("a text counts as hanging after {} s; every text runs on a 2 MiB stack", LIMIT));
}
