//! C25: compile_spec, over all short sequences of calls with faults of the file system and the formatter.
use crate::fe::*;
use crate::report::Report;
use protospec_build as pb;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;

const DIR: &str = "/verif/target/w/C25";
/// more code than a pipe holds
fn huge() -> &'static str {
    static T: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    T.get_or_init(|| (0..60).map(|i| format!("type H{} = container {{ a: u8, b: u16[a], c: u32 {{ a == 1 }} }};\n", i)).collect())
}
fn spec(i: usize) -> &'static str { if SPECS[i].0 == "huge" { huge() } else { SPECS[i].1 } }
const SPECS: &[(&str, &str)] = &[
    ("short", "type Aa = container { a: u8 };"),
    ("long", "type Aa = container { a: u8, b: u16[a], c: u32[..] }; type Bb = enum u8 { X = 1, Y = 2 }; type Cc = container { d: Aa, e: Bb };"),
    ("other", "type Dd = container { a: u32 { true }, f: bool }; type Fl = bitfield u16 { P = 1, Q };"),
    ("empty", ""),
    ("syntax error", "type Aa = container { a u8 };"),
    ("semantic error", "type Aa = container { a: Nope };"),
    ("import", "import X from \"x\"; type Aa = container { a: X };"),
    ("huge", ""),
    ("unknown ffi", "import_ffi nope as type; type Aa = container { a: nope };"),
];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Env { Plain, Fmt, FmtReal, FmtAbsent, FmtFails, FmtFailsLate, FmtDeaf, FmtDeafFails, FmtKilled, FmtBytes, NoDir, DirMissing, DirIsFile, TargetIsDir, Full, DirNotText }
const ENVS: &[Env] = &[Env::Plain, Env::Fmt, Env::FmtAbsent, Env::FmtFails, Env::FmtFailsLate, Env::FmtDeafFails, Env::FmtKilled, Env::FmtBytes, Env::NoDir, Env::DirMissing, Env::DirIsFile, Env::TargetIsDir, Env::Full, Env::DirNotText];
#[derive(Clone, Copy, Debug)]
struct Call { spec: usize, name: &'static str, env: Env, opt: u8 }

fn scripts() -> Vec<(Env, &'static str)> {
    vec![
        (Env::Fmt, "#!/bin/sh\nt=$(/bin/cat; echo .)\necho '// formatted'\nprintf '%s' \"${t%.}\"\n"),
        (Env::FmtFails, "#!/bin/sh\n/bin/cat >/dev/null\nexit 1\n"),
        (Env::FmtFailsLate, "#!/bin/sh\n/usr/bin/head -c 100\n/bin/cat >/dev/null\nexit 1\n"),
        (Env::FmtDeaf, "#!/bin/sh\nexec 0<&-\nexit 0\n"),
        (Env::FmtDeafFails, "#!/bin/sh\nexec 0<&-\necho partial\nexit 1\n"),
        (Env::FmtKilled, "#!/bin/sh\n/usr/bin/head -c 200\nkill -9 $$\n"),
        (Env::FmtBytes, "#!/bin/sh\n/bin/cat >/dev/null\nprintf '\\377\\376'\n"),
    ]
}
fn opts(o: u8, fmt: bool) -> pb::Options {
    let mut d = pb::Options { format_output: fmt, ..Default::default() };
    match o { 0 => (), 1 => { d.include_async = true; d.use_anyhow = true; } 2 => { d.debug_mode = true; d.enum_derives = vec!["Clone".into()]; } _ => { d.struct_derives = vec!["Debug".into()]; d.include_async = true; } }
    d
}
fn code(spec: &str, o: &pb::Options) -> Option<String> {
    let ast = pb::parse(spec).ok()?;
    let p = pb::asg::Program::from_ast(&ast, &pb::PreludeImportResolver(pb::NullImportResolver)).ok()?;
    Some(pb::compile_program(&p, &pb::CompileOptions { enum_derives: o.enum_derives.clone(), struct_derives: o.struct_derives.clone(), include_async: o.include_async, use_anyhow: o.use_anyhow, debug_mode: o.debug_mode }).to_string())
}
fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(d).map(|r| r.map(|e| e.unwrap()).map(|e| (e.file_name().to_string_lossy().to_string(), if e.path().is_file() { std::fs::read(e.path()).unwrap_or_default() } else { b"DIR".to_vec() })).collect()).unwrap_or_default()
}
/// the formatter that is installed
fn formatter() -> PathBuf {
    let o = Command::new("bash").args(["-c", "command -v rustfmt"]).output().unwrap();
    PathBuf::from(String::from_utf8_lossy(&o.stdout).trim()).parent().unwrap().to_path_buf()
}
fn format(code: &str) -> Option<String> {
    use std::io::Write;
    let mut c = Command::new("rustfmt").args(["--edition", "2021"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().ok()?;
    c.stdin.take().unwrap().write_all(code.as_bytes()).ok()?;
    let o = c.wait_with_output().ok()?;
    if o.status.success() { String::from_utf8(o.stdout).ok() } else { None }
}
/// makes the calls in a new directory; the first that does not behave
fn sequence(seq: &[Call], base: &Path, real: &Path, steps: &mut u64, oks: &mut u64) -> Option<(String, String)> {
    let dir = base.join("out");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (i, c) in seq.iter().enumerate() {
        let fail = |what: String| Some((format!("{}", seq[..=i].iter().map(|c| format!("compile_spec({:?}, {}, options {}) with {:?}; ", c.name, if SPECS[c.spec].0 == "huge" { "(60 containers)".into() } else { format!("{:?}", spec(c.spec)) }, c.opt, c.env)).collect::<String>()), what));
        let target = dir.join(format!("{}.rs", c.name));
        let key = format!("{}.rs", c.name);
        let fmt = !matches!(c.env, Env::Plain);
        let o = opts(c.opt, fmt);
        let path = match c.env { Env::FmtAbsent => base.join("empty"), Env::FmtReal => real.to_path_buf(), e => base.join(if scripts().iter().any(|s| s.0 == e) { format!("{:?}", e) } else { "Fmt".into() }) };
        let code = code(spec(c.spec), &o);
        let out = match c.env { Env::DirMissing => base.join("missing"), Env::DirIsFile => base.join("file"), _ => dir.clone() };
        if matches!(c.env, Env::TargetIsDir | Env::Full) && want.remove(&key).is_some() { std::fs::remove_file(&target).unwrap() }
        match c.env { Env::TargetIsDir => std::fs::create_dir(&target).unwrap(), Env::Full => std::os::unix::fs::symlink("/dev/full", &target).unwrap(), _ => () }
        // the formatter of the model, before the path is changed
        let formatted = match (c.env, &code) { (Env::FmtReal, Some(x)) => format(x), _ => None };
        let old = std::env::var_os("PATH").unwrap();
        std::env::set_var("PATH", &path);
        use std::os::unix::ffi::OsStrExt;
        match c.env { Env::NoDir => std::env::remove_var("OUT_DIR"), Env::DirNotText => std::env::set_var("OUT_DIR", std::ffi::OsStr::from_bytes(dir.join("..").as_os_str().as_bytes().iter().chain(b"/n\xff").cloned().collect::<Vec<u8>>().as_slice())), _ => std::env::set_var("OUT_DIR", &out) }
        *steps += 1;
        let r = quiet(|| pb::compile_spec(c.name, spec(c.spec), &o).map_err(|e| e.to_string()));
        std::env::set_var("PATH", old);
        let r = match r { Err(p) => return fail(format!("panic: {}", p)), Ok(r) => r };
        match c.env { Env::TargetIsDir => { if std::fs::read_dir(&target).map(|x| x.count()).unwrap_or(1) != 0 { return fail("the directory was changed".into()) } std::fs::remove_dir(&target).unwrap() } Env::Full => std::fs::remove_file(&target).unwrap(), _ => () }
        let got = files(&dir);
        let blocked = matches!(c.env, Env::NoDir | Env::DirMissing | Env::DirIsFile | Env::TargetIsDir | Env::Full);
        match (r, code) {
            (Ok(()), None) => return fail("Ok for a specification that is rejected".into()),
            (Err(_), None) => (),
            (Ok(()), Some(_)) if blocked => return fail("Ok although nothing can be written".into()),
            (Err(_), Some(_)) if blocked => (),
            (Err(e), Some(_)) if matches!(c.env, Env::Plain | Env::Fmt | Env::FmtReal | Env::DirNotText) => return fail(format!("an error without a cause: {}", e)),
            // a formatter that fails may be an error, or leave the code as it is
            (Err(_), Some(_)) => { want.remove(&key); if let Some(x) = got.get(&key) { want.insert(key.clone(), x.clone()); } }
            (Ok(()), Some(code)) => {
                *oks += 1;
                let text = match c.env { Env::Fmt | Env::DirNotText => format!("// formatted\n{}", code), Env::FmtReal => formatted.unwrap_or(code), _ => code };
                if c.env == Env::DirNotText {
                    let p = PathBuf::from(std::env::var_os("OUT_DIR").unwrap()).join(&key);
                    if std::fs::read(&p).ok().as_deref() != Some(text.as_bytes()) { return fail("Ok, but the module is not in the directory named by OUT_DIR".into()) }
                    std::fs::remove_file(&p).unwrap();
                } else {
                    want.insert(key.clone(), text.into_bytes());
                }
            }
        }
        if got != want {
            for (n, w) in &want { match got.get(n) { None => return fail(format!("{} is missing", n)), Some(g) if g != w => { let k = g.iter().zip(w).take_while(|(a, b)| a == b).count(); return fail(format!("{} has {} bytes that differ at {} from the {} bytes of the module: {:?}", n, g.len(), k, w.len(), String::from_utf8_lossy(&g[k.saturating_sub(20)..(k + 60).min(g.len())]))) } _ => () } }
            return fail(format!("there are other files: {:?}", got.keys().collect::<Vec<_>>()));
        }
    }
    None
}
fn sequences(tier: &str, out: &mut dyn FnMut(&[Call])) {
    let thorough = tier == "thorough";
    let mut calls = vec![];
    for k in 0..SPECS.len() { let spec = k; for name in ["a", "b"] { for env in ENVS { calls.push(Call { spec, name, env: *env, opt: 0 }); } } }
    for c in &calls { out(&[*c]) }
    // options
    for spec in [0, 1, 2, 3, 7] { for opt in 1..4 { for env in [Env::Plain, Env::Fmt, Env::FmtFails, Env::FmtReal] { out(&[Call { spec, name: "a", env, opt }]); } } }
    for spec in 0..SPECS.len() { out(&[Call { spec, name: "a", env: Env::FmtReal, opt: 0 }]); }
    for (name, env) in [("x.y", Env::Plain), ("a b", Env::Fmt), ("é", Env::Fmt), ("", Env::Plain), ("sub/x", Env::TargetIsDir)] { if name != "sub/x" { out(&[Call { spec: 1, name, env, opt: 0 }]); } }
    let few: Vec<Call> = calls.iter().filter(|c| thorough || (c.name == "a" && [0, 1, 4, 5].contains(&c.spec))).cloned().collect();
    for c in &few { for d in &calls { if thorough || d.spec < 6 { out(&[*c, *d]) } } }
    let tiny: Vec<Call> = calls.iter().filter(|c| [0, 1, 4].contains(&c.spec) && matches!(c.env, Env::Plain | Env::Fmt | Env::FmtFailsLate | Env::Full) && (thorough || c.name == "a" || (c.spec == 0 && c.env == Env::Plain))).cloned().collect();
    for c in &tiny { for d in &tiny { for e in &tiny { out(&[*c, *d, *e]) } } }
}
/// `drv c25shard K N TIER`
pub fn shard(a: &[String]) -> ! {
    let (k, n): (u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let base = PathBuf::from(format!("{}/s{}", DIR, k));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(base.join("empty")).unwrap();
    std::fs::write(base.join("file"), "").unwrap();
    { use std::os::unix::ffi::OsStrExt; std::fs::create_dir_all(base.join(std::ffi::OsStr::from_bytes(b"n\xff"))).unwrap(); }
    for (e, t) in scripts() {
        let d = base.join(format!("{:?}", e));
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("rustfmt"), t).unwrap();
        std::fs::set_permissions(d.join("rustfmt"), std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
    }
    let real = formatter();
    let (mut i, mut states, mut steps, mut oks) = (0, 0, 0, 0);
    sequences(&a[2], &mut |s| {
        i += 1;
        if i % n != k { return }
        states += 1;
        println!("SEQ {}", s.iter().map(|c| format!("{}/{}/{:?}/{} ", SPECS[c.spec].0, c.name, c.env, c.opt)).collect::<String>());
        if let Some((sub, what)) = sequence(s, &base, &real, &mut steps, &mut oks) { println!("VIOL {}", serde_json::to_string(&[sub, what]).unwrap()); }
    });
    println!("DONE {} {} {}", states, steps, oks);
    let _ = std::fs::remove_dir_all(&base);
    std::process::exit(0)
}
/// `drv c25one DIR SPEC`: a single call
pub fn one(a: &[String]) -> ! {
    std::env::set_var("OUT_DIR", &a[0]);
    let r = pb::compile_spec("a", spec(a[1].parse::<usize>().unwrap()), &opts(0, false));
    std::process::exit(if r.is_ok() { 0 } else { 3 })
}
pub fn check(rep: &mut Report) {
    let tier = rep.tier.clone();
    let exe = std::env::current_exe().unwrap();
    let n = 8;
    std::fs::create_dir_all(DIR).unwrap();
    let outs: Vec<(bool, String)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|k| { let (exe, tier) = (&exe, &tier); s.spawn(move || {
            let o = Command::new("timeout").args(["-k", "5", if tier == "thorough" { "7200" } else { "400" }]).arg(exe).args(["c25shard", &k.to_string(), &n.to_string(), tier]).stderr(std::process::Stdio::null()).output().unwrap();
            (o.status.success(), String::from_utf8_lossy(&o.stdout).to_string())
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut bad = 0;
    for (ok, t) in &outs {
        let last = t.lines().last().unwrap_or("");
        if !ok || !last.starts_with("DONE ") { rep.viol("a call does not end", t.lines().filter(|l| l.starts_with("SEQ ")).last().unwrap_or(""), "the process ended or was stopped".into()); continue }
        let v: Vec<u64> = last[5..].split(' ').map(|x| x.parse().unwrap()).collect();
        rep.states += v[0]; rep.transitions += v[1]; rep.count("modules written", v[2]);
        for l in t.lines() { if let Some(x) = l.strip_prefix("VIOL ") { bad += 1; let v: Vec<String> = serde_json::from_str(x).unwrap(); rep.viol(v[1].split([':', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9']).next().unwrap().trim(), &v[0], v[1].clone()); } }
        for l in t.lines().filter(|l| l.starts_with("SEQ ")).step_by(997) { rep.sample(l[4..].to_string()); }
    }
    rep.validated += rep.states - bad;
    // writing stops at every kilobyte
    let dir = PathBuf::from(format!("{}/torn", DIR));
    let mut torn = 0;
    for spec in [0, 1, 7] {
        let want = code(self::spec(spec), &opts(0, false)).unwrap();
        let total = (want.len() + 1023) / 1024;
        for kb in (0..=total + 1).filter(|k| total < 100 || k % 16 == 0 || *k >= total - 1) {
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            for prior in [false, true] {
                if prior { std::fs::write(dir.join("a.rs"), "x".repeat(2_000_000)).unwrap(); }
                let call = |limit: &str| Command::new("bash").arg("-c").arg(format!("trap '' XFSZ; ulimit -f {}; exec \"$@\"", limit)).arg("x").arg(&exe).args(["c25one", dir.to_str().unwrap(), &spec.to_string()]).stderr(std::process::Stdio::null()).status().unwrap().code();
                let sub = format!("{} specification, the file can have {} kB, {}", SPECS[spec].0, kb, if prior { "after a longer file" } else { "no file before" });
                rep.states += 1; rep.transitions += 2; torn += 1;
                let r = call(&kb.to_string());
                let got = std::fs::read(dir.join("a.rs")).unwrap_or_default();
                let mut good = true;
                match r {
                    Some(0) if got != want.as_bytes() => { rep.viol("Ok, but the file is incomplete", &sub, format!("{} of {} bytes", got.len(), want.len())); good = false }
                    Some(0) => (),
                    Some(3) if kb * 1024 >= want.len() => { rep.viol("an error without a cause", &sub, String::new()); good = false }
                    Some(3) => (),
                    c => { rep.viol("the call does not return", &sub, format!("{:?}", c)); good = false }
                }
                let r = call("unlimited");
                let got = std::fs::read(dir.join("a.rs")).unwrap_or_default();
                if r != Some(0) || got != want.as_bytes() { rep.viol("a later call is incomplete", &sub, format!("{:?}, {} of {} bytes", r, got.len(), want.len())); good = false }
                if good { rep.validated += 1 }
            }
        }
    }
    rep.set("torn writes", torn);
    let _ = std::fs::remove_dir_all(&dir);
}
