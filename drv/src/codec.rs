//! Generates, builds and runs the explorers of a family of specifications.
use crate::fe::*;
use crate::report::Report;
use rt::ast::Spec;
use rt::run::Tier;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn put(p: &Path, s: &str) { if std::fs::read_to_string(p).ok().as_deref() != Some(s) { std::fs::write(p, s).unwrap() } }
pub fn die(s: &str) -> ! { eprintln!("{}", s); std::process::exit(2) }
pub const SHARDS: &str = "/verif/target/shards";

pub const DEPS: &str = "rt = { path = \"/verif/rt\"RTF }\nflate2 = \"1.1\"\nbase64 = { path = \"/verif/stubs/base64\" }\nASYNC\n";
pub fn manifest(name: &str, is_async: bool, extra: &str) -> String {
    let deps = DEPS.replace("RTF", if is_async { ", features = [\"async\"]" } else { "" }).replace("ASYNC", if is_async { "tokio = { version = \"1\", default-features = false, features = [\"io-util\"] }\nasync-recursion = { path = \"/verif/stubs/async-recursion\" }" } else { "" });
    format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\nautobins = true\n\n[workspace]\n\n[dependencies]\n{}{}\n[profile.dev]\nopt-level = 0\ndebug = false\noverflow-checks = true\ndebug-assertions = true\nincremental = false\n\n[profile.dev.package.\"*\"]\nopt-level = 2\noverflow-checks = true\n\n[profile.dev.package.rt]\nopt-level = 2\noverflow-checks = true\n", name, deps, extra)
}

/// builds a package; the files with errors and their first messages
pub fn cargo_build(dir: &Path, what: &str) -> BTreeMap<String, String> {
    let out = Command::new("cargo").args([what, "--offline", "--keep-going", "--message-format=json", "-q"]).current_dir(dir).env("CARGO_TARGET_DIR", SHARDS).env("RUSTFLAGS", "-Awarnings").stderr(Stdio::piped()).output().unwrap_or_else(|e| die(&format!("cargo: {}", e)));
    let mut errs = BTreeMap::new();
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if j["reason"] != "compiler-message" || j["message"]["level"] != "error" { continue }
        let m = &j["message"];
        let mut files: BTreeSet<String> = BTreeSet::new();
        fn spans(m: &serde_json::Value, f: &mut BTreeSet<String>) { for s in m["spans"].as_array().into_iter().flatten() { f.insert(s["file_name"].as_str().unwrap_or("").to_string()); } for c in m["children"].as_array().into_iter().flatten() { spans(c, f) } }
        spans(m, &mut files);
        for f in files {
            let code = m["code"]["code"].as_str().unwrap_or("");
            errs.entry(f).or_insert(format!("{} {}", code, m["message"].as_str().unwrap_or("")));
        }
    }
    if !out.status.success() && errs.is_empty() { die(&format!("cargo {} failed in {}:\n{}\n{}", what, dir.display(), String::from_utf8_lossy(&out.stderr), String::from_utf8_lossy(&out.stdout).chars().take(3000).collect::<String>())) }
    errs
}

/// family: its name, with ":feature" only those of its specifications that use the feature
pub fn check(rep: &mut Report, family_feat: &str, modes: &str, opt: Opt) {
    let (family, feat) = family_feat.split_once(':').unwrap_or((family_feat, ""));
    let is_async = opt.is_async;
    let tier = if rep.tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let specs = rt::fam::specs(family, tier);
    // one package per family and options, for all checks that explore it
    let pkg_name = format!("{}{}{}{}{}{}", family, if is_async { "-async" } else { "" }, if opt.anyhow { "-anyhow" } else { "" }, if opt.debug { "-debug" } else { "" }, if opt.derives > 0 { format!("-d{}", opt.derives) } else { String::new() }, if tier == Tier::Thorough { "-t" } else { "" });
    let dir = PathBuf::from(format!("/verif/target/w/{}", pkg_name));
    std::fs::create_dir_all(&dir).unwrap();
    let lock = std::fs::File::create(dir.join("lock")).unwrap();
    lock.lock().unwrap();
    std::fs::create_dir_all(dir.join("src/bin")).unwrap();
    std::fs::create_dir_all(dir.join("src/g")).unwrap();
    let skip = |i: usize| is_async && specs[i].no_async;
    rep.count("specifications", (0..specs.len()).filter(|i| !skip(*i) && rt::fam::has(&specs[*i], feat)).count() as u64);
    // front end
    let mut live: Vec<usize> = vec![];
    let codes: Vec<Fe> = big(|| specs.iter().map(|s| front(&s.text(), &Res::default(), opt)).collect());
    for (i, (s, c)) in specs.iter().zip(codes).enumerate() {
        if skip(i) { continue }
        match c {
            Fe::Code(code) => {
                let g = rt::glue::glue(s, is_async);
                put(&dir.join(format!("src/g/s{:04}.rs", i)), &format!("pub mod ty {{ {} {} }}\n{}", if opt.debug { "macro_rules! println { ($($t:tt)*) => { let _ = format!($($t)*); } }" } else { "" }, code, g));
                live.push(i);
            }
            Fe::Parse(e) => rep.viol("front end/parse error", &s.text(), format!("a legal specification is not parsed: {}", e)),
            Fe::Reject(e) => rep.viol("front end/rejected", &s.text(), format!("a legal specification is rejected: {}", e)),
            Fe::Panic(w, e) => rep.viol("front end/panic", &s.text(), format!("{} panics: {}", w, e)),
        }
    }
    put(&dir.join("Cargo.toml"), &manifest(&format!("w-{}", pkg_name), is_async, if opt.anyhow { "anyhow = \"1\"\n" } else { "" }));
    let t0 = std::time::Instant::now();
    let mut rounds = 0;
    let per = ((specs.len() + 7) / 8).clamp(1, 24);
    let pre = format!("{}-", pkg_name);
    let nsh = (specs.len() + per - 1) / per;
    for e in std::fs::read_dir(dir.join("src/bin")).unwrap().flatten() {
        let keep = e.file_name().to_string_lossy().strip_prefix(&pre).and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()).map_or(false, |k| k < nsh);
        if !keep { let _ = std::fs::remove_file(e.path()); }
    }
    loop {
        for k in 0..nsh {
            let mine: Vec<usize> = live.iter().copied().filter(|i| i % nsh == k).collect();
            let mut m = String::from("#[global_allocator]\nstatic A: rt::run::Alloc = rt::run::Alloc;\n");
            for i in &mine { m.push_str(&format!("#[path = \"../g/s{0:04}.rs\"]\nmod s{0:04};\n", i)); }
            m.push_str("fn main() { rt::run::main(&[");
            for i in &mine { m.push_str(&format!("({0}, &s{0:04}::CODEC), ", i)); }
            m.push_str("]) }\n");
            put(&dir.join(format!("src/bin/{}{}.rs", pre, k)), &m);
        }
        let errs = cargo_build(&dir, "build");
        if errs.is_empty() { break; }
        rounds += 1;
        let before = live.len();
        for (f, e) in &errs {
            let Some(i) = f.strip_prefix("src/g/s").and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()).or_else(|| f.strip_prefix("src/bin/../g/s").and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok())) else { continue };
            if let Some(p) = live.iter().position(|x| *x == i) {
                live.remove(p);
                rep.viol("generated code does not compile", &specs[i].text(), e.clone());
            }
        }
        if live.len() == before { die(&format!("unattributed build errors: {:?}", errs)) }
        if rounds > 12 { die("too many rounds of build errors") }
    }
    rep.add("build_s", t0.elapsed().as_secs_f64());
    let t0 = std::time::Instant::now();
    // run
    let pkg = format!("{}/debug", SHARDS);
    let results: Vec<(Vec<String>, Vec<(usize, String, String)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nsh).map(|k| { let (pkg, dir, rep_tier, pre) = (pkg.clone(), dir.clone(), rep.tier.clone(), pre.clone()); let (family, modes) = (family_feat.to_string(), modes.to_string()); s.spawn(move || run_shard(&format!("{}/{}{}", pkg, pre, k), &dir.join(format!("log{}", k)), &family, &modes, &rep_tier)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut ran = 0;
    for (lines, crashes) in results {
        for (i, key, what) in crashes { rep.viol(&key, &specs[i].text(), what); }
        for l in lines {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "VIOL" => { let i: usize = f[1].parse().unwrap(); let t = specs[i].text(); rep.viol(f[2], &t, f[3].to_string()); }
                "STAT" => {
                    let n: Vec<u64> = f[2..].iter().map(|x| x.parse().unwrap()).collect();
                    rep.states += n[0]; rep.transitions += n[1]; rep.validated += n[3];
                    rep.count("impl_executions", n[2]);
                    rep.count("searches_cut_by_a_cap", n[4]);
                    rep.count("values_outside_the_property", n[5]);
                    ran += 1;
                }
                "SAMPLE" => { let i: usize = f[1].parse().unwrap(); let t = one_line(&specs[i]); let n = rep.samples.len(); if n < 4 || n < 12 && i % 7 == 3 { rep.sample(format!("{} | {}", t, f[2])) } }
                _ => (),
            }
        }
    }
    drop(lock);
    rep.count("specifications_explored", ran);
    rep.add("run_s", t0.elapsed().as_secs_f64());
}
pub fn one_line(s: &Spec) -> String { s.decl_texts().join(" ") }

/// runs a shard; crashes are attributed by running again with a log
fn run_shard(bin: &str, log: &Path, family: &str, modes: &str, tier: &str) -> (Vec<String>, Vec<(usize, String, String)>) {
    let mut skip: Vec<usize> = vec![];
    let mut crashes = vec![];
    let mut kept: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut first = true;
    for _ in 0..8 {
        let mut c = Command::new(bin);
        c.args([family, modes, tier]);
        if !first { c.arg(format!("log={}", log.display())); }
        if !skip.is_empty() { c.arg(format!("skip={}", skip.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))); }
        let o = c.output().unwrap_or_else(|e| die(&format!("{}: {}", bin, e)));
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        for l in text.lines() { let f: Vec<&str> = l.splitn(3, '\t').collect(); if f.len() > 1 { let e = kept.entry(f[1].to_string()).or_default(); if !e.contains(&l.to_string()) { e.push(l.to_string()) } } }
        if o.status.success() && text.trim_end().ends_with("DONE") { return (kept.into_values().flatten().collect(), crashes); }
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        if err.contains("harness panic") || o.status.code() == Some(101) { die(&format!("{}: {}", bin, err)) }
        if first { first = false; continue; }
        let d = std::fs::read_to_string(log).unwrap_or_default();
        let Some((i, d)) = d.split_once('\t') else { die(&format!("{} ended with {:?} before any case: {}", bin, o.status, err)) };
        let i: usize = i.parse().unwrap();
        let kind = match o.status.code() { Some(97) => "hang", Some(98) => "allocation of over 512 MiB", _ => "abort" };
        crashes.push((i, kind.to_string(), format!("{} ({}): {}", kind, o.status, d)));
        skip.push(i);
        if crashes.len() >= 4 { break; }
    }
    let _ = std::io::stdout().flush();
    (kept.into_values().flatten().collect(), crashes)
}
