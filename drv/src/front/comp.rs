//! Compiles many generated modules with rustc, several to a crate.
use crate::codec::die;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};

/// where the libraries that generated code names are
pub struct Libs { args: Vec<String> }
const DIR: &str = "/verif/target/w/comp";
pub fn libs() -> Libs {
    let dir = PathBuf::from(format!("{}/libs", DIR));
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::write(dir.join("src/lib.rs"), "").unwrap();
    std::fs::write(dir.join("Cargo.toml"), "[package]\nname = \"libs\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nrt = { path = \"/verif/rt\", features = [\"async\"] }\nflate2 = \"1.1\"\nbase64 = { path = \"/verif/stubs/base64\" }\nanyhow = \"1\"\ntokio = { version = \"1\", default-features = false, features = [\"io-util\"] }\nasync-recursion = { path = \"/verif/stubs/async-recursion\" }\nasync-compression = { path = \"/verif/stubs/async-compression\" }\n[profile.dev]\ndebug = false\nincremental = false\n").unwrap();
    let out = Command::new("cargo").args(["build", "--offline", "-q", "--message-format=json"]).current_dir(&dir).env("CARGO_TARGET_DIR", "/verif/target/libs").env("RUSTFLAGS", "-Awarnings").output().unwrap();
    if !out.status.success() { die(&format!("libraries: {}", String::from_utf8_lossy(&out.stderr))) }
    let mut args = vec![];
    let mut dirs: Vec<String> = vec![];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if j["reason"] != "compiler-artifact" { continue }
        let n = j["target"]["name"].as_str().unwrap().replace('-', "_");
        for f in j["filenames"].as_array().into_iter().flatten() {
            let f = f.as_str().unwrap();
            if !(f.ends_with(".rlib") || f.ends_with(".so")) { continue }
            let d = Path::new(f).parent().unwrap().display().to_string();
            if !dirs.contains(&d) { dirs.push(d) }
            if ["rt", "flate2", "base64", "anyhow", "tokio", "async_recursion", "async_compression"].contains(&n.as_str()) && (n != "base64" || j["manifest_path"].as_str().unwrap().starts_with("/verif/stubs")) { args.extend(["--extern".into(), format!("{}={}", n, f)]); }
        }
    }
    for d in dirs { args.extend(["-L".into(), format!("dependency={}", d)]); }
    Libs { args }
}

pub struct Stat { pub crates: usize, pub secs: f64 }
/// the first error of each module that does not compile
pub fn compile(libs: &Libs, tag: &str, edition: &str, mods: &[String], per: usize) -> (BTreeMap<usize, String>, Stat) {
    let dir = PathBuf::from(format!("{}/{}", DIR, tag));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let t0 = std::time::Instant::now();
    let n = (mods.len() + per - 1) / per;
    let next = AtomicUsize::new(0);
    let bad = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
        let k = next.fetch_add(1, Ordering::Relaxed);
        if k >= n { return }
        let mut live: Vec<usize> = (k * per..((k + 1) * per).min(mods.len())).collect();
        let sub = dir.join(format!("c{}", k));
        std::fs::create_dir_all(&sub).unwrap();
        for i in &live { std::fs::write(sub.join(format!("m{}.rs", i)), &mods[*i]).unwrap(); }
        let mut rounds = 0;
        while !live.is_empty() {
            let m: String = live.iter().map(|i| format!("#[path = \"m{0}.rs\"] pub mod m{0};\n", i)).collect();
            std::fs::write(sub.join("lib.rs"), m).unwrap();
            let o = Command::new("rustc").args(["--edition", edition, "--crate-type", "lib", "--crate-name", &format!("c{}", k), "--emit=metadata", "-Awarnings", "--error-format=json", "-Cincremental=false"].iter().filter(|x| !x.starts_with("-Cinc"))).arg("-o").arg(sub.join("o.rmeta")).args(&libs.args).arg(sub.join("lib.rs")).output().unwrap();
            if o.status.success() { break }
            let mut found = BTreeMap::new();
            for l in String::from_utf8_lossy(&o.stderr).lines() {
                let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
                if j["level"] != "error" { continue }
                for f in files(&j) {
                    let Some(i) = Path::new(&f).file_name().and_then(|x| x.to_str()).and_then(|x| x.strip_prefix('m')).and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()) else { continue };
                    found.entry(i).or_insert(format!("{} {}", j["code"]["code"].as_str().unwrap_or("error:"), j["message"].as_str().unwrap_or("").replace('\n', " ")));
                }
            }
            let before = live.len();
            live.retain(|i| !found.contains_key(i));
            if live.len() == before { die(&format!("rustc failed without an error in a module: {}", String::from_utf8_lossy(&o.stderr).chars().take(2000).collect::<String>())) }
            bad.lock().unwrap().extend(found);
            rounds += 1;
            if rounds > 30 { die("too many rounds of compile errors") }
        }
        let _ = std::fs::remove_dir_all(&sub);
    }); });
    (bad.into_inner().unwrap(), Stat { crates: n, secs: t0.elapsed().as_secs_f64() })
}
fn files(m: &serde_json::Value) -> Vec<String> {
    let mut v: Vec<String> = m["spans"].as_array().into_iter().flatten().map(|s| s["file_name"].as_str().unwrap_or("").to_string()).collect();
    for c in m["children"].as_array().into_iter().flatten() { v.extend(files(c)) }
    v
}
