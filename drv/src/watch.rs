//! A crash or hang of the code under test while a check calls it in process is a violation, not the end of the check.
use crate::report::Report;
use std::cell::RefCell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const LIMIT: u64 = 90;
fn dir() -> PathBuf { PathBuf::from(std::env::var("DRV_INNER").unwrap_or_default()) }
struct Slot { file: File, path: PathBuf, since: Arc<Mutex<Option<Instant>>> }
impl Drop for Slot { fn drop(&mut self) { *self.since.lock().unwrap() = None; let _ = std::fs::remove_file(&self.path); } }
static ALL: Mutex<Vec<Arc<Mutex<Option<Instant>>>>> = Mutex::new(vec![]);
static NEXT: AtomicU64 = AtomicU64::new(0);
thread_local! { static SLOT: RefCell<Option<Slot>> = RefCell::new(None); }

/// notes that the code under test gets this text, until the guard is dropped
pub struct On;
pub fn on(text: &str) -> On {
    if std::env::var_os("DRV_INNER").is_none() { return On }
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(|| {
            let path = dir().join(format!("{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
            let since = Arc::new(Mutex::new(None));
            ALL.lock().unwrap().push(since.clone());
            Slot { file: File::create(&path).unwrap(), path, since }
        });
        let mut b = format!("{:010}", text.len()).into_bytes();
        b.extend(text.as_bytes());
        let _ = s.file.write_all_at(&b, 0);
        *s.since.lock().unwrap() = Some(Instant::now());
    });
    On
}
impl Drop for On {
    fn drop(&mut self) { SLOT.with(|s| if let Some(s) = &*s.borrow() { *s.since.lock().unwrap() = None; let _ = s.file.write_all_at(b"-         ", 0); }) }
}
/// ends the process if a text takes too long
pub fn watch() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        let mut all = ALL.lock().unwrap();
        all.retain(|s| Arc::strong_count(s) > 1);
        if all.iter().any(|s| s.lock().unwrap().map_or(false, |t| t.elapsed() > Duration::from_secs(LIMIT))) { std::process::exit(97) }
    });
}
/// what a child of this process did not finish
pub fn unfinished(pid: u32) -> Vec<String> { texts(&format!("{}-", pid)) }
fn texts(prefix: &str) -> Vec<String> {
    let mut texts: Vec<String> = vec![];
    for e in std::fs::read_dir(dir()).into_iter().flatten().flatten() {
        if !e.file_name().to_string_lossy().starts_with(prefix) { continue }
        let b = std::fs::read(e.path()).unwrap_or_default();
        if let Some(n) = b.get(..10).and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| x.parse::<usize>().ok()) { texts.push(String::from_utf8_lossy(b.get(10..10 + n).unwrap_or(b"")).to_string()) }
    }
    texts.sort();
    texts
}
/// the check runs in a child process that is watched; returns in the child
pub fn guard(id: &str, tier: &str) {
    if std::env::var_os("DRV_INNER").is_some() { return watch() }
    let d = PathBuf::from(format!("/verif/target/inflight/{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let st = std::process::Command::new("bash").args(["-c", "ulimit -v 20000000; ulimit -c 0; exec \"$@\"", "x"]).arg(std::env::current_exe().unwrap()).args([id, tier]).env("DRV_INNER", &d).status().unwrap();
    std::env::set_var("DRV_INNER", &d);
    let texts = texts("");
    let _ = std::fs::remove_dir_all(&d);
    let crashed = matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11));
    if texts.is_empty() || !(crashed || st.code() == Some(97)) { std::process::exit(st.code().unwrap_or(2)) }
    let mut rep = Report::new(id, tier);
    rep.viol(if crashed { "the code under test crashes" } else { "the code under test hangs" }, &texts.join("\n==== or, at the same time:\n"), format!("{:?}", st));
    rep.finish()
}
