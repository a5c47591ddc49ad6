//! Evidence, known findings and verdicts.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Instant;

pub fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    format!("{:016x}", h)
}
pub struct Viol { pub key: String, pub subject: String, pub what: String }
pub struct Report {
    pub id: String, pub tier: String, pub start: Instant, pub viols: Vec<Viol>,
    pub states: u64, pub transitions: u64, pub validated: u64, pub samples: Vec<String>, pub extra: BTreeMap<String, Value>,
    pub notes: Vec<String>,
}
impl Report {
    pub fn new(id: &str, tier: &str) -> Report { Report { id: id.into(), tier: tier.into(), start: Instant::now(), viols: vec![], states: 0, transitions: 0, validated: 0, samples: vec![], extra: BTreeMap::new(), notes: vec![] } }
    /// key: the kind of failure; subject: the input it is about
    pub fn viol(&mut self, key: &str, subject: &str, what: String) { self.viols.push(Viol { key: key.into(), subject: subject.into(), what }); }
    pub fn sample(&mut self, s: String) { if self.samples.len() < 12 { self.samples.push(s) } }
    pub fn set(&mut self, k: &str, v: impl Into<Value>) { self.extra.insert(k.into(), v.into()); }
    pub fn add(&mut self, k: &str, n: f64) { let e = self.extra.entry(k.into()).or_insert(json!(0.0)); *e = json!(((e.as_f64().unwrap() + n) * 10.0).round() / 10.0); }
    pub fn count(&mut self, k: &str, n: u64) { let e = self.extra.entry(k.into()).or_insert(json!(0)); *e = json!(e.as_u64().unwrap() + n); }
    /// writes everything and ends the process
    pub fn finish(mut self) -> ! {
        let root = "/verif";
        let known = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
        let mut hits: BTreeMap<String, String> = BTreeMap::new();
        let mut fresh: Vec<&Viol> = vec![];
        for v in &self.viols {
            let h = fnv(&format!("{}\n{}\n{}", self.id, v.key, v.subject));
            let line = known.lines().find(|l| l.starts_with(&format!("known: property={} ", self.id)) && l.split(' ').any(|w| w == format!("id={}", h)));
            match line { Some(l) => { hits.insert(h, l.splitn(4, ' ').nth(3).unwrap_or("").to_string()); } None => fresh.push(v) }
        }
        for (h, l) in &hits { println!("KNOWN-FINDING: property={} {} ({})", self.id, l, h); }
        let dir = format!("{}/evidence/replays", root);
        std::fs::create_dir_all(&dir).unwrap();
        let mut by: BTreeMap<&str, Vec<&Viol>> = BTreeMap::new();
        for v in &fresh { by.entry(&v.key).or_default().push(v); }
        for (k, vs) in &by {
            let v = vs[0];
            let h = fnv(&format!("{}\n{}\n{}", self.id, k, v.subject));
            let path = format!("{}/{}-{}.txt", dir, self.id, h);
            let mut t = format!("property {}\nkind {}\nid={}\n\n{}\n\n{}\n", self.id, k, h, v.subject, v.what);
            for w in vs.iter().skip(1).take(400) { t.push_str(&format!("\n---- also (id={})\n{}\n{}\n", fnv(&format!("{}\n{}\n{}", self.id, k, w.subject)), w.subject, w.what)); }
            std::fs::write(&path, t).unwrap();
            println!("VIOLATION property={} replay={}", self.id, path);
            println!("  {} ({} cases): {} :: {}", k, vs.len(), v.subject.replace('\n', " ").chars().take(300).collect::<String>(), v.what.chars().take(400).collect::<String>());
        }
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov = json!({ "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated, "samples": self.samples });
        for (k, v) in std::mem::take(&mut self.extra) { cov[k] = v; }
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let ev = json!({ "property": self.id, "tier": self.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall, "violations": fresh.len(), "violation_details": fresh.iter().take(50).map(|v| json!({"kind": v.key, "subject": v.subject, "what": v.what})).collect::<Vec<_>>(), "assumptions": self.notes });
        std::fs::write(format!("{}/evidence/{}.json", root, self.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!("{} {}: {} states, {} transitions, {} executions agree with the model, {} violations, {} known, {:.1}s", self.id, self.tier, self.states, self.transitions, self.validated, fresh.len(), hits.len(), wall);
        std::process::exit(if fresh.is_empty() { 0 } else { 1 })
    }
}
