//! Specifications that the mutation spaces start from.
use std::collections::HashMap;

#[derive(Clone)]
pub struct Case { pub name: String, pub root: String, pub files: HashMap<String, String> }
fn read(text: &str) -> Vec<Case> {
    text.split("=== ").skip(1).map(|part| {
        let (title, body) = part.split_once('\n').unwrap();
        let mut secs = body.split("\n-- ");
        let root = secs.next().unwrap().to_string();
        Case { name: title.to_string(), root, files: secs.map(|s| { let (n, b) = s.split_once('\n').unwrap(); (n.to_string(), b.to_string()) }).collect() }
    }).collect()
}
pub fn written() -> Vec<Case> { read(include_str!("corpus.txt")) }
pub const FAMILIES: &[&str] = &["base", "cond", "calc", "repr", "expr", "consts", "xform", "lens", "foreign", "args", "tagged"];
/// every specification of the codec families
pub fn families(t: rt::run::Tier) -> Vec<Case> {
    let mut v = vec![];
    for f in FAMILIES { for (i, s) in rt::fam::specs(f, t).into_iter().enumerate() { v.push(Case { name: format!("{} {}", f, i), root: s.text(), files: HashMap::new() }); } }
    v
}
