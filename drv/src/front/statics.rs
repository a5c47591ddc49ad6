//! C21: the verdict of the front end on every program of the space, compared with an independent checker.
use super::{rules, space};
use crate::fe::*;
use crate::par::*;
use crate::report::Report;
use protospec_build as pb;
use std::collections::BTreeMap;

fn real(text: &str) -> Result<(), String> {
    let _on = crate::watch::on(text);
    let ast = match quiet(|| pb::parse(text).map_err(|e| e.to_string())) { Err(p) => return Err(format!("PANIC {}", p)), Ok(Err(e)) => return Err(format!("PARSE {}", e)), Ok(Ok(a)) => a };
    let r = pb::PreludeImportResolver(Res::default());
    match quiet(|| pb::asg::Program::from_ast(&ast, &r).map(|_| ()).map_err(|e| e.to_string())) { Err(p) => Err(format!("PANIC {}", p)), Ok(r) => r }
}
pub fn check(rep: &mut Report) {
    let tier = rep.tier.clone();
    #[derive(Default)]
    struct A { acc: Acc, kinds: BTreeMap<&'static str, [u64; 4]> , rules: BTreeMap<String, u64> }
    let accs: Vec<A> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64).map(|k| { let tier = &tier; std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
            let mut a = A::default();
            let mut i = 0u64;
            space::programs(tier, &mut |kind, make| {
                i += 1;
                if (i / 64) % 8 != k { return }
                let p = make();
                let text = rules::text(&p);
                let want = rules::check(&p);
                let got = real(&text);
                a.acc.states += 1; a.acc.steps += 2;
                let e = a.kinds.entry(kind).or_default();
                match &want {
                    Err(r) if r.starts_with("UNSPECIFIED") => { e[2] += 1; a.acc.ok += 1; }
                    Ok(()) => match &got { Ok(()) => { e[0] += 1; a.acc.yes += 1; a.acc.ok += 1; } Err(g) => { e[3] += 1; a.acc.viol("a program that keeps the rules is rejected", &text, g.clone()); } },
                    Err(r) => { *a.rules.entry(r.split(" Is(").next().unwrap().split("type ").next().unwrap().to_string()).or_default() += 1; match &got { Err(g) if !g.starts_with("PANIC") => { e[1] += 1; a.acc.ok += 1; } Err(g) => { e[3] += 1; a.acc.viol("a panic", &text, g.clone()); } Ok(()) => { e[3] += 1; a.acc.viol("a program that breaks a rule is accepted", &text, r.clone()); } } }
                }
                if i % 100_003 == 0 { a.acc.samples.push(format!("{}: {} => {}", kind, text.lines().last().unwrap_or(""), match &want { Ok(()) => "accepted".to_string(), Err(r) => r.clone() })); }
            });
            a
        }).unwrap() }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut kinds: BTreeMap<&'static str, [u64; 4]> = BTreeMap::new();
    let mut broken: BTreeMap<String, u64> = BTreeMap::new();
    let mut list = vec![];
    for a in accs { for (k, e) in a.kinds { let x = kinds.entry(k).or_default(); for j in 0..4 { x[j] += e[j] } } for (r, n) in a.rules { *broken.entry(r).or_default() += n } for s in &a.acc.samples { rep.sample(s.clone()) } list.push(a.acc); }
    collect(rep, "programs", list);
    for (k, e) in kinds { rep.set(&format!("{} [accepted, rejected, either, wrong]", k), e.to_vec()); }
    rep.set("programs that break each rule", serde_json::to_value(broken).unwrap());
}
