mod codec;
mod fe;
mod front;
mod par;
mod report;
mod watch;

/// the codec properties: families with the engines run on them
fn plan(id: &str, tier: &str) -> Option<Vec<(&'static str, &'static str)>> {
    const ALL: [&str; 13] = ["base", "cond", "calc", "repr", "expr", "consts", "xform", "lens", "foreign", "args", "tagged", "combo", "real"];
    let all = |m: &'static str| ALL.iter().map(|f| (*f, m)).collect::<Vec<_>>();
    let and = |m: &'static str, more: &[(&'static str, &'static str)]| { let mut v = all(m); v.extend(more); v };
    Some(match id {
        "C01" => and("round", &[("large", "large")]),
        "C02" => all("wire"),
        "C03" => all("bytes"),
        "C04" => and("trunc", &[("large", "large")]),
        "C05" => and("frag", &[("large", "large"), ("gz", "frag")]),
        "C06" => and("short", &[("large", "large")]),
        "C07" => and("async", &[("large", "largeasync")]),
        "C26" => all("bad"),
        "C27" => vec![("scope", if tier == "thorough" { "round+wire+bad+bytes+frag+short" } else { "round+wire+bad" })],
        "C08" => vec![("cond", "round+wire+bad+bytes"), ("combo:cond", "round+wire+bad"), ("at-cond", "round+wire+bad")],
        "C09" => vec![("calc", "round+wire+bad+bytes"), ("combo:calc", "round+wire+bad"), ("at-calc", "round+wire+bad")],
        "C10" => vec![("repr", "round+wire+bad+bytes+reprs+probe"), ("combo:repr", "round+wire+bad"), ("large:repr", "large")],
        "C11" => vec![("expr", "round+wire+bad+bytes")],
        "C12" => vec![("consts", "round+wire+bad+bytes+probe")],
        "C13" => vec![("xform", "round+wire+bad+bytes+frag+short"), ("combo:xform", "round+wire+bad"), ("at-xform", "round+wire+bad"), ("gz", "round+wire+frag+bytes+large")],
        "C14" => vec![("lens", "round+wire+bad+bytes+frag"), ("combo:lens", "round+wire+bad"), ("at-lens", "round+wire+bad"), ("large", "large")],
        "C15" => vec![("foreign", "round+wire+bad+bytes+frag"), ("combo:foreign", "round+wire+bad"), ("large:foreign", "large")],
        "C16" => vec![("args", "round+wire+bad+bytes"), ("combo:args", "round+wire+bad"), ("at-args", "round+wire+bad")],
        "C17" => vec![("tagged", "round+wire+bad+bytes"), ("combo:tagged", "round+wire+bad"), ("at-tagged", "round+wire+bad"), ("large:tagged", "large")],
        _ => return None,
    })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (id, tier) = (a[1].as_str(), a[2].as_str());
    fe::hook();
    if id == "c20shard" { front::total::shard(&a[2..]) }
    if id == "c25shard" { front::emit::shard(&a[2..]) }
    if id == "c25one" { front::emit::one(&a[2..]) }
    if id == "c24shard" { front::det::shard(&a[2..]) }
    if id == "one" {
        let text = std::fs::read_to_string(tier).unwrap();
        let f = std::thread::Builder::new().stack_size(a[3].parse::<usize>().unwrap() << 20).spawn(move || front::total::front_both(&text, &fe::Res::default())).unwrap().join().unwrap();
        let d = format!("{:?}", f); println!("{}", d.chars().take(100).collect::<String>()); return;
    }
    if id == "try" { return fe::try_file(tier); }
    if id == "print" {
        // what the code under test makes of every specification, one line per family and options: for the mutation sweep
        let opts = [fe::PLAIN, fe::Opt { is_async: true, ..fe::PLAIN }, fe::Opt { anyhow: true, debug: true, derives: 3, ..fe::PLAIN }];
        std::thread::scope(|s| {
            let hs: Vec<_> = rt::fam::ALL.iter().flat_map(|f| (0..opts.len()).map(move |o| (f, o))).map(|(f, o)| s.spawn(move || {
                let specs = rt::fam::specs(f, rt::run::Tier::Quick);
                let r: Vec<(usize, String)> = fe::big(|| specs.iter().map(|s| match fe::front(&s.text(), &fe::Res::default(), opts[o]) { fe::Fe::Code(c) => (0, c), fe::Fe::Parse(e) => (1, e), fe::Fe::Reject(e) => (2, e), fe::Fe::Panic(a, b) => (3, format!("{} {}", a, b)) }).collect());
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                r.hash(&mut h);
                format!("{} {} {} {:016x}", f, o, r.iter().filter(|x| x.0 != 0).count(), h.finish())
            })).collect();
            for h in hs { println!("{}", h.join().unwrap()); }
        });
        return;
    }
    if id == "family" {
        // one family under given engines, for trying things out: drv family quick NAME MODES
        let mut rep = report::Report::new(id, tier);
        codec::check(&mut rep, &a[3], &a[4], fe::Opt { is_async: a[4].contains("async"), ..fe::PLAIN });
        rep.finish()
    }
    watch::guard(id, tier);
    let mut rep = report::Report::new(id, tier);
    match plan(id, tier) {
        None if id == "C18" => front::tok::check(&mut rep),
        None if id == "C19" => front::syn::check(&mut rep),
        None if id == "C20" => front::total::check(&mut rep),
        None if id == "C21" => front::statics::check(&mut rep),
        None if id == "C22" => front::imports::check(&mut rep),
        None if id == "C23" => front::rustc::check(&mut rep),
        None if id == "C25" => front::emit::check(&mut rep),
        None if id == "C28" => front::pos::check(&mut rep),
        None if id == "C24" => {
            front::det::check(&mut rep);
            // the other options change nothing on the wire
            let opt = fe::Opt { anyhow: true, debug: true, derives: 3, ..fe::PLAIN };
            for f in ["base", "tagged"] { codec::check(&mut rep, f, "round+wire+bad+bytes", opt) }
        }
        Some(p) => { if id == "C12" { front::constants::check(&mut rep) } for (f, m) in &p { codec::check(&mut rep, f, m, fe::Opt { is_async: id == "C07", ..fe::PLAIN }) } }
        None => codec::die(&format!("no check {}", id)),
    }
    rep.finish()
}
