mod commands;
mod attrs;
mod entities;
mod hints;
mod selectors;
mod core;
mod diag;
mod lsp;
mod server;
mod translate;
mod version;

/// `ivh probe v4|v5 < file.rs`: what the analysis says about a file (for working on findings by hand)
fn probe(v: &str) {
    use ink_analyzer::{Analysis, Version};
    let mut code = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut code).unwrap();
    let an = Analysis::new(&code, if v == "v4" { Version::V4 } else { Version::V5 });
    for d in an.diagnostics() {
        println!("{:?} {:?} {:?}", d.severity, &code[d.range], d.message);
        for q in d.quickfixes.iter().flatten() {
            println!("    fix: {} {:?}", q.label, q.edits.iter().map(|e| (e.range, e.text.clone())).collect::<Vec<_>>());
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "probe") {
        return probe(a.get(2).map_or("v5", |x| x));
    }
    let pid = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = a.get(3).map_or(false, |s| s == "thorough");
    if std::env::var("IVH_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // deep recursion in parsers: run on a big stack
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut run = core::Run::new(seed, thorough);
        match pid.as_str() {
            "P01" => server::p01(&mut run),
            "P02" => server::p02(&mut run),
            "P03" => server::p03(&mut run),
            "P04" => translate::p04(&mut run),
            "P05" => translate::p05(&mut run),
            "P06" => translate::p06(&mut run),
            "P07" => commands::p07(&mut run),
            "P08" => version::p08(&mut run),
            "P09" => attrs::p09(&mut run),
            "P10" => selectors::p10(&mut run),
            "P11" => entities::p11(&mut run),
            "P12" => diag::p12(&mut run),
            "P13" => diag::p13(&mut run),
            "P14" => diag::p14(&mut run),
            "P15" => diag::p15(&mut run),
            "P16" => diag::p16(&mut run),
            "P17" => diag::p17(&mut run),
            "P18" => hints::p18(&mut run),
            _ => run.rule = "no bounded part".into(),
        }
        run.report();
    });
    t.unwrap().join().unwrap();
}
