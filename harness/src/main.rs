mod core;
mod genr;
mod genv;
mod props;
mod refv;

use crate::core::*;

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("--config-worker") {
        props::config::worker();
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known: Vec<Known> = std::env::var("VERIF_KNOWN")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().filter(|l| l.starts_with('{')).map(|l| serde_json::from_str(l).expect("known findings")).collect())
        .unwrap_or_default();
    let (prop, tier, replay) = match a.get(1).map(String::as_str) {
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay json");
            (v["property"].as_str().unwrap().to_string(), Tier::Quick, Some((v["sub"].as_str().unwrap().to_string(), v["input"].clone())))
        }
        Some(p) => (p.to_string(), if a.get(2).map(String::as_str) == Some("thorough") { Tier::Thorough } else { Tier::Quick }, None),
        None => {
            eprintln!("usage: vharness <property> quick|thorough | replay <file>");
            std::process::exit(3);
        }
    };
    let Some((_, f)) = props::all().into_iter().find(|(n, _)| *n == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(3);
    };
    let mut c = Ctx::new(&prop, tier, seed, replay, known);
    f(&mut c);
    std::process::exit(c.finish());
}
