//! vharness <property> [--replay FILE]: decides one property; see /verif/DESIGN.md.
mod bn;
mod btc;
mod cs;
mod fields;
mod gen;
mod props;
mod run;
mod solver;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        for p in props::all() {
            println!("{}", p.id);
        }
        return;
    }
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let replay = args.iter().position(|a| a == "--replay").map(|i| {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).expect("replay file")).expect("replay json");
        (v["check"].as_str().unwrap().to_string(), v["case"].clone())
    });
    // panics inside the code under test are caught per case; keep the log readable
    if std::env::var("VERIF_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let Some(p) = props::all().into_iter().find(|p| p.id == args[1]) else {
        println!("unknown property {}", args[1]);
        std::process::exit(2);
    };
    let ctx = run::Ctx::new(p.id, seed, thorough, replay);
    println!("{} seed={} tier={}", p.id, seed, if thorough { "thorough" } else { "quick" });
    (p.run)(&ctx);
    std::process::exit(ctx.finish(p.rule, p.assumptions, &verif));
}
