//! The command line.
use crate::core::*;
use std::path::PathBuf;
use std::time::{Duration, Instant};

/// Runs what the command line asks for; returns the exit code. `property` knows
/// the properties of this binary, `variant` names how the code was built.
pub fn run(args: &[String], property: fn(&str) -> Option<Property>, variant: &str) -> i32 {
    install_hook();
    let mut id = None;
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut replay = None;
    let mut root = PathBuf::from(".");
    let mut scale = 1.0;
    let mut only = None;
    let mut limit = None;
    let mut evidence = true;
    let mut evidence_dir = None;
    let mut merge: Vec<PathBuf> = Vec::new();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().cloned().unwrap_or_default();
        match a.as_str() {
            "--quick" => thorough = false,
            "--thorough" => thorough = true,
            "--seed" => seed = val().parse().expect("seed"),
            "--replay" => replay = Some(val()),
            "--root" => root = val().into(),
            "--scale" => scale = val().parse().expect("scale"),
            "--only" => only = Some(val()),
            "--limit" => limit = Some(val().parse::<u64>().expect("limit")),
            "--no-evidence" => evidence = false,
            "--evidence-dir" => evidence_dir = Some(PathBuf::from(val())),
            // evidence of other runs for the same property, to be added
            "--merge" => merge.push(PathBuf::from(val())),
            x => id = Some(x.to_string()),
        }
    }
    if let Some(path) = replay {
        let text = std::fs::read_to_string(&path).expect("replay file");
        let r: Replay = serde_json::from_str(&text).expect("replay file");
        if r.variant != format!("{} {}", variant, profile()) {
            eprintln!("note: this replay was recorded with the build {:?}", r.variant);
        }
        let p = property(&r.property).expect("property");
        let sub = p.subs.iter().find(|s| s.name() == r.sub).expect("sub-check");
        if r.case.get("summed_over_run").is_some() {
            println!("this failure sums over a run: repeat the check with --seed {}", r.entropy_seed);
            return 2;
        }
        return match sub.replay(r.entropy_seed, &r.case) {
            Ok(Ok(())) => {
                println!("the case passes");
                0
            }
            Ok(Err(m)) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", r.property, path);
                1
            }
            Err(m) => {
                println!("{}", m);
                2
            }
        };
    }
    let id = id.expect("usage: chalamet-verif PROPERTY [--quick|--thorough]");
    let p = match property(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let limit = limit.unwrap_or(if thorough { 3600 } else { 300 });
    let cfg = Cfg {
        prop: id,
        thorough,
        seed,
        deadline: Instant::now() + Duration::from_secs(limit),
        scale,
        only,
        variant: variant.into(),
        merge,
        journal: std::env::var_os("CHALAMET_VERIF_JOURNAL").map(PathBuf::from),
    };
    let dir = evidence.then(|| evidence_dir.unwrap_or_else(|| root.join("evidence")));
    run_property(&p, &cfg, &root, dir)
}
