mod files;
mod gen;
mod props_cli;
mod props_lib;
mod refdec;
mod refenc;
mod run;
mod serial;

use run::*;
use std::collections::BTreeMap;
use std::time::Instant;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn registry() -> Vec<(&'static str, Vec<Box<dyn Facet>>)> {
    let mut r = props_lib::registry();
    r.extend(props_cli::registry());
    r
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    match args.get(1).map(|s| s.as_str()) {
        Some("serve") => serial::serve(),
        Some("list") => {
            for (id, f) in registry() {
                println!("{id} {}", f.iter().map(|f| f.name()).collect::<Vec<_>>().join(" "));
            }
        }
        Some("replay") => replay(&args),
        Some("check") => check(&args),
        _ => {
            eprintln!("usage: vh check ID --tier quick|thorough --seed N --evidence FILE --replays DIR [--facet NAME] | vh replay FILE | vh list");
            std::process::exit(2);
        }
    }
}

fn replay(args: &[String]) {
    let f = std::fs::read_to_string(&args[2]).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&f).expect("replay file is JSON");
    let (p, fa) = (v["property"].as_str().unwrap(), v["facet"].as_str().unwrap());
    for (id, facets) in registry() {
        for x in facets {
            if id == p && x.name() == fa {
                let r = x.replay(&v["case"]);
                props_cli::cleanup();
                match r {
                    Ok(_) => {
                        println!("OK property={p} facet={fa}: holds on this case");
                        return;
                    }
                    Err(m) => {
                        println!("FAILS property={p} facet={fa}: {m}");
                        std::process::exit(1);
                    }
                }
            }
        }
    }
    eprintln!("unknown property or facet");
    std::process::exit(2);
}

fn check(args: &[String]) {
    let id = args[2].clone();
    let tier = match arg(args, "--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let limit: u64 = arg(args, "--limit").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 800 } else { 36000 });
    let scale: f64 = arg(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = arg(args, "--facet");
    let t0 = Instant::now();
    // a time budget hit is inconclusive, never a violation
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("ERROR: time limit of {limit} s reached, inconclusive");
        props_cli::cleanup();
        std::process::exit(3);
    });
    let Some((prop, facets)) = registry().into_iter().find(|(p, _)| *p == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let ctx = Ctx { prop, seed, tier, threads, scale };
    {
        // a case that does not end is a violation; see `stuck` for what "does not end" means
        let (evidence, replays) = (arg(args, "--evidence"), arg(args, "--replays"));
        let (cpu, wall) = if tier == Tier::Quick { (90.0, 400.0) } else { (900.0, 3600.0) };
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let Some(f) = run::stuck(prop, cpu, wall) else { continue };
            props_cli::cleanup();
            if let Some(p) = &evidence {
                let ev = serde_json::json!({
                    "property": prop, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
                    "coverage": { "evaluations": 1, "distinct_nontrivial": 1, "rule": "stopped at a case that does not end",
                        "samples": [{ "facet": f.facet, "case": f.case }], "facets": {} },
                    "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
                });
                std::fs::write(p, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");
            }
            violation(prop, &f, replays.clone());
        });
    }
    let mut reports = vec![];
    let mut failures: Vec<Failure> = vec![];

    // saved regression cases first
    let mut regress = 0u64;
    if let Some(dir) = arg(args, "--regress") {
        let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for p in files {
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            let Ok(v) = serde_json::from_str::<serde_json::Value>(&s) else {
                eprintln!("ERROR: {} is not JSON", p.display());
                std::process::exit(3)
            };
            if v["property"] != *prop {
                continue;
            }
            for f in &facets {
                if v["facet"] == f.name() {
                    regress += 1;
                    if let Err(message) = f.replay(&v["case"]) {
                        failures.push(Failure { property: prop.into(), facet: f.name().into(), message, case: v["case"].clone() });
                    }
                }
            }
        }
    }
    for f in &facets {
        if only.as_ref().is_some_and(|o| o != f.name()) {
            continue;
        }
        let t = Instant::now();
        let r = f.run(&ctx);
        eprintln!(
            "{prop}/{}: {} cases, {} non-trivial ({} distinct), {:.1} s{}",
            f.name(), r.evaluations, r.nontrivial, r.distinct.len(), t.elapsed().as_secs_f64(),
            r.metric_max.map_or(String::new(), |m| format!(", metric max {m:.3e}"))
        );
        for (k, v) in &r.classes {
            eprintln!("    {k}: {v}");
        }
        if let Some(f) = &r.failure {
            failures.push(f.clone());
        }
        reports.push(r);
        if !failures.is_empty() {
            break;
        }
    }

    let evals: u64 = reports.iter().map(|r| r.evaluations).sum::<u64>() + regress;
    let distinct: u64 = reports.iter().map(|r| r.distinct.len() as u64).sum();
    let rule = reports.iter().map(|r| format!("[{}] {}", r.facet, r.rule)).collect::<Vec<_>>().join(" ")
        + " (different cases are counted up to 6000000 per stream or thread)";
    let mut samples: Vec<serde_json::Value> = vec![];
    for r in &reports {
        for s in r.samples.iter().take(2) {
            samples.push(serde_json::json!({ "facet": r.facet, "case": s }));
        }
    }
    let per: BTreeMap<&str, serde_json::Value> = reports
        .iter()
        .map(|r| {
            (r.facet, serde_json::json!({
                "evaluations": r.evaluations, "nontrivial": r.nontrivial, "distinct_nontrivial": r.distinct.len(),
                "classes": r.classes, "metric_max": r.metric_max, "enumerated": r.exhaustive,
            }))
        })
        .collect();
    props_cli::cleanup();
    let ev = serde_json::json!({
        "property": prop, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": rule, "samples": samples,
            "facets": per, "regression_cases": regress,
            "build": if cfg!(feature = "par") { "parallel" } else { "serial" },
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    if let Some(p) = arg(args, "--evidence") {
        std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");
    }
    if let Some(f) = failures.first() {
        violation(prop, f, arg(args, "--replays"));
    }
}

fn violation(prop: &str, f: &Failure, replays: Option<String>) -> ! {
    let dir = replays.unwrap_or_else(|| ".".into());
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{dir}/{}-{}.json", prop, f.facet);
    std::fs::write(&path, serde_json::to_string_pretty(f).unwrap()).unwrap();
    eprintln!("{}: {}", f.facet, f.message);
    println!("VIOLATION property={prop} replay={path}");
    std::process::exit(1);
}

