mod cfg;
mod emit;
mod engine;
mod frag;
mod host;
mod props;

use engine::*;
use host::*;
use serde_json::json;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: mc <property> <quick|thorough>   or   mc replay <file>");
        std::process::exit(2);
    }
    if a[1] == "expand-one" {
        use std::io::Read;
        let mut t = String::new();
        let _ = std::io::stdin().read_to_string(&mut t);
        std::panic::set_hook(Box::new(|_| {}));
        print!("{:?}", expand(&t));
        return;
    }
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let target = PathBuf::from(std::env::var("MC_TARGET").unwrap_or_else(|_| verif.join("build/target").display().to_string()));
    let prop = a[1].clone();
    let work = verif.join("build/run").join(&prop);
    let _ = std::fs::remove_dir_all(&work);
    if std::fs::create_dir_all(&work).is_err() {
        fail("cannot create the work directory");
    }
    let externs = artifacts(&verif.join("build/artifacts.json"));
    let cx = Ctx {
        prop: prop.clone(),
        thorough: a[2] == "thorough",
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        work,
        jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8),
        start: std::time::Instant::now(),
        rustc: std::env::var("MC_RUSTC").unwrap_or("rustc".into()),
        externs,
        depdir: target.join("debug/deps").display().to_string(),
        verif,
    };
    std::panic::set_hook(Box::new(|i| {
        // panics of the macro are caught and judged; anything else is an error of the check
        if std::env::var("MC_TRACE").is_ok() {
            eprintln!("{}", i);
        }
    }));
    if prop == "replay" {
        props::replay(&cx, &a[2]);
        return;
    }
    let mut rep = Report::default();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&cx, &mut rep)));
    if let Err(p) = r {
        fail(&format!(
            "internal: {}",
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        ));
    }
    finish(&cx, rep);
}

/// Known findings: lines `known: property=<id> key=<hash> <what>` of known-findings.txt.
fn known(cx: &Ctx) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(cx.verif.join("known-findings.txt")).unwrap_or_default();
    let pre = format!("known: property={} key=", cx.prop);
    t.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.split_once(' '))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}

fn finish(cx: &Ctx, mut rep: Report) {
    let kn = known(cx);
    let mut shown: Vec<String> = vec![];
    let mut news = vec![];
    for v in std::mem::take(&mut rep.viol) {
        let key = format!("{:016x}", h64(7, &v.input));
        if let Some((k, w)) = kn.iter().find(|(k, _)| *k == key) {
            if !shown.contains(k) {
                println!("KNOWN-FINDING: property={} {}", cx.prop, w);
                shown.push(k.clone());
            }
        } else {
            news.push((key, v));
        }
    }
    let mut cov = serde_json::Map::new();
    cov.insert("states".into(), json!(rep.states));
    cov.insert("transitions".into(), json!(rep.transitions));
    cov.insert("traces_validated_against_impl".into(), json!(rep.traces));
    if rep.samples.is_empty() {
        rep.samples.push(json!("none"));
    }
    cov.insert("samples".into(), json!(rep.samples));
    cov.insert("exhaustive".into(), json!(rep.caps.is_empty()));
    for (k, v) in [
        ("option_space_points", rep.points),
        ("configurations_expanded", rep.expansions),
        ("distinct_programs", rep.distinct),
        ("programs_compiled_and_explored", rep.compiled),
        ("builds_compared_with_model", rep.builds),
        ("distinct_build_outcomes", rep.outcomes),
        ("compile_probes", rep.probes),
    ] {
        if v > 0 {
            cov.insert(k.into(), json!(v));
        }
    }
    if rep.max_depth > 0 {
        cov.insert("operation_depth".into(), json!({"min": rep.min_depth, "max": rep.max_depth}));
    }
    if !rep.caps.is_empty() {
        cov.insert("caps".into(), json!(rep.caps));
    }
    if !rep.spaces.is_empty() {
        cov.insert("spaces".into(), json!(rep.spaces));
    }
    for (k, v) in &rep.extra {
        cov.insert(k.clone(), v.clone());
    }
    let ev = json!({
        "property": cx.prop,
        "tier": if cx.thorough { "thorough" } else { "quick" },
        "seed": cx.seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": [
            "in-process expansion with proc-macro2's own token type equals expansion inside rustc (every distinct expansion is compiled by rustc through the real derive)",
            "two structs whose expansions and models are textually identical behave identically"
        ],
        "wall_s": (cx.elapsed() * 10.0).round() / 10.0,
        "violations": news.len(),
    });
    let evd = cx.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if std::fs::write(evd.join(format!("{}.json", cx.prop)), serde_json::to_string_pretty(&ev).unwrap() + "\n").is_err() {
        fail("cannot write the evidence file");
    }
    let rd = cx.verif.join("replay");
    let _ = std::fs::create_dir_all(&rd);
    for f in std::fs::read_dir(&rd).into_iter().flatten().flatten() {
        if f.file_name().to_string_lossy().starts_with(&format!("{}-", cx.prop)) {
            let _ = std::fs::remove_file(f.path());
        }
    }
    let _ = std::fs::remove_dir_all(&cx.work);
    println!(
        "{}: {} configurations, {} distinct programs, {} probes, {} states, {} transitions, {} traces, {:.1} s",
        cx.prop, rep.expansions, rep.distinct, rep.probes, rep.states, rep.transitions, rep.traces, cx.elapsed()
    );
    if !rep.caps.is_empty() {
        println!("caps: {}", rep.caps.join("; "));
    }
    if news.is_empty() {
        return;
    }
    for (i, (key, v)) in news.iter().enumerate().take(5) {
        let p = rd.join(format!("{}-{}.rs", cx.prop, i + 1));
        let _ = std::fs::write(&p, format!("// {} {}\n{}", cx.prop, key, v.replay));
        println!("--- {}\n{}", v.what, v.input);
        println!("VIOLATION property={} replay={}", cx.prop, p.display());
    }
    println!("{} violation(s) in all", news.len());
    std::process::exit(1);
}
