//! Compile probes: single lines of code that must or must not be accepted by rustc.
use super::*;
use serde_json::json;

#[derive(Clone, Debug)]
pub struct Probe {
    pub code: String,
    /// must it compile?
    pub ok: bool,
    pub what: String,
}
#[derive(Clone, Debug)]
pub enum Seg {
    Code(String),
    Probe(Probe),
}
/// One configuration with its probes.
#[derive(Clone, Debug)]
pub struct Group {
    pub input: String,
    pub segs: Vec<Seg>,
}
pub fn probe(code: String, ok: bool, what: String) -> Seg {
    Seg::Probe(Probe { code, ok, what })
}
const CODES: [&str; 14] = [
    "E0599", "E0624", "E0616", "E0609", "E0603", "E0433", "E0412", "E0425", "E0432", "E0451", "E0277", "E0446", "E0423", "",
];

/// Compiles all groups (in chunks) and compares every probe's fate with its expectation.
pub fn run_probes(cx: &Ctx, name: &str, groups: &[Group], head: &str, per: usize, mkrc: &(dyn Fn(usize) -> Rustc + Sync), rep: &mut Report) {
    let t0 = cx.elapsed();
    let chunks: Vec<&[Group]> = groups.chunks(per.max(1)).collect();
    let hl = head.lines().count();
    let outs = par(cx.jobs, &chunks, |ci, ch| {
        let mut r = Report::default();
        let gs: Vec<&Group> = ch.iter().collect();
        // lines after the head map one to one to `map`
        let mut o = String::from(head);
        let mut map: Vec<(usize, Option<usize>)> = vec![];
        for (gi, g) in gs.iter().enumerate() {
            for (si, s) in g.segs.iter().enumerate() {
                match s {
                    Seg::Code(c) => {
                        for l in c.lines() {
                            o.push_str(l);
                            o.push('\n');
                            map.push((gi, None));
                        }
                    }
                    Seg::Probe(p) => {
                        o.push_str(&p.code.replace('\n', " "));
                        o.push('\n');
                        map.push((gi, Some(si)));
                    }
                }
            }
        }
        let stem = format!("pr_{}_{}", name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), ci);
        let src = cx.work.join(format!("{}.rs", stem));
        if std::fs::write(&src, &o).is_err() {
            fail("cannot write a program");
        }
        let rc = mkrc(ci);
        let co = cx.compile(&rc, &src, &cx.work.join(format!("{}.rmeta", stem)));
        if co.timeout {
            fail("rustc ran out of time");
        }
        let mut failed: std::collections::HashMap<(usize, usize), String> = Default::default();
        let mut broken: Vec<(usize, String)> = vec![];
        for d in co.diags.iter().filter(|d| d.level.starts_with("error")) {
            if d.msg.starts_with("aborting") {
                continue;
            }
            // the pass that refuses values of inaccessible types only runs if there are no other errors
            if d.code.is_empty() && d.msg.starts_with("type `") && d.msg.ends_with("is private") {
                continue;
            }
            let mut hit = false;
            for l in &d.lines {
                if *l > hl && *l - hl <= map.len() {
                    hit = true;
                    match map[*l - hl - 1] {
                        (g, Some(s)) => {
                            failed.insert((g, s), format!("{} {}", d.code, d.msg));
                            if !CODES.contains(&d.code.as_str()) {
                                broken.push((g, format!("unexpected kind of error: {} {}", d.code, d.msg)));
                            }
                        }
                        (g, None) => broken.push((g, format!("{} {}", d.code, d.msg))),
                    }
                    break;
                }
            }
            if !hit {
                fail(&format!("rustc failed outside the probes: {}", d.rendered));
            }
        }
        for (gi, g) in gs.iter().enumerate() {
            let mut bad = broken.iter().find(|b| b.0 == gi).map(|b| format!("the code around the probes does not compile: {}", b.1));
            for (si, s) in g.segs.iter().enumerate() {
                if let Seg::Probe(p) = s {
                    r.probes += 1;
                    let f = failed.get(&(gi, si));
                    if bad.is_none() && f.is_none() != p.ok {
                        bad = Some(match f {
                            Some(e) => format!("{}: should be accepted, but: {}", p.what, e),
                            None => format!("{}: should be refused, but compiles", p.what),
                        });
                    }
                }
            }
            if let Some(b) = bad {
                let own: String = o
                    .lines()
                    .enumerate()
                    .filter(|(i, _)| *i < hl || map[*i - hl].0 == gi)
                    .map(|(_, l)| format!("{}\n", l))
                    .collect();
                r.violate(b.clone(), g.input.clone(), format!("// kind: run\n// {}\n{}", b.replace('\n', " "), own));
            }
        }
        if ci == 0 {
            if let Some(g) = gs.last() {
                let p: Vec<String> = g.segs.iter().filter_map(|s| if let Seg::Probe(p) = s { Some(format!("{} => {}", p.code, if p.ok { "accepted" } else { "refused" })) } else { None }).take(8).collect();
                r.sample(json!({"struct": g.input, "probes": p}));
            }
        }
        let _ = std::fs::remove_file(&src);
        r
    });
    let mut n = 0;
    for r in outs {
        n += r.probes;
        rep.probes += r.probes;
        rep.transitions += r.probes;
        rep.traces += r.probes;
        for s in r.samples {
            rep.sample(s);
        }
        rep.viol.extend(r.viol);
    }
    rep.states += groups.len() as u64;
    rep.spaces.push(json!({"space": name, "programs": groups.len(), "probes": n}));
    eprintln!("  {}: {} probes, {:.1}s", name, n, cx.elapsed() - t0);
}
