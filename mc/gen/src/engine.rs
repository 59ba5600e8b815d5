//! The pipeline: enumerate a space of configurations exhaustively, expand each in process, merge those with identical
//! expansion and identical model, compile and exhaustively explore one representative of each class.
use crate::cfg::*;
use crate::emit;
use crate::frag;
use crate::host::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub fn h64<X: Hash>(seed: u64, x: X) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    seed.hash(&mut s);
    x.hash(&mut s);
    s.finish()
}
pub fn h128(s: &str) -> u128 {
    ((h64(1, s) as u128) << 64) | h64(2, s) as u128
}

/// Mixed-radix digits of an index; the total is the size of the space.
pub struct Dig {
    pub i: u64,
    pub tot: u64,
}
impl Dig {
    pub fn pick<'a, X>(&mut self, l: &'a [X]) -> &'a X {
        let n = l.len() as u64;
        self.tot = self.tot.checked_mul(n).expect("space too large");
        let r = self.i % n;
        self.i /= n;
        &l[r as usize]
    }
    pub fn bool(&mut self) -> bool {
        *self.pick(&[false, true])
    }
    pub fn tri(&mut self) -> Option<bool> {
        *self.pick(&[None, Some(true), Some(false)])
    }
}
pub type Space<'a> = &'a (dyn Fn(&mut Dig) -> Option<Cfg> + Sync);

#[derive(Clone, Debug)]
pub struct Viol {
    pub what: String,
    pub input: String,
    /// contents of the replay file
    pub replay: String,
}

#[derive(Default)]
pub struct Report {
    /// points of the option spaces enumerated
    pub points: u64,
    /// of these, well-formed configurations
    pub configs: u64,
    pub expansions: u64,
    /// classes of (expansion, model)
    pub distinct: u64,
    pub compiled: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub builds: u64,
    pub outcomes: u64,
    pub probes: u64,
    pub warnings: u64,
    pub min_depth: u64,
    pub max_depth: u64,
    pub samples: Vec<Value>,
    pub viol: Vec<Viol>,
    pub caps: Vec<String>,
    pub spaces: Vec<Value>,
    pub extra: serde_json::Map<String, Value>,
}
impl Report {
    pub fn violate(&mut self, what: String, input: String, replay: String) {
        self.viol.push(Viol { what, input, replay });
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 12 {
            self.samples.push(v);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Ok(String),
    /// compile_error! messages
    Rejected(String),
    Panic(String),
    /// not even a derive input
    Syntax(String),
}
pub fn expand(item: &str) -> Exp {
    expand_as(item, frag::K::No)
}
/// The input of the derive, with the fragments of a kind in invisible groups.
pub fn input(item: &str, k: frag::K) -> syn::Result<syn::DeriveInput> {
    match k {
        frag::K::No => syn::parse_str(item),
        k => match frag::pass(item, k) {
            Some(p) => syn::parse2(p.tokens()),
            None => syn::parse_str(item),
        },
    }
}
/// The expansion, without invisible groups.
pub fn expand_as(item: &str, k: frag::K) -> Exp {
    let di = match input(item, k) {
        Ok(d) => d,
        Err(e) => return Exp::Syntax(e.to_string()),
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let ts = derive_builder_core::builder_for_struct(di);
        if k == frag::K::No { ts } else { frag::flat(ts) }.to_string()
    }));
    match r {
        Ok(s) => {
            if s.contains("compile_error") {
                Exp::Rejected(s)
            } else {
                Exp::Ok(s)
            }
        }
        Err(p) => Exp::Panic(
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    }
}

pub struct Opts {
    pub depth: usize,
    pub cap: u64,
    /// warnings of derived code are violations
    pub warn: bool,
    pub edition: &'static str,
    /// stop compiling new classes after this many (reported as a cap)
    pub max_classes: usize,
    pub sp: Spell,
    /// extra text of the module key and head
    pub flags: Vec<String>,
    /// derive_builder of another environment
    pub externs: Option<Vec<(String, String)>>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { depth: 3, cap: 20_000, warn: false, edition: "2018", max_classes: 100_000, sp: PLAIN, flags: vec![], externs: None }
    }
}

struct Class {
    idx: u64,
    cfg: Cfg,
    item: String,
}

/// Enumerates the space; violations for panics and wrongful rejections; returns the classes.
fn classes(cx: &Ctx, name: &str, sp: Space, o: &Opts, rep: &mut Report) -> Vec<Class> {
    let total = {
        let mut d = Dig { i: 0, tot: 1 };
        let _ = sp(&mut d);
        d.tot
    };
    let next = AtomicU64::new(0);
    let cfgs = AtomicU64::new(0);
    let map: Vec<Mutex<HashMap<u128, Class>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
    let bad: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
    const BLOCK: u64 = 64;
    std::thread::scope(|s| {
        for _ in 0..cx.jobs {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let b = next.fetch_add(BLOCK, Ordering::Relaxed);
                    if b >= total {
                        break;
                    }
                    for i in b..(b + BLOCK).min(total) {
                        let mut d = Dig { i, tot: 1 };
                        let c = match sp(&mut d) {
                            Some(c) if c.usable() => c,
                            _ => continue,
                        };
                        cfgs.fetch_add(1, Ordering::Relaxed);
                        let item = c.render(o.sp);
                        match expand(&item) {
                            Exp::Ok(t) => {
                                let tail = emit::module(0, &c, "").src;
                                let key = h128(&format!("{}\0{}", t, tail));
                                let mut m = map[(key % 64) as usize].lock().unwrap();
                                match m.get(&key) {
                                    Some(c0) if c0.idx <= i => {}
                                    _ => {
                                        m.insert(key, Class { idx: i, cfg: c, item });
                                    }
                                }
                            }
                            Exp::Rejected(t) => bad.lock().unwrap().push((i, format!("a valid struct is rejected: {}", t), item)),
                            Exp::Panic(p) => bad.lock().unwrap().push((i, format!("the macro panics: {}", p), item)),
                            Exp::Syntax(e) => fail(&format!("generated source does not parse: {}\n{}", e, item)),
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut v: Vec<Class> = map.into_iter().flat_map(|m| m.into_inner().unwrap().into_values()).collect();
    v.sort_by_key(|c| c.idx);
    let mut bad = bad.into_inner().unwrap();
    bad.sort();
    for (_, what, item) in bad.iter().take(5) {
        rep.violate(what.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", what.replace('\n', " "), item));
    }
    let n = cfgs.load(Ordering::Relaxed);
    rep.points += total;
    rep.configs += n;
    rep.expansions += n;
    rep.distinct += v.len() as u64;
    rep.spaces.push(json!({"space": name, "points": total, "configurations": n, "distinct_programs": v.len()}));
    v
}

/// Exhausts a space: expansion of every configuration, exploration of every distinct class.
pub fn explore_space(cx: &Ctx, name: &str, sp: Space, o: &Opts, rep: &mut Report) {
    let t0 = cx.elapsed();
    let mut cl = classes(cx, name, sp, o, rep);
    if cl.len() > o.max_classes {
        rep.caps.push(format!("{}: {} of {} distinct programs compiled", name, o.max_classes, cl.len()));
        cl.truncate(o.max_classes);
    }
    let mods: Vec<(u32, Cfg, String, emit::Module)> = cl
        .into_iter()
        .enumerate()
        .map(|(i, c)| {
            let m = emit::module(i as u32, &c.cfg, &c.item);
            (i as u32, c.cfg, c.item, m)
        })
        .collect();
    explore_modules(cx, name, &mods, o, rep);
    eprintln!("  {}: {:.1}s", name, cx.elapsed() - t0);
}

pub fn explore_modules(cx: &Ctx, name: &str, mods: &[(u32, Cfg, String, emit::Module)], o: &Opts, rep: &mut Report) {
    if mods.is_empty() {
        return;
    }
    let per = (mods.len() / cx.jobs + 1).clamp(1, 100);
    let chunks: Vec<&[(u32, Cfg, String, emit::Module)]> = mods.chunks(per).collect();
    let outs = par(cx.jobs, &chunks, |ci, ch| run_chunk(cx, name, ci, ch, o));
    for r in outs {
        rep.compiled += r.compiled;
        rep.states += r.states;
        rep.transitions += r.transitions;
        rep.traces += r.traces;
        rep.builds += r.builds;
        rep.outcomes += r.outcomes;
        rep.warnings += r.warnings;
        if r.min_depth > 0 && (rep.min_depth == 0 || r.min_depth < rep.min_depth) {
            rep.min_depth = r.min_depth;
        }
        rep.max_depth = rep.max_depth.max(r.max_depth);
        for s in r.samples {
            rep.sample(s);
        }
        rep.viol.extend(r.viol);
    }
}

fn single(id: u32, m: &emit::Module) -> String {
    emit::program(&[(id, m)]).0
}

fn run_chunk(cx: &Ctx, name: &str, ci: usize, ch: &[(u32, Cfg, String, emit::Module)], o: &Opts) -> Report {
    let mut rep = Report::default();
    let mut live: Vec<usize> = (0..ch.len()).collect();
    let stem = format!("{}_{}", name.replace(|c: char| !c.is_alphanumeric(), "_"), ci);
    let src = cx.work.join(format!("{}.rs", stem));
    let exe = cx.work.join(format!("{}.exe", stem));
    let mut rc = cx.rustc_default(Kind::Bin);
    rc.edition = o.edition;
    rc.flags = o.flags.clone();
    if let Some(e) = &o.externs {
        rc.externs = e.clone();
    }
    let replay = |i: usize, what: &str| {
        let (id, _, _, m) = &ch[i];
        format!("// kind: run\n// {}\n{}", what.replace('\n', " "), single(*id, m))
    };
    for round in 0.. {
        if live.is_empty() {
            return rep;
        }
        let list: Vec<(u32, &emit::Module)> = live.iter().map(|i| (ch[*i].0, &ch[*i].3)).collect();
        let (text, map) = emit::program(&list);
        if std::fs::write(&src, &text).is_err() {
            fail("cannot write a program");
        }
        let co = cx.compile(&rc, &src, &exe);
        if co.timeout {
            fail("rustc ran out of time");
        }
        let owner = |l: usize| map.iter().position(|(a, b, _)| *a <= l && l <= *b);
        if o.warn && round == 0 {
            for d in co.diags.iter().filter(|d| d.level == "warning") {
                if let Some(k) = owner(d.line) {
                    let i = live[k];
                    if d.line < map[k].0 + ch[i].3.head {
                        rep.warnings += 1;
                        let what = format!("the derived code is not clean: {}", d.msg);
                        rep.violate(what.clone(), ch[i].2.clone(), replay(i, &what));
                    }
                }
            }
        }
        if co.ok {
            break;
        }
        let mut badm: Vec<(usize, String)> = vec![];
        let mut unknown = String::new();
        for d in co.diags.iter().filter(|d| d.level.starts_with("error")) {
            let mut hit = false;
            for l in &d.lines {
                if let Some(k) = owner(*l) {
                    hit = true;
                    if !badm.iter().any(|b| b.0 == live[k]) {
                        badm.push((live[k], format!("{} {}", d.code, d.msg)));
                    }
                }
            }
            if !hit && !d.msg.starts_with("aborting") {
                unknown = d.rendered.clone();
            }
        }
        if badm.is_empty() {
            fail(&format!("rustc failed outside the generated modules: {}{}", unknown, co.stderr.chars().take(2000).collect::<String>()));
        }
        for (i, m) in &badm {
            let what = format!("the documented API does not compile: {}", m);
            rep.violate(what.clone(), ch[*i].2.clone(), replay(*i, &what));
        }
        live.retain(|i| !badm.iter().any(|b| b.0 == *i));
        if round >= 6 {
            return rep;
        }
    }
    let mut c = std::process::Command::new(&exe);
    c.env("MC_DEPTH", o.depth.to_string()).env("MC_CAP", o.cap.to_string());
    let (st, so, se) = run_limited(c, std::time::Duration::from_secs(600));
    let _ = std::fs::remove_file(&exe);
    let mut last = None;
    let byid = |id: &str| live.iter().copied().find(|i| ch[*i].0.to_string() == id);
    let mut ended = false;
    for l in so.lines() {
        let mut p = l.splitn(9, ' ');
        match p.next() {
            Some("B") => last = p.next().map(|s| s.to_string()),
            Some("S") => {
                let f: Vec<&str> = p.collect();
                let n = |i: usize| f[i].parse::<u64>().unwrap_or(0);
                rep.compiled += 1;
                rep.states += n(2);
                rep.transitions += n(3);
                rep.traces += n(4);
                rep.builds += n(5);
                rep.outcomes += n(6);
                if rep.min_depth == 0 || n(1) < rep.min_depth {
                    rep.min_depth = n(1);
                }
                rep.max_depth = rep.max_depth.max(n(1));
                if rep.samples.len() < 1 && ci % 5 == 0 {
                    if let Some(i) = byid(f[0]) {
                        rep.sample(json!({"struct": ch[i].2, "one_of_its_sequences": f.get(7), "sequences": n(4)}));
                    }
                }
                last = None;
            }
            Some("V") => {
                let f: Vec<&str> = l.splitn(3, ' ').collect();
                if let Some(i) = byid(f[1]) {
                    rep.compiled += 1;
                    let what = f[2].to_string();
                    rep.violate(what.clone(), ch[i].2.clone(), replay(i, &what));
                }
                last = None;
            }
            Some("END") => ended = true,
            _ => {}
        }
    }
    if !ended {
        match last.and_then(|l| byid(&l)) {
            Some(i) if st.is_some() => {
                let what = format!("the program crashes: {}", se.chars().take(300).collect::<String>());
                rep.violate(what.clone(), ch[i].2.clone(), replay(i, &what));
            }
            Some(i) => {
                let what = "the program does not terminate".to_string();
                rep.violate(what.clone(), ch[i].2.clone(), replay(i, &what));
            }
            None => fail(&format!("driver ended early: {}", se)),
        }
    }
    let _ = std::fs::remove_file(&src);
    rep
}
