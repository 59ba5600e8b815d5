//! C17: every accepted configuration compiles, without warnings and without undocumented items.
use super::names::os;
use super::*;
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// One setting of one option, of the struct or of the first field.
pub struct Set {
    pub opt: &'static str,
    pub go: Box<dyn Fn(&mut Cfg) + Sync + Send>,
}
fn st(opt: &'static str, go: impl Fn(&mut Cfg) + Sync + Send + 'static) -> Set {
    Set { opt, go: Box::new(go) }
}
pub fn base() -> Cfg {
    Cfg::new(StructCfg::new(), vec![FieldCfg::new("a", Ty::c()), FieldCfg::new("b", Ty::v())])
}
pub fn struct_settings() -> Vec<Set> {
    let mut v = vec![];
    for p in [Pat::Own, Pat::Mut, Pat::Imm] {
        v.push(st("pattern", move |c| c.s.pattern = Some(p)));
    }
    for x in [Vis::Public, Vis::Private, Vis::Ex("pub(crate)"), Vis::Ex("pub")] {
        let y = x.clone();
        v.push(st("vis", move |c| c.s.bvis = x.clone()));
        let x = y.clone();
        v.push(st("build_fn.vis", move |c| c.s.b_vis = y.clone()));
        v.push(st("field.vis", move |c| c.s.fvis = x.clone()));
    }
    for n in ["MyB", "r#Fn"] {
        v.push(st("name", move |c| c.s.bname = Some(n.into())));
    }
    for b in [true, false] {
        v.push(st("build_fn.skip", move |c| c.s.b_skip = Some(b)));
        v.push(st("setter.into", move |c| c.s.s_into = Some(b)));
        v.push(st("setter.strip_option", move |c| c.s.s_strip = Some(b)));
        v.push(st("setter.skip", move |c| c.s.s_skip = Some(b)));
        v.push(st("error", move |c| c.s.error = ErrK::Gen(b)));
    }
    for n in ["make", "r#try"] {
        v.push(st("build_fn.name", move |c| c.s.b_name = Some(n.into())));
        v.push(st("create_empty", move |c| c.s.create_empty = Some(format!("{}_e", n))));
    }
    for p in ["vld", "Self::vld"] {
        v.push(st("validate", move |c| {
            c.s.validate = true;
            c.s.vpath = p;
        }));
    }
    v.push(st("error", |c| c.s.error = ErrK::Custom));
    for d in [&["Debug"][..], &["PartialEq", "Debug"], &["Clone"], &["Debug", "Clone", "PartialEq"]] {
        v.push(st("derive", move |c| c.s.derive = d.iter().map(|s| s.to_string()).collect()));
    }
    v.push(st("custom_constructor", |c| c.s.custom_ctor = true));
    v.push(st("setter.prefix", |c| c.s.s_prefix = Some("set".into())));
    v.push(st("setter.prefix", |c| c.s.s_prefix = Some("r#as".into())));
    for d in [SD::Bare, SD::Expr, SD::Chk(1)] {
        v.push(st("default", move |c| c.s.sdef = d.clone()));
    }
    v.push(st("no_std", |c| c.s.no_std = true));
    v.push(st("try_setter", |c| c.s.try_ = true));
    v.push(st("crate", |c| c.s.krate = Some("::derive_builder".into())));
    for x in ["", "pub(crate) "] {
        v.push(st("struct visibility", move |c| c.s.vis = x));
    }
    v.push(st("struct name", |c| c.s.name = "r#Type".into()));
    v.push(st("struct attrs", |c| c.s.attrs.push("#[allow(dead_code)] #[builder_struct_attr(allow(missing_docs))] #[builder_impl_attr(allow(unused))]".into())));
    v.push(st("generics", |c| {
        c.s.gen = Gen { decl: "<X: Clone>".into(), where_: " where X: Send".into(), conc: "<V>".into(), args: String::new() };
        c.f[1].ty = Ty::gen("X", Ty::v());
    }));
    v.push(st("generics", |c| {
        c.s.gen = Gen { decl: "<'x, X: 'x, const M: usize>".into(), where_: "".into(), conc: "<'static, P, 2>".into(), args: String::new() };
        c.f[1].ty = Ty { src: "[&'x X; M]".into(), conc: "[&'static P; 2]".into(), m: mc_rt::T::Ar(&mc_rt::T::Rf(&mc_rt::T::P)), inner: None };
    }));
    v
}
pub fn field_settings(i: usize) -> Vec<Set> {
    let lab = |o: &str| -> &'static str { if i == 0 { leaks(&format!("f.{}", o)) } else { leaks(&format!("g.{}", o)) } };
    let two = |n: &str| -> String { if i == 0 { n.to_string() } else { format!("{}2", n) } };
    let mut v = vec![];
    for p in [Pat::Own, Pat::Mut, Pat::Imm] {
        v.push(st(lab("pattern"), move |c| c.f[i].pattern = Some(p)));
    }
    for x in [Vis::Public, Vis::Private, Vis::Ex("pub(crate)"), Vis::Ex("pub")] {
        let y = x.clone();
        v.push(st(lab("vis"), move |c| c.f[i].vis = x.clone()));
        v.push(st(lab("field.vis"), move |c| c.f[i].fvis = y.clone()));
    }
    v.push(st(lab("setter"), move |c| c.f[i].word = true));
    for p in ["with", "r#in"] {
        v.push(st(lab("prefix"), move |c| c.f[i].prefix = Some(p.into())));
    }
    for p in if i == 0 { ["put", "r#match"] } else { ["put2", "r#while"] } {
        v.push(st(lab("name"), move |c| c.f[i].sname = Some(p.into())));
    }
    for b in [true, false] {
        v.push(st(lab("into"), move |c| c.f[i].into = Some(b)));
        v.push(st(lab("strip"), move |c| c.f[i].strip = Some(b)));
        v.push(st(lab("skip"), move |c| c.f[i].skip = Some(b)));
        v.push(st(lab("custom"), move |c| c.f[i].custom = Some(b)));
    }
    let (add, fun) = (two("add"), if i == 0 { "r#else" } else { "r#loop" });
    let add2 = add.clone();
    v.push(st(lab("each"), move |c| c.f[i].each = Some(Each { name: add.clone(), into: None, long: false })));
    v.push(st(lab("each"), move |c| c.f[i].each = Some(Each { name: fun.into(), into: Some(true), long: true })));
    v.push(st(lab("each"), move |c| c.f[i].each = Some(Each { name: add2.clone(), into: Some(false), long: true })));
    v.push(st(lab("default"), move |c| c.f[i].def = Def::Bare));
    v.push(st(lab("default"), move |c| c.f[i].def = Def::Expr));
    v.push(st(lab("default"), move |c| c.f[i].def = Def::Chk(1 - i)));
    v.push(st(lab("try"), move |c| c.f[i].try_ = true));
    v.push(st(lab("ty"), move |c| c.f[i].fty = Some(Ty::c())));
    v.push(st(lab("ty"), move |c| c.f[i].fty = Some(Ty::o(Ty::c()))));
    v.push(st(lab("build"), move |c| c.f[i].fbuild = Some(Bld::Std)));
    v.push(st(lab("build"), move |c| c.f[i].fbuild = Some(Bld::Chk)));
    for t in [Ty::o(Ty::c()), Ty::v(), Ty::n(), Ty::o(Ty::v()), Ty::o(Ty::o(Ty::v())), Ty::vc(Ty::v()), Ty::k()] {
        v.push(st(lab("type"), move |c| c.f[i].ty = t.clone()));
    }
    for n in ["r#type", "_x", "value", "new", "__default", "item", "converted"] {
        v.push(st(lab("field"), move |c| c.f[i].name = n.into()));
    }
    for x in ["", "pub(crate) "] {
        v.push(st(lab("own vis"), move |c| c.f[i].svis = x));
    }
    v.push(st(lab("attrs"), move |c| c.f[i].attrs.push("#[allow(dead_code)] #[builder_field_attr(allow(unused))] #[builder_setter_attr(must_use = \"x\", )]".replace(", )", ")"))));
    v
}

/// Further settings: spellings of types, shapes of structs.
pub fn more_settings(i: usize) -> Vec<Set> {
    let lab = |o: &str| -> &'static str { if i == 0 { leaks(&format!("f.{}", o)) } else { leaks(&format!("g.{}", o)) } };
    let mut v = vec![];
    let fake = |p: &str, arg: Ty| -> Ty {
        let mut t = Ty::osp(p, arg);
        t.inner = None;
        t
    };
    for p in ["std::option::Option", "::core::option::Option"] {
        v.push(st(lab("type"), move |c| c.f[i].ty = Ty::osp(p, Ty::v())));
        v.push(st(lab("ty"), move |c| c.f[i].fty = Some(Ty::osp(p, Ty::c()))));
    }
    for p in ["opt::Option", "::mc_rt::opt::Option", "opt::std::option::Option", "::mc_rt::opt::core::option::Option", "option::Option", "std::prelude::v1::Option"] {
        let t = fake(p, Ty::v());
        v.push(st(lab("type"), move |c| c.f[i].ty = t.clone()));
        let t = fake(p, Ty::c());
        v.push(st(lab("ty"), move |c| c.f[i].fty = Some(t.clone())));
    }
    for t in [Ty::p(), Ty::bx(Ty::v()), Ty::o(Ty::n()), Ty::o(Ty::vc(Ty::v())), Ty::vc(Ty::o(Ty::v())), Ty::bx(Ty::o(Ty::v())), Ty::raw("OptV", mc_rt::T::O(&mc_rt::T::V))] {
        let mut t = t;
        if t.src == "OptV" {
            t.conc = "Option<V>".into();
        }
        v.push(st(lab("type"), move |c| c.f[i].ty = t.clone()));
    }
    // types that refer to the struct
    let of = |s: &str| Ty { src: s.into(), conc: "V".into(), m: mc_rt::T::V, inner: None };
    for t in [of("Of<Self>"), Ty::o(of("<Self as Own>::A")), Ty::vc(of("Of<Self>"))] {
        v.push(st(lab("type"), move |c| c.f[i].ty = t.clone()));
    }
    for t in [Ty::v(), Ty::k(), Ty::o(Ty::vc(Ty::v())), Ty::bx(Ty::v()), Ty::o(Ty::o(Ty::v())), Ty::n()] {
        v.push(st(lab("ty"), move |c| c.f[i].fty = Some(t.clone())));
    }
    v
}
/// The struct around the two fields: more fields before or after them.  To be applied last.
pub fn shape_settings() -> Vec<Set> {
    let mut v = vec![];
    for n in [1usize, 3] {
        v.push(st("shape", move |c| {
            for k in 0..n {
                c.f.push(FieldCfg::new(&format!("y{}", k), Ty::v()));
            }
        }));
        v.push(st("shape", move |c| {
            let mv = |d: &mut Def| {
                if let Def::Chk(j) = d {
                    *j += n
                }
            };
            for f in &mut c.f {
                mv(&mut f.def);
            }
            if let SD::Chk(j) = &mut c.s.sdef {
                *j += n;
            }
            for k in 0..n {
                c.f.insert(0, FieldCfg { def: Def::Bare, ..FieldCfg::new(&format!("y{}", k), Ty::o(Ty::k())) });
            }
        }));
    }
    for n in 0..2 {
        v.push(st("shape", move |c| {
            if !matches!(c.s.sdef, SD::Chk(_)) && !c.f.iter().any(|f| matches!(f.def, Def::Chk(_))) && c.s.gen.decl.is_empty() {
                c.f.truncate(n);
            }
        }));
    }
    v
}

/// All sets of up to t settings of different options, as indices.
pub fn subsets(all: &[Set], t: usize) -> Vec<Vec<u16>> {
    let mut out: Vec<Vec<u16>> = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..t {
        let mut next = vec![];
        for s in &last {
            let from = s.last().map_or(0, |x| *x as usize + 1);
            for k in from..all.len() {
                if s.iter().all(|j: &u16| all[*j as usize].opt != all[k].opt) {
                    let mut q: Vec<u16> = s.clone();
                    q.push(k as u16);
                    next.push(q);
                }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
pub fn apply(all: &[Set], s: &[u16]) -> Cfg {
    let mut c = base();
    for k in s {
        (all[*k as usize].go)(&mut c);
    }
    c
}

/// A documented struct with what it needs around it.
pub struct Item {
    pub text: String,
    pub support: String,
}
fn item(c: &Cfg) -> Item {
    let mut c = c.clone();
    c.s.attrs.insert(0, "/// Documented.".into());
    for f in &mut c.f {
        f.attrs.insert(0, "/// Documented.".into());
    }
    let g = &c.s.gen;
    let names: String = params(&g.decl);
    let mut support = String::new();
    let b = c.builder();
    // without bounds where Clone is all that the builder asks for
    let (decl, wh) = (strip_defaults(&g.decl), &g.where_);
    if c.s.validate {
        if c.s.vpath == "vld" {
            support.push_str(&format!("fn vld{}(_: &{}{}) -> Result<(), String> {} {{ Ok(()) }}\n", decl, b, names, wh));
        } else {
            support.push_str(&format!("impl{} {}{} {} {{ fn vld(&self) -> Result<(), String> {{ Ok(()) }} }}\n", decl, b, names, wh));
        }
    }
    if c.s.sdef == SD::Bare {
        support.push_str(&format!("impl{} Default for {}{} {} {{ fn default() -> Self {{ loop {{}} }} }}\n", decl, c.s.name, names, wh));
    }
    support.push_str(&crate::emit::own(&c));
    let uses: String = c.s.uses.iter().map(|(t, w)| format!("#[allow(unused_imports)] use mc_rt::{} as {};\n", t, w)).collect();
    Item { text: format!("{}{}", uses, crate::emit::definition(&c, &c.render(inter::spell(&c)))), support }
}
/// `<'x, X: 'x, const M: usize = 2>` -> `<'x, X, M>`
pub fn params(decl: &str) -> String {
    if decl.is_empty() {
        return String::new();
    }
    let l: Vec<String> = decl[1..decl.len() - 1]
        .split(',')
        .map(|p| p.split([':', '=']).next().unwrap().trim().trim_start_matches("const ").to_string())
        .collect();
    format!("<{}>", l.join(", "))
}
pub fn strip_defaults(decl: &str) -> String {
    if decl.is_empty() {
        return String::new();
    }
    let l: Vec<String> = decl[1..decl.len() - 1].split(',').map(|p| p.split('=').next().unwrap().trim().to_string()).collect();
    format!("<{}>", l.join(", "))
}

/// Compiles documented structs as parts of a documented library with all of rustc's default lints and missing_docs.
pub fn lint(cx: &Ctx, name: &str, items: &[(String, Item)], edition: &'static str, rep: &mut Report) {
    let t0 = cx.elapsed();
    let per = (items.len() / cx.jobs + 1).clamp(1, 400);
    let chunks: Vec<&[(String, Item)]> = items.chunks(per).collect();
    let head = "//! Documented.\n#![warn(missing_docs, unused, unused_qualifications = \"allow\")]\n#![allow(nonstandard_style)]\n".replace(", unused_qualifications = \"allow\"", "");
    let outs = par(cx.jobs, &chunks, |ci, ch| {
        let mut r = Report::default();
        let stem = format!("li_{}_{}", name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), ci);
        let src = cx.work.join(format!("{}.rs", stem));
        let mut live: Vec<usize> = (0..ch.len()).collect();
        for round in 0..8 {
            let mut o = head.clone();
            let old = edition == "2015";
            if old {
                o.push_str("extern crate derive_builder; extern crate mc_rt;\n");
            }
            let mut map = vec![];
            for &k in &live {
                let a = o.lines().count() + 1;
                o.push_str(&format!("/// Documented.\npub mod m{} {{\n#[allow(unused_imports)] use mc_rt::*;\n{}", k, ch[k].1.text));
                let b = o.lines().count();
                o.push_str(&format!("#[allow(warnings)] mod s {{ use super::*;\n{} }}\n#[allow(unused_imports)] use s::*;\n", ch[k].1.support.replace("fn vld", "pub fn vld")));
                // private things are used
                o.push_str("}\n");
                let c = o.lines().count();
                map.push((a, b, c, k));
            }
            if old {
                o = o.replace("use s::*;", "use self::s::*;");
            }
            let _ = std::fs::write(&src, &o);
            let mut rc = cx.rustc_default(Kind::Meta);
            rc.edition = edition;
            let co = cx.compile(&rc, &src, &cx.work.join(format!("{}.rmeta", stem)));
            if co.timeout {
                fail("rustc ran out of time");
            }
            let find = |l: usize| map.iter().find(|m| m.0 <= l && l <= m.2);
            let mut dead = vec![];
            for d in &co.diags {
                let err = d.level.starts_with("error");
                if !err && d.level != "warning" || d.msg.starts_with("aborting") {
                    continue;
                }
                let m = match d.lines.iter().find_map(|l| find(*l)) {
                    Some(m) => m,
                    None if err => fail(&format!("rustc failed outside the modules: {}", d.rendered)),
                    None => continue,
                };
                if !err && !d.lines.iter().any(|l| m.0 <= *l && *l <= m.1) {
                    continue;
                }
                if dead.contains(&m.3) || (!err && d.code == "dead_code" && private_only(&d.msg)) {
                    continue;
                }
                dead.push(m.3);
                let what = format!("{} of accepted input: {} {}", d.level, d.code, d.msg);
                let own: String = o.lines().enumerate().filter(|(i, _)| m.0 <= i + 1 && i + 1 <= m.2).map(|(_, l)| format!("{}\n", l)).collect();
                r.warnings += 1;
                r.violate(what.clone(), ch[m.3].1.text.clone(), format!("// kind: run\n// {}\n{}{}\nfn main() {{}}\n", what.replace('\n', " "), head.replace("//! Documented.\n", ""), own));
            }
            // errors may hide warnings: once more without the failing ones
            if co.ok || dead.is_empty() || round == 7 {
                break;
            }
            live.retain(|k| !dead.contains(k));
        }
        if ci == 0 {
            r.sample(json!({"edition": edition, "struct": ch.last().map(|c| c.1.text.clone())}));
        }
        let _ = std::fs::remove_file(&src);
        r
    });
    for r in outs {
        rep.warnings += r.warnings;
        for s in r.samples {
            rep.sample(s);
        }
        rep.viol.extend(r.viol);
    }
    rep.compiled += items.len() as u64;
    rep.traces += items.len() as u64;
    rep.transitions += items.len() as u64;
    rep.spaces.push(json!({"space": name, "edition": edition, "programs_compiled": items.len()}));
    eprintln!("  {}, edition {}: {} programs, {:.1}s", name, edition, items.len(), cx.elapsed() - t0);
}
/// A private struct nobody uses is the user's business.
fn private_only(m: &str) -> bool {
    m.contains("never constructed") || m.contains("never used") || m.contains("never read")
}

/// Not a user error: type parameters have no Default and cannot be observed by the harness's expressions.
pub fn sane(c: &Cfg) -> bool {
    if c.s.derive.iter().any(|d| d == "Clone") && !(0..c.f.len()).all(|i| c.hidden(i) || c.slot_ty(i).is_clone()) {
        return false;
    }
    if !c.s.gen.decl.is_empty() && !c.f.iter().any(|f| f.ty.src.contains('X')) {
        return false;
    }
    c.s.gen.decl.is_empty()
        || !(matches!(c.s.sdef, SD::Expr | SD::Chk(_))
            || c.s.s_skip == Some(true) && c.s.sdef == SD::No
            || c.f.iter().any(|f| matches!(f.def, Def::Chk(_))))
}

/// Expands all of a space (sensible or not): none may panic, all output must parse; returns the distinct sensible ones.
fn totality(cx: &Ctx, name: &str, n: u64, mk: &(dyn Fn(u64) -> Option<Cfg> + Sync), rep: &mut Report) -> Vec<(String, Item)> {
    let t0 = cx.elapsed();
    let next = AtomicU64::new(0);
    let cnt = AtomicU64::new(0);
    let bad: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
    let seen: Vec<Mutex<HashMap<u128, (u64, Cfg)>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
    std::thread::scope(|s| {
        for _ in 0..cx.jobs {
            s.spawn(|| loop {
                let b = next.fetch_add(64, Ordering::Relaxed);
                if b >= n {
                    break;
                }
                for k in b..(b + 64).min(n) {
                    let c = match mk(k) {
                        Some(c) => c,
                        None => continue,
                    };
                    cnt.fetch_add(1, Ordering::Relaxed);
                    let text = c.render(PLAIN);
                    let usable = c.usable() && sane(&c);
                    let what = match expand(&text) {
                        Exp::Ok(t) => {
                            if usable {
                                let h = h128(&t);
                                let mut m = seen[(h % 64) as usize].lock().unwrap();
                                match m.get(&h) {
                                    Some(o) if o.0 <= k => {}
                                    _ => {
                                        m.insert(h, (k, c));
                                    }
                                }
                                continue;
                            }
                            match syn::parse_str::<syn::File>(&t) {
                                Ok(_) => continue,
                                Err(e) => format!("the expansion does not parse: {}", e),
                            }
                        }
                        Exp::Rejected(t) if usable => format!("a valid struct is rejected: {}", t),
                        Exp::Panic(p) => format!("the macro panics: {}", p),
                        _ => continue,
                    };
                    bad.lock().unwrap().push((k, what, text));
                }
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort();
    for (_, what, item) in bad.iter().take(3) {
        rep.violate(what.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", what.replace('\n', " "), item));
    }
    let mut v: Vec<(u64, Cfg)> = seen.into_iter().flat_map(|m| m.into_inner().unwrap().into_values()).collect();
    v.sort_by_key(|x| x.0);
    let c = cnt.load(Ordering::Relaxed);
    rep.points += n;
    rep.configs += c;
    rep.expansions += c;
    rep.states += c;
    rep.distinct += v.len() as u64;
    rep.spaces.push(json!({"space": name, "expansions": c, "distinct_programs": v.len()}));
    eprintln!("  {}: {} expansions, {} distinct, {:.1}s", name, c, v.len(), cx.elapsed() - t0);
    v.into_iter().map(|(_, c)| (c.render(PLAIN), item(&c))).collect()
}

pub fn c17(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    // sets of settings of everything; none may panic; what is sensible compiles cleanly, judged by its pieces
    let all = inter::alphabet();
    rep.extra.insert("settings".into(), json!(all.len()));
    let whole = inter::Norm { vis: false, docs: false };
    let good = |c: &Cfg| c.usable() && sane(c) && inter::opaque(c);
    let reps = |p: &inter::Plan, rep: &mut Report| -> Vec<(String, Item)> {
        inter::representatives(cx, "interactions of settings", &all, p, whole, &good, rep).iter().map(|c| (c.render(PLAIN), item(c))).collect()
    };
    let items = reps(&inter::Plan { rest: true, ..Default::default() }, rep);
    for e in if t { &["2015", "2018", "2021", "2024"][..] } else { &["2018"] } {
        lint(cx, "interactions of up to three settings", &items, e, rep);
    }
    if !t {
        let items = reps(&inter::Plan { size: 2, ..Default::default() }, &mut Report::default());
        lint(cx, "interactions of two settings", &items, "2024", rep);
    }
    // sets of settings of the struct and one field, each whole
    let mut one = struct_settings();
    one.extend(field_settings(0));
    let two = subsets(&one, if t { 3 } else { 2 });
    let items = totality(cx, "all sets of settings of a struct and a field", two.len() as u64, &|k| Some(apply(&one, &two[k as usize])), rep);
    lint(cx, "sets of settings of a struct and a field", &items, "2021", rep);
    if t {
        let four = subsets(&one, 4);
        totality(cx, "all sets of four settings of a struct and a field", four.len() as u64, &|k| Some(apply(&one, &four[k as usize])), rep);
    }
    // the full product of the setter-related options
    let (sp, fp, nm) = (os(&["set"]), os(&["with"]), os(&["put"]));
    let f: &(dyn Fn(&mut Dig) -> Option<Cfg> + Sync) = &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(if t { &PATS } else { &PATS3 }));
        s.s_into = d.tri();
        s.s_strip = *d.pick(&[None, Some(true)]);
        s.s_skip = *d.pick(&[None, Some(true)]);
        s.s_prefix = d.pick(&sp).clone();
        let mut f = FieldCfg::new("a", d.pick(&[Ty::c(), Ty::o(Ty::vc(Ty::v()))]).clone());
        f.into = d.tri();
        f.strip = d.tri();
        f.skip = d.tri();
        f.custom = d.tri();
        f.prefix = d.pick(&fp).clone();
        f.sname = d.pick(&nm).clone();
        f.try_ = d.bool();
        match *d.pick(&[0, 1, 2]) {
            1 => f = f.each("add", None),
            2 => f = f.each("r#else", Some(true)),
            _ => {}
        }
        match *d.pick(&[0, 1, 2]) {
            1 => f.pattern = Some(Pat::Imm),
            2 => f.def = Def::Bare,
            _ => {}
        }
        Some(Cfg::new(s, vec![f]))
    };
    let n = {
        let mut d = Dig { i: 0, tot: 1 };
        f(&mut d);
        d.tot
    };
    let items = totality(cx, "full product of the setter options", n, &|k| f(&mut Dig { i: k, tot: 1 }), rep);
    lint(cx, "full product of the setter options", &items, "2021", rep);
    types(cx, rep);
    generic::bounds(cx, rep);
    // words, and fragments of macros
    let w = inter::Words::new(inter::Words::settings(), false);
    let reps = inter::list(cx, "words and numbers of fields", w.total(), inter::ALL, &|k| w.at(k), rep);
    let items: Vec<(String, Item)> = reps.iter().map(|c| (c.render(PLAIN), item(c))).collect();
    lint(cx, "words and numbers of fields", &items, "2021", rep);
    let reps = inter::fragment_list(cx, inter::ALL, rep);
    let items: Vec<(String, Item)> = reps.iter().map(|c| (c.render(PLAIN), item(c))).collect();
    for e in if t { &["2015", "2018", "2021", "2024"][..] } else { &["2021"] } {
        lint(cx, "fragments of macros", &items, e, rep);
    }
}

/// (type, Clone, Default, can be extended)
const TYPES: [(&str, bool, bool, bool); 39] = [
    ("u8", true, true, false),
    ("&'static str", true, true, false),
    ("[u8; 3]", true, true, false),
    ("(u8, String)", true, true, false),
    ("()", true, true, true),
    ("fn(u8) -> u8", true, false, false),
    ("Box<dyn Fn(u8) -> u8 + Send>", false, false, false),
    ("Box<dyn std::error::Error>", false, false, false),
    ("Option<&'static str>", true, true, false),
    ("std::option::Option<u8>", true, true, false),
    ("::core::option::Option<Vec<u8>>", true, true, false),
    ("Option<Option<Vec<String>>>", true, true, false),
    ("Option<fn(u8) -> Option<u8>>", true, true, false),
    ("Option<(u8, Option<u8>)>", true, true, false),
    ("Option<[Option<u8>; 2]>", true, true, false),
    ("*const u8", true, false, false),
    ("&'static [Option<u8>]", true, true, false),
    ("Vec<Vec<u8>>", true, true, true),
    ("std::collections::BTreeMap<u8, Vec<String>>", true, true, true),
    ("std::collections::HashMap<String, Option<u8>>", true, true, true),
    ("std::marker::PhantomData<V>", true, true, false),
    ("std::cell::Cell<u8>", true, true, false),
    ("std::rc::Rc<str>", true, true, false),
    ("std::sync::Mutex<u8>", false, true, false),
    ("Result<u8, ()>", true, false, false),
    ("Option<std::rc::Rc<Self>>", true, true, false),
    ("Vec<std::rc::Rc<Self>>", true, true, true),
    ("fn(&Self) -> Option<Self>", true, false, false),
    ("std::option::Option<Box<Self>>", false, true, false),
    ("<Self as mc_rt::Any>::A", true, true, false),
    ("[<Self as mc_rt::Any>::A; Self::SIZE]", true, true, false),
    ("<Vec<u8> as IntoIterator>::Item", true, true, false),
    ("String", true, true, true),
    ("std::collections::VecDeque<&'static [u8]>", true, true, true),
    ("Option<Box<dyn Fn(&str) -> Option<String>>>", false, true, false),
    ("for<'z> fn(&'z u8) -> &'z u8", true, false, false),
    ("std::borrow::Cow<'static, str>", true, true, true),
    ("[[u8; 2]; 1 + 1]", true, true, false),
    ("mc_rt::V", true, true, false),
];
fn types(cx: &Ctx, rep: &mut Report) {
    let mut items = vec![];
    for (ty, clone, def, ext) in TYPES {
        for (p, by_ref) in [("", true), ("pattern = \"immutable\", ", true), ("pattern = \"owned\", ", false)] {
            if by_ref && !clone {
                continue;
            }
            for st in ["", "into", "strip_option", "into, strip_option", "skip", "custom", "name = \"z\", prefix = \"y\"", "each = \"w\"", "strip_option, each(name = \"w\", into)"] {
                if st.contains("each") && (!ext || st.contains("strip") && ty.contains("Option")) || st == "skip" && !def {
                    continue;
                }
                for fo in ["", "default", "try_setter", "field(public)"] {
                    if fo == "default" && !def {
                        continue;
                    }
                    // unsized values behind the conversion bounds
                    let s = if st.is_empty() { String::new() } else { format!("setter({})", st) };
                    let sep = if s.is_empty() || fo.is_empty() { "" } else { ", " };
                    let krate = if ty.contains("Mutex") { "" } else { "" };
                    let text = format!("#[derive(::derive_builder::Builder)]\n/// Documented.\n#[builder({}{})]\npub struct T {{\n    /// Documented.\n    #[builder({}{}{})] pub a: {},\n    /// Documented.\n    pub b: {},\n}}\n", p, krate, s, sep, fo, ty, ty);
                    match expand(&text) {
                        Exp::Ok(_) => items.push((text.clone(), Item { text, support: if ty.contains("SIZE") { "impl T { pub const SIZE: usize = 3; }\n" } else { "" }.into() })),
                        e => rep.violate(format!("valid struct not expanded: {:?}", e), text.clone(), format!("// kind: expand\n{}", text)),
                    }
                }
            }
        }
    }
    // unusual structs
    for s in [
        "pub struct T {}",
        "pub struct T<X>\nwhere\n    X: Clone + Send,\n{ /// d\n pub a: Vec<X> }",
        "pub struct T<'a, 'b: 'a, X: 'a + ?Sized + 'b> { /// d\n pub a: &'a X, /// d\n pub b: std::marker::PhantomData<&'b X> }",
        "pub struct T<X: Iterator<Item = Y>, Y: Clone> { /// d\n pub a: X, /// d\n pub b: Vec<Y> }",
        "pub struct T<F> where F: for<'z> Fn(&'z str) -> &'z str { /// d\n pub a: F }",
        "pub struct T<X: Clone = String, const M: usize = 4> { /// d\n pub a: [X; M] }",
        "#[builder(pattern = \"owned\")] pub struct T<X> where Option<X>: Default { /// d\n #[builder(setter(skip))] pub a: Option<X> }",
        "pub struct T { /// d\n pub a: fn(&u8) -> &u8, /// d\n pub b: [u8; { const K: usize = 3; K }] }",
        "pub struct T<const __DEFAULT: usize, VALUE_: Clone, E: Clone> { /// d\n #[builder(setter(into), try_setter)] pub a: VALUE_, /// d\n pub b: [E; __DEFAULT] }",
        "pub struct T<VALUE: Clone> { /// d\n #[builder(setter(strip_option), default)] pub a: Option<VALUE>, /// d\n pub b: u8 }",
        "pub struct T<FROM_VALUE: Clone> { /// d\n #[builder(setter(each(name = \"x\", into)))] pub a: Vec<FROM_VALUE>, /// d\n pub b: u8 }",
        "#[builder(pattern = \"owned\", build_fn(skip))] pub struct T<'r#a> { /// d\n pub r#a: &'r#a str }",
        "pub struct T<X: Clone> where Option<std::rc::Rc<Self>>: Clone { /// d\n pub a: Option<std::rc::Rc<Self>>, /// d\n pub b: X }",
        "#[builder(pattern = \"owned\", setter(into, strip_option))] pub struct T<'x, X: 'x + PartialEq<Self>, const M: usize> where Self: Sized, &'x Self: Sized { /// d\n pub a: Option<&'x Self>, /// d\n pub b: [X; M] }",
        "pub struct T { /// d\n pub a: u8, /// d\n pub b: u8, /// d\n pub c: u8, /// d\n pub d: u8, /// d\n pub e: u8, /// d\n pub f: u8, /// d\n pub g: u8, /// d\n pub h: u8, /// d\n pub i: u8, /// d\n pub j: u8, /// d\n pub k: u8, /// d\n pub l: u8, /// d\n pub m: u8, /// d\n pub n: u8, /// d\n pub o: u8, /// d\n pub p: u8, /// d\n pub q: u8, /// d\n pub r: u8, /// d\n pub s: u8, /// d\n pub t: u8 }",
    ] {
        if s.contains("'r#a") {
            continue;
        }
        let text = format!("/// Documented.\n#[derive(::derive_builder::Builder)]\n{}\n", s);
        match expand(&text) {
            Exp::Ok(_) => items.push((text.clone(), Item { text, support: String::new() })),
            e => rep.violate(format!("valid struct not expanded: {:?}", e), text.clone(), format!("// kind: expand\n{}", text)),
        }
    }
    rep.expansions += items.len() as u64;
    rep.states += items.len() as u64;
    for e in if cx.thorough { &["2018", "2021", "2024"][..] } else { &["2021"] } {
        lint(cx, "field types and shapes x options", &items, e, rep);
    }
}
