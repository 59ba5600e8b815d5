//! C18: generated code depends only on the crate root it was given and on the environment it was told about.
use super::*;
use serde_json::json;
use std::collections::HashMap;

/// Which features derive_builder was built with.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Env {
    Std,
    Alloc,
    None,
}
pub fn externs(cx: &Ctx, e: Env) -> Vec<(String, String)> {
    let l = match e {
        Env::Std => cx.externs.clone(),
        Env::Alloc => artifacts(&cx.verif.join("build/artifacts-alloc.json")),
        Env::None => artifacts(&cx.verif.join("build/artifacts-none.json")),
    };
    let get = |n: &str| l.iter().rev().find(|(a, _)| a == n).unwrap_or_else(|| fail(&format!("no artifact {} for {:?}", n, e))).1.clone();
    vec![("mc_rt".into(), get("mc_rt")), ("derive_builder".into(), get("derive_builder"))]
}
/// (value of the `crate` option, is the library called `db`)
pub const ROOTS: [(Option<&str>, bool); 5] =
    [(None, false), (Some("::db"), true), (Some("db"), true), (Some("crate::reexp::inner"), true), (Some("super::reexp::inner"), true)];
pub const EDITIONS: [&str; 4] = ["2015", "2018", "2021", "2024"];

#[derive(Clone, Debug)]
pub struct Place {
    pub env: Env,
    pub edition: &'static str,
    pub root: usize,
    /// the surrounding module defines types with the prelude's names
    pub shadow: bool,
    /// the user's crate is `#![no_std]`
    pub no_std: bool,
}
impl Place {
    fn lib(&self) -> &'static str {
        if ROOTS[self.root].1 {
            "db"
        } else {
            "derive_builder"
        }
    }
    fn name(&self) -> String {
        format!(
            "derive_builder {}, {}edition {}, root {}{}",
            match self.env {
                Env::Std => "with std",
                Env::Alloc => "with alloc only",
                Env::None => "without std and alloc",
            },
            if self.no_std { "no_std crate, " } else { "" },
            self.edition,
            ROOTS[self.root].0.unwrap_or("default"),
            if self.shadow { ", prelude names shadowed" } else { "" }
        )
    }
    fn head(&self) -> String {
        let msg = if self.env == Env::None { "CErr".to_string() } else { format!("::{}::export::core::string::String", self.lib()) };
        let from = if self.env == Env::None { String::new() } else { "impl From<Msg> for CErr { fn from(_: Msg) -> Self { CErr } }".to_string() };
        format!(
            "{ns}#![allow(warnings)]
pub extern crate {lib};
pub mod reexp {{ pub use ::{lib} as inner; }}
pub mod rt {{
#[derive(Clone, Debug, PartialEq, Default)] pub struct V;
#[derive(Clone, Copy, Debug, PartialEq, Default)] pub struct K;
#[derive(Debug, PartialEq, Default)] pub struct N;
#[derive(Clone, Debug, PartialEq)] pub struct P;
#[derive(Clone, Debug, PartialEq, Default)] pub struct Coll;
impl Extend<V> for Coll {{ fn extend<I: IntoIterator<Item = V>>(&mut self, _: I) {{ }} }}
#[derive(Debug)] pub struct CErr;
impl From<::{lib}::UninitializedFieldError> for CErr {{ fn from(_: ::{lib}::UninitializedFieldError) -> Self {{ CErr }} }}
pub type Msg = {msg};
{from}
pub type R0 = Result<(), Msg>;
pub fn ok() -> R0 {{ Ok(()) }}
pub struct Val;
pub fn ob<T>(_: &T) -> Val {{ Val }}
pub fn dv<T>(_: u8) -> T {{ loop {{}} }}
pub fn dchk<T>(_: u8, _: Val) -> Result<T, Msg> {{ loop {{}} }}
pub fn sd<T>() -> T {{ loop {{}} }}
pub fn sev() {{ }}
pub fn schk(_: Val) -> R0 {{ ok() }}
pub fn blk<T>(_: u8, _: Val) -> T {{ loop {{}} }}
pub fn blk_chk<T>(_: u8, _: Val) -> Result<T, Msg> {{ loop {{}} }}
pub trait Dflt {{ fn dflt() -> Self; }}
}}
pub mod sh {{ {sh} }}
",
            ns = if self.no_std { "#![no_std]\n" } else { "" },
            lib = self.lib(),
            msg = msg,
            from = from,
            sh = PRELUDE_NAMES.iter().map(|n| format!("pub struct {};", n)).collect::<Vec<_>>().join(" ")
        )
    }
    fn rustc(&self, cx: &Ctx) -> Rustc {
        let db = externs(cx, self.env).into_iter().find(|x| x.0 == "derive_builder").unwrap().1;
        Rustc { edition: self.edition, kind: Kind::Meta, externs: vec![(self.lib().into(), db)], depdirs: vec![cx.depdir.clone()], flags: vec![] }
    }
}
/// Names of types and traits that the preludes of all editions bring into scope, and some that users like.
pub const PRELUDE_NAMES: [&str; 44] = [
    "Option", "Result", "String", "Vec", "Box", "ToString", "ToOwned", "Copy", "Send", "Sized", "Sync", "Unpin", "Drop", "Fn", "FnMut", "FnOnce",
    "AsRef", "AsMut", "Into", "From", "Default", "Iterator", "Extend", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator", "Clone",
    "PartialEq", "PartialOrd", "Eq", "Ord", "TryInto", "TryFrom", "FromIterator", "Debug", "Display", "Error", "PhantomData", "Formatter",
    "Builder", "UninitializedFieldError", "Rc", "Cow", "Hash",
];

/// The module of a configuration at a place; None where the configuration has no meaning there.
fn text(c: &Cfg, p: &Place, k: usize) -> Option<(Cfg, String)> {
    let mut c = c.clone();
    if let Some(r) = ROOTS[p.root].0 {
        c.s.krate = Some(r.into());
    } else if c.s.krate.is_some() && p.lib() != "derive_builder" {
        return None;
    }
    if p.no_std {
        c.s.no_std = true;
    }
    let mut t = c.render(PLAIN);
    if t.contains("Vec<") {
        return None;
    }
    if p.shadow {
        t = t.replace("Option<", "core::option::Option<").replace("X: Clone", "X: core::clone::Clone").replace("X: Send", "X: core::marker::Send");
    }
    let g = &c.s.gen;
    let names = clean::params(&g.decl);
    let q = |s: &str| s.replace("X: Clone", "X: ::rt0::clone::Clone").replace("X: Send", "X: ::rt0::marker::Send").replace("::rt0", "core");
    let (decl, wh) = (q(&clean::strip_defaults(&g.decl)), q(&g.where_));
    let b = c.builder();
    let mut sup = String::new();
    if c.s.validate {
        if c.s.vpath == "vld" {
            sup.push_str(&format!("fn vld{}(_: &{}{}) -> R0 {} {{ ok() }} ", decl, b, names, wh));
        } else {
            sup.push_str(&format!("impl{} {}{} {} {{ fn vld(&self) -> R0 {{ ok() }} }} ", decl, b, names, wh));
        }
    }
    if c.s.sdef == SD::Bare {
        sup.push_str(&format!("impl{} core::default::Default for {}{} {} {{ fn default() -> Self {{ loop {{}} }} }} ", decl, c.s.name, names, wh));
    }
    let sh = if p.shadow { "use super::sh::*; " } else { "" };
    Some((c, format!("pub mod m{} {{ use super::rt::*; {}\n#[derive(::{}::Builder)]\n{}{}\n}}\n", k, sh, p.lib(), t, sup)))
}

/// Compiles configurations at one place; all must compile, except those that need an allocator that is not there.
fn at(cx: &Ctx, p: &Place, cfgs: &[Cfg], per: usize, rep: &mut Report) {
    let head = p.head();
    let hl = head.lines().count();
    let mut good = vec![];
    let mut bad = vec![];
    for (k, c) in cfgs.iter().enumerate() {
        if let Some((c, t)) = text(c, p, k) {
            if p.env == Env::None && c.error().is_some() && c.vld_err() {
                bad.push((c, t));
            } else {
                good.push((c, t));
            }
        }
    }
    let mut chunks: Vec<(bool, &[(Cfg, String)])> = vec![];
    for (ok, l) in [(true, &good), (false, &bad)] {
        for ch in l.chunks(per.max(1)) {
            chunks.push((ok, ch));
        }
    }
    let outs = par(cx.jobs, &chunks, |ci, (ok, ch)| {
        let mut r = Report::default();
        let stem = format!("en_{}_{}", h64(3, p.name()), ci);
        let src = cx.work.join(format!("{}.rs", stem));
        let mut o = head.clone();
        let mut owner: Vec<usize> = vec![];
        for (k, (_, t)) in ch.iter().enumerate() {
            o.push_str(t);
            owner.resize(owner.len() + t.lines().count(), k);
        }
        let _ = std::fs::write(&src, &o);
        let co = cx.compile(&p.rustc(cx), &src, &cx.work.join(format!("{}.rmeta", stem)));
        if co.timeout {
            fail("rustc ran out of time");
        }
        let mut errs: HashMap<usize, Vec<String>> = HashMap::new();
        for d in co.diags.iter().filter(|d| d.level.starts_with("error") && !d.msg.starts_with("aborting")) {
            let ks: Vec<usize> = d.lines.iter().filter(|l| **l > hl && **l - hl <= owner.len()).map(|l| owner[*l - hl - 1]).collect();
            if ks.is_empty() {
                fail(&format!("rustc failed outside the modules ({}): {}", p.name(), d.rendered));
            }
            for k in ks {
                errs.entry(k).or_default().push(format!("{} {}", d.code, d.msg));
            }
        }
        let mut viol = |k: usize, what: String| {
            let one = format!("// kind: described\n// {}\n// {}\n{}{}", p.name(), what.replace('\n', " "), head, ch[k].1);
            r.violate(format!("{} ({})", what, p.name()), ch[k].1.clone(), one);
        };
        let mut ks: Vec<usize> = errs.keys().copied().collect();
        ks.sort();
        if *ok {
            for k in ks {
                viol(k, format!("the generated code does not compile: {}", errs[&k][0]));
            }
        } else {
            for k in 0..ch.len() {
                match errs.get(&k) {
                    None => viol(k, "a generated error with validation is accepted without alloc".into()),
                    Some(l) => {
                        if !l.iter().any(|m| m.to_lowercase().contains("alloc") && !m.starts_with('E')) {
                            viol(k, format!("rejected without an explanation that mentions alloc: {}", l[0]));
                        }
                    }
                }
            }
        }
        if ci == 0 {
            r.sample(json!({"place": p.name(), "struct": ch[0].1}));
        }
        let _ = std::fs::remove_file(&src);
        r
    });
    for r in outs {
        rep.viol.extend(r.viol);
        if let (Some(s), true) = (r.samples.into_iter().next(), rep.samples.len() < 4) {
            rep.sample(s);
        }
    }
    let n = (good.len() + bad.len()) as u64;
    rep.compiled += good.len() as u64;
    rep.probes += bad.len() as u64;
    rep.states += n;
    rep.transitions += n;
    rep.traces += n;
}

fn space(t: usize, rep: &mut Report) -> Vec<Cfg> {
    let mut all = clean::struct_settings();
    all.extend(clean::field_settings(0));
    let sets = clean::subsets(&all, t);
    let mut seen: HashMap<u128, ()> = HashMap::new();
    let mut v = vec![];
    let outs = par(8, &sets, |_, s| {
        let c = clean::apply(&all, s);
        if !c.usable() || !clean::sane(&c) {
            return None;
        }
        // an explicit choice of the error survives the merging
        match expand(&c.render(PLAIN)) {
            Exp::Ok(t) => Some((h128(&format!("{:?} {}", c.s.error, t)), c)),
            _ => None,
        }
    });
    rep.expansions += sets.len() as u64;
    for (h, c) in outs.into_iter().flatten() {
        if seen.insert(h, ()).is_none() {
            v.push(c);
        }
    }
    rep.distinct += v.len() as u64;
    v
}

pub fn c18(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let ones = space(1, rep);
    let twos = space(2, rep);
    let mut places = vec![];
    for env in [Env::Std, Env::Alloc, Env::None] {
        for edition in EDITIONS {
            for root in 0..ROOTS.len() {
                for shadow in [false, true] {
                    for no_std in [false, true] {
                        places.push(Place { env, edition, root, shadow, no_std });
                    }
                }
            }
        }
    }
    let t0 = cx.elapsed();
    let outs = par(cx.jobs, &places, |_, p| {
        let mut r = Report::default();
        let one = Ctx { jobs: 1, work: cx.work.clone(), prop: cx.prop.clone(), verif: cx.verif.clone(), rustc: cx.rustc.clone(), externs: cx.externs.clone(), depdir: cx.depdir.clone(), ..*cx };
        at(&one, p, if t { &twos } else { &ones }, 400, &mut r);
        r
    });
    merge(rep, outs);
    rep.spaces.push(json!({"space": "every place x sets of settings", "places": places.len(), "settings": if t { 2 } else { 1 }}));
    eprintln!("  every place: {:.1}s", cx.elapsed() - t0);
    // more settings at fewer places: every environment, edition, root and shadowing, not every combination of them
    let three = if t { space(3, rep) } else { vec![] };
    let mut n = 0;
    for (i, env) in [Env::Std, Env::Alloc, Env::None].into_iter().enumerate() {
        for (j, edition) in EDITIONS.into_iter().enumerate() {
            let t0 = cx.elapsed();
            let p = Place { env, edition, root: (i + j) % 5, shadow: true, no_std: true };
            at(cx, &p, if t { &three } else { &twos }, 300, rep);
            let p = Place { env, edition, root: (i + j + 2) % 5, shadow: j % 2 == 0, no_std: false };
            at(cx, &p, if t { &three } else { &twos }, 300, rep);
            eprintln!("  {:?} {}: {:.1}s", env, edition, cx.elapsed() - t0);
            n += 2;
        }
    }
    rep.spaces.push(json!({"space": "covering places x larger sets of settings", "places": n, "settings": if t { 3 } else { 2 }}));
    names(cx, rep);
    macros(cx, if t { &twos } else { &ones }, rep);
    behaviour(cx, rep, t);
}
/// Structs defined by macros of another crate, which alone depends on the library: all paths go through `$crate`.
fn macros(cx: &Ctx, cfgs: &[Cfg], rep: &mut Report) {
    let t0 = cx.elapsed();
    let mut places = vec![];
    for env in [Env::Std, Env::Alloc, Env::None] {
        for edition in EDITIONS {
            for shadow in [false, true] {
                for no_std in [false, true] {
                    places.push(Place { env, edition, root: 1, shadow, no_std });
                }
            }
        }
    }
    let outs = par(cx.jobs, &places, |pi, p| {
        let mut r = Report::default();
        let one = Ctx { jobs: 1, work: cx.work.clone(), prop: cx.prop.clone(), verif: cx.verif.clone(), rustc: cx.rustc.clone(), externs: cx.externs.clone(), depdir: cx.depdir.clone(), ..*cx };
        let mut lib = p.head();
        let mut groups = vec![];
        for (k, c) in cfgs.iter().enumerate() {
            if let Some((c, t)) = text(c, p, k) {
                // `self` would be the macro's; without alloc some are refused
                if c.render(PLAIN).contains("self") || p.env == Env::None && c.error().is_some() && c.vld_err() {
                    continue;
                }
                let t = t
                    .replace("crate = \"::db\"", "crate = $crate::reexp::inner")
                    .replace("#[derive(::db::Builder)]", "#[derive($crate::db::Builder)]")
                    .replace("use super::", "use $crate::");
                lib.push_str(&format!("#[macro_export] macro_rules! d{} {{ () => {{ {} }} }}\n", k, t));
                groups.push(probes::Group {
                    input: t,
                    segs: vec![probes::Seg::Code(format!("maker::d{}! {{}}\nmod p{} {{\n", k, k)), probes::probe("pub fn ok() {} }".into(), true, "a struct defined by a macro".into())],
                });
            }
        }
        let dir = cx.work.join(format!("maker_{}", pi));
        let _ = std::fs::create_dir_all(&dir);
        let (src, out) = (dir.join("maker.rs"), dir.join("libmaker.rmeta"));
        let _ = std::fs::write(&src, &lib);
        let co = cx.compile(&p.rustc(cx), &src, &out);
        if !co.ok {
            fail(&format!("the crate of macros does not compile: {}", co.diags.iter().find(|d| d.level == "error").map(|d| d.rendered.clone()).unwrap_or(co.stderr)));
        }
        // a user of any edition
        let e = EDITIONS[(pi + pi / 4) % 4];
        let head = format!("{}#![allow(warnings)]\nextern crate maker;\n", if p.no_std { "#![no_std]\n" } else { "" });
        let quiet = format!("macros of another crate, {}, used in edition {}", p.name(), e);
        probes::run_probes(&one, &quiet, &groups, &head, 400, &|_| {
            let mut rc = p.rustc(cx);
            rc.edition = e;
            rc.externs = vec![("maker".into(), out.display().to_string())];
            rc.depdirs.push(dir.display().to_string());
            rc
        }, &mut r);
        let _ = std::fs::remove_dir_all(&dir);
        r
    });
    merge(rep, outs);
    rep.spaces.push(json!({"space": "macros of another crate x settings", "places": places.len(), "settings": if cx.thorough { 2 } else { 1 }}));
    eprintln!("  macros of another crate: {:.1}s", cx.elapsed() - t0);
}
fn merge(rep: &mut Report, outs: Vec<Report>) {
    for r in outs {
        rep.compiled += r.compiled;
        rep.probes += r.probes;
        rep.states += r.states;
        rep.transitions += r.transitions;
        rep.traces += r.traces;
        rep.viol.extend(r.viol);
        for s in r.samples.into_iter().take(1) {
            if rep.samples.len() < 4 {
                rep.sample(s);
            }
        }
    }
}

/// Things of the user's with the prelude's names: the struct, the builder, type parameters, fields' types.
fn names(cx: &Ctx, rep: &mut Report) {
    let t0 = cx.elapsed();
    let mut items = vec![];
    for n in PRELUDE_NAMES {
        if n == "Builder" || n == "UninitializedFieldError" {
            continue;
        }
        for (pat, by_ref) in [("owned", false), ("mutable", true), ("immutable", true)] {
            for opts in ["", "setter(into, strip_option), try_setter", "default", "build_fn(error(validation_error = false))", "build_fn(error = \"E\")", "build_fn(validate = \"v\")", "build_fn(skip)", "custom_constructor"] {
                let o = if opts.is_empty() { String::new() } else { format!(", {}", opts) };
                let err = "pub struct E; impl core::convert::From<::db::UninitializedFieldError> for E { fn from(_: ::db::UninitializedFieldError) -> Self { E } } ";
                let q = |b: &str| {
                    let mut s = err.to_string();
                    if opts.contains("validate =") {
                        s.push_str(&format!("fn v(_: &{}) -> core::result::Result<(), ::db::export::core::string::String> {{ core::result::Result::Ok(()) }} ", b));
                    }
                    s
                };
                let dfl = |ty: &str| if opts == "default" { format!("impl core::default::Default for {} {{ fn default() -> Self {{ loop {{}} }} }} ", ty) } else { String::new() };
                let head = "#[derive(::db::Builder)]\n";
                let b = format!("{}Builder", n);
                items.push(format!("{}#[builder(crate = \"::db\", pattern = \"{}\"{})]\npub struct {} {{ pub a: u8, #[builder(default)] pub b: u8 }}\n{}{}", head, pat, o, n, q(&b), dfl(n)));
                items.push(format!("{}#[builder(crate = \"::db\", name = \"{}\", pattern = \"{}\"{})]\npub struct T {{ pub a: u8, #[builder(default)] pub b: u8 }}\n{}{}", head, n, pat, o, q(n), dfl("T")));
                items.push(format!(
                    "{}#[builder(crate = \"::db\", pattern = \"{}\"{})]\npub struct T {{ pub a: {}, #[builder(setter(custom))] pub b: {} }}\n#[derive(Clone)] pub struct {};\n{}{}",
                    head, pat, o, n, n, n, q("TBuilder"), dfl("T")
                ));
                let bound = if by_ref { ": core::clone::Clone" } else { "" };
                let _ = bound;
                if !opts.contains("validate") && opts != "default" {
                    items.push(format!("{}#[builder(crate = \"::db\", pattern = \"{}\"{})]\npub struct T<{}> {{ pub a: {}, #[builder(default)] pub b: u8 }}\n{}", head, pat, o, n, n, q("")));
                }
            }
        }
    }
    let groups: Vec<probes::Group> = items
        .iter()
        .enumerate()
        .map(|(i, t)| probes::Group {
            input: t.clone(),
            segs: vec![probes::Seg::Code(format!("pub mod n{} {{\n{}\n", i, t)), probes::probe("pub fn ok() {} }".into(), true, "a struct around a prelude name".into())],
        })
        .collect();
    for e in EDITIONS {
        let p = Place { env: Env::Std, edition: e, root: 1, shadow: true, no_std: false };
        probes::run_probes(cx, &format!("prelude names {}", e), &groups, "#![allow(warnings)]\nextern crate db;\n", 300, &|_| p.rustc(cx), rep);
    }
    eprintln!("  prelude names: {:.1}s", cx.elapsed() - t0);
}

/// The behaviour at other places is that of the model, too.
fn behaviour(cx: &Ctx, rep: &mut Report, t: bool) {
    let mut all = clean::struct_settings();
    all.extend(clean::field_settings(0));
    let sets = clean::subsets(&all, 2);
    let run = |name: &str, e: Env, edition: &'static str, root: usize, rep: &mut Report| {
        let s = |d: &mut Dig| {
            let k = d.pick(&(0..sets.len()).collect::<Vec<_>>()).clone();
            let mut c = clean::apply(&all, &sets[k]);
            c.s.krate = ROOTS[root].0.map(|s| s.to_string());
            if e != Env::Std {
                c.s.no_std = true;
            }
            if e == Env::None && c.s.error == ErrK::No {
                c.s.error = ErrK::Gen(false);
            }
            // the driver's helpers are written for one instance
            if !c.s.gen.decl.is_empty() && (c.s.validate || c.s.sdef != SD::No) {
                return None;
            }
            if !clean::sane(&c) || e == Env::None && c.error().is_some() && c.vld_err() {
                return None;
            }
            Some(c)
        };
        let mut ex = externs(cx, e);
        if ROOTS[root].1 {
            ex[1].0 = "db".into();
        }
        explore_space(cx, name, &s, &Opts { depth: 3, cap: if t { 20_000 } else { 4_000 }, edition, externs: Some(ex), ..Default::default() }, rep);
    };
    run("behaviour without std and alloc", Env::None, "2021", 1, rep);
    run("behaviour with alloc only", Env::Alloc, "2018", 4, rep);
    run("behaviour in edition 2024", Env::Std, "2024", 3, rep);
    run("behaviour in edition 2015", Env::Std, "2015", 2, rep);
}
