//! C19: expansion is a pure function of the struct, and equivalent spellings agree.
use super::*;
use crate::frag::{K, KINDS as FRAGS};
use serde_json::json;
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// What a process that does nothing else makes of a struct.
fn fresh(item: &str, env: &[(&str, &str)], cwd: Option<&str>) -> String {
    let exe = std::env::current_exe().unwrap_or_else(|_| fail("no current executable"));
    let mut c = Command::new(exe);
    c.arg("expand-one").arg("-").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    for (k, v) in env {
        if *k == "-" {
            c.env_clear();
        } else {
            c.env(k, v);
        }
    }
    if let Some(d) = cwd {
        c.current_dir(d);
    }
    let mut ch = c.spawn().unwrap_or_else(|e| fail(&format!("cannot start the expander: {}", e)));
    let mut si = ch.stdin.take().unwrap();
    let _ = si.write_all(item.as_bytes());
    drop(si);
    let o = ch.wait_with_output().unwrap_or_else(|_| fail("the expander cannot be read"));
    if !o.status.success() {
        fail("the expander failed");
    }
    String::from_utf8_lossy(&o.stdout).into_owned()
}

/// Structs of all kinds, valid and not.
fn inputs(t: bool) -> Vec<String> {
    let all = inter::alphabet();
    let name = |s: &[u16]| clean::apply(&all, s).render(PLAIN);
    let mut v: Vec<String> = clean::subsets(&all, 1).iter().filter(|s| s.iter().all(|k| t || !all[*k as usize].opt.starts_with("g."))).map(|s| name(s)).collect();
    // all types with the settings that look into them
    let is = |k: usize, o: &[&str]| o.contains(&all[k].opt);
    for i in 0..all.len() {
        for j in 0..all.len() {
            if is(i, &["f.type", "f.ty"]) && is(j, &["f.strip", "setter.strip_option", "f.try", "f.each"]) {
                v.push(name(&[i as u16, j as u16]));
            }
        }
    }
    // other names, the same fields; the same name, other fields
    let n = v.len();
    for (i, s) in v.clone().iter().enumerate() {
        if t || i % 7 == 0 {
            v.push(s.replace("struct T ", "struct U "));
        }
    }
    let _ = n;
    for s in [
        "struct T {}",
        "struct U {}",
        "pub struct T { a: u8 }",
        "struct T { b: V, a: Coll }",
        "struct T { a: V, b: V, c: V }",
        "enum T { A }",
        "struct T(u8);",
        "struct T;",
        "union T { a: u8 }",
        "#[builder(nonsense)] struct T { a: u8 }",
        "#[builder(public, private)] struct T { a: u8, #[builder(wrong)] b: u8 }",
        "struct T { #[builder(default = \"1\", field(ty = \"u8\"))] a: u8 }",
        "#[builder(pattern = \"odd\")] struct T { a: u8 }",
        "#[builder(build_fn(validate = \"x\", error(validation_error = false)))] struct T { a: u8 }",
        "struct T<'a, X: Clone = u8, const M: usize = 3> where X: Send { a: &'a [X; M] }",
        "struct T { /// doc\n #[cfg(any())] #[allow(x)] a: u8, #[builder_field_attr(serde(x))] #[builder_setter_attr(doc = \"y\")] b: u8 }",
        "#[builder_struct_attr(derive(X))] #[builder_impl_attr(y)] #[builder(derive(Debug))] struct T { a: u8 }",
        "struct T { #[builder_field_attr()] a: u8 }",
    ] {
        v.push(s.to_string());
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.clone()));
    v
}

fn purity(cx: &Ctx, rep: &mut Report) {
    let t0 = cx.elapsed();
    let ins = inputs(cx.thorough);
    let base: Vec<String> = par(cx.jobs, &ins, |_, s| fresh(s, &[], None));
    let bad = Mutex::new(Vec::<(String, String)>::new());
    let report = |how: String, item: &str| {
        let mut b = bad.lock().unwrap();
        if b.len() < 20 {
            b.push((how, item.to_string()));
        }
    };
    // other processes and surroundings
    let envs: [(&str, &[(&str, &str)], Option<&str>); 6] = [
        ("again in a fresh process", &[], None),
        ("without an environment", &[("-", "")], None),
        ("in another directory", &[], Some("/")),
        ("as another crate", &[("CARGO_PKG_NAME", "derive_builder"), ("CARGO_CRATE_NAME", "derive_builder"), ("CARGO_MANIFEST_DIR", "/"), ("CARGO_PRIMARY_PACKAGE", "1")], None),
        ("in a release build", &[("PROFILE", "release"), ("DEBUG", "false"), ("OPT_LEVEL", "3"), ("CARGO_CFG_TARGET_OS", "none"), ("CARGO_FEATURE_STD", ""), ("DOCS_RS", "1")], None),
        ("with tracing and another language", &[("RUST_BACKTRACE", "full"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo"), ("HOME", "/nonexistent"), ("USER", "x")], None),
    ];
    for (name, env, cwd) in envs {
        par(cx.jobs, &ins, |i, s| {
            if fresh(s, env, cwd) != base[i] {
                report(format!("the expansion differs {}", name), s);
            }
        });
        rep.expansions += ins.len() as u64;
    }
    // every struct after every other, in one thread
    let n = ins.len();
    let cnt = AtomicU64::new(0);
    let ids: Vec<usize> = (0..n).collect();
    par(cx.jobs, &ids, |_, &a| {
        for b in 0..n {
            for k in [a, b, b] {
                if format!("{:?}", expand(&ins[k])) != base[k] {
                    report(format!("the expansion differs after expanding\n{}", ins[a]), &ins[k]);
                }
            }
            cnt.fetch_add(3, Ordering::Relaxed);
        }
    });
    // all sequences of three from a selection
    let m = if cx.thorough { 90 } else { 40 };
    let sel: Vec<usize> = ids.iter().copied().filter(|i| i % (n / m + 1) == 0).chain(n - 18..n).collect();
    par(cx.jobs, &sel, |_, &a| {
        for &b in &sel {
            for &c in &sel {
                for k in [a, b, c] {
                    if format!("{:?}", expand(&ins[k])) != base[k] {
                        report(format!("the expansion differs after expanding\n{}\n{}", ins[a], ins[b]), &ins[k]);
                    }
                }
                cnt.fetch_add(3, Ordering::Relaxed);
            }
        }
    });
    // first in a new thread, while others expand the same or another struct
    for shift in 0..if cx.thorough { 60 } else { 12 } {
        let rounds: Vec<usize> = (0..n).collect();
        std::thread::scope(|s| {
            for w in 0..cx.jobs {
                let (rounds, ins, base, report) = (&rounds, &ins, &base, &report);
                s.spawn(move || {
                    for r in rounds.iter().skip(w % 2) {
                        let k = (r + shift * w) % n;
                        std::thread::scope(|q| {
                            q.spawn(move || {
                                if format!("{:?}", expand(&ins[k])) != base[k] {
                                    report("the expansion differs in a new thread next to others".into(), &ins[k]);
                                }
                            });
                        });
                    }
                });
            }
        });
        cnt.fetch_add((n * cx.jobs) as u64, Ordering::Relaxed);
    }
    let c = cnt.load(Ordering::Relaxed);
    rep.expansions += c;
    rep.states += c;
    rep.transitions += c;
    rep.extra.insert("purity".into(), json!({"structs": n, "surroundings": 6, "sequences_of_two": n * n, "sequences_of_three": sel.len().pow(3), "expansions": c}));
    eprintln!("  purity: {} structs, {} expansions, {:.1}s", n, c, cx.elapsed() - t0);
    compiler(cx, &ins, &base, rep);
    for (how, item) in bad.into_inner().unwrap() {
        rep.violate(how.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", how.replace('\n', "\n// "), item));
    }
    rep.sample(json!({"structs_expanded_in_all_orders": [ins[3], ins[n - 3]]}));
}

/// The same inside rustc: modules printed after expansion, alone and among all others in several orders.
fn compiler(cx: &Ctx, ins: &[String], base: &[String], rep: &mut Report) {
    let t0 = cx.elapsed();
    let ok: Vec<usize> = (0..ins.len()).filter(|i| base[*i].starts_with("Ok(") && !ins[*i].contains("cfg(")).collect();
    std::env::set_var("RUSTC_BOOTSTRAP", "1");
    let print = |name: String, list: &[usize]| -> Vec<String> {
        let mut o = String::from("#![allow(warnings)]\n");
        for (k, i) in list.iter().enumerate() {
            o.push_str(&format!("mod m{} {{ use mc_rt::*;\n#[derive(::derive_builder::Builder)]\n{}\n}}\n", k, ins[*i]));
        }
        let src = cx.work.join(format!("{}.rs", name));
        let _ = std::fs::write(&src, &o);
        let mut rc = cx.rustc_default(Kind::Meta);
        rc.flags.push("-Zunpretty=expanded".into());
        let outp = cx.work.join(format!("{}.out", name));
        let co = cx.compile(&rc, &src, &outp);
        let text = std::fs::read_to_string(&outp).unwrap_or_default();
        let file = match syn::parse_file(&text) {
            Ok(f) if !f.items.is_empty() => f,
            _ => fail(&format!("rustc did not print the expansion: {}", co.stderr.chars().take(800).collect::<String>())),
        };
        let mut v = vec![];
        for it in file.items {
            if let syn::Item::Mod(m) = it {
                v.push(m.content.map(|c| c.1.iter().map(|i| quote::ToTokens::to_token_stream(i).to_string()).collect::<Vec<_>>().join("\n")).unwrap_or_default());
            }
        }
        let _ = std::fs::remove_file(&src);
        let _ = std::fs::remove_file(&outp);
        if v.len() != list.len() {
            fail("modules missing in rustc's expansion");
        }
        v
    };
    let alone: Vec<String> = par(cx.jobs, &ok, |k, i| print(format!("pu_{}", k), &[*i]).remove(0));
    let mut orders: Vec<Vec<usize>> = vec![(0..ok.len()).collect(), (0..ok.len()).rev().collect(), (0..ok.len()).flat_map(|i| [i, i]).collect()];
    for s in 1..if cx.thorough { 40 } else { 6 } {
        orders.push((0..ok.len()).map(|i| (i + s * 7) % ok.len()).collect());
        orders.push((0..ok.len()).map(|i| if i % 2 == 0 { i } else { (i * s) % ok.len() }).collect());
    }
    let outs = par(cx.jobs, &orders, |k, o| {
        let l: Vec<usize> = o.iter().map(|i| ok[*i]).collect();
        let got = print(format!("puo_{}", k), &l);
        let bad: Vec<usize> = (0..l.len()).filter(|j| got[*j] != alone[o[*j]]).map(|j| l[j]).collect();
        (l.len(), bad)
    });
    for (n, bad) in outs {
        rep.traces += n as u64;
        for b in bad.into_iter().take(3) {
            rep.violate("inside rustc the expansion differs among other structs".into(), ins[b].clone(), format!("// kind: described\n// expanded differently by rustc alone and next to the other structs\n{}", ins[b]));
        }
    }
    rep.traces += ok.len() as u64;
    rep.compiled += (ok.len() + orders.len()) as u64;
    eprintln!("  purity inside rustc: {:.1}s", cx.elapsed() - t0);
}

// ---------------------------------------------------------------- spellings
type Way = (String, Box<dyn Fn(&Cfg) -> Option<(Cfg, Spell)> + Sync + Send>);

/// Compares every way of writing every configuration with the plain one; where the expansions differ, explores the behaviour.
fn agree(cx: &Ctx, name: &str, cfgs: &[Cfg], ways: &[Way], rep: &mut Report) {
    let t0 = cx.elapsed();
    let n = AtomicU64::new(0);
    let differ: Mutex<HashMap<u128, (usize, Cfg, String)>> = Mutex::new(HashMap::new());
    let outs = par(cx.jobs, cfgs, |i, c| {
        let mut bad = vec![];
        let plain = c.render(PLAIN);
        let want = expand(&plain);
        for (how, w) in ways {
            let (c2, sp) = match w(c) {
                Some(x) => x,
                None => continue,
            };
            let item = c2.render(sp);
            if item == plain && c2.s.frag == K::No || c2.s.frag != K::No && crate::frag::pass(&item, c2.s.frag).is_none() {
                continue;
            }
            n.fetch_add(1, Ordering::Relaxed);
            let got = expand_as(&item, c2.s.frag);
            if got == want {
                continue;
            }
            match (&want, got) {
                (Exp::Ok(_), Exp::Ok(g)) => {
                    let mut m = differ.lock().unwrap();
                    let e = m.entry(h128(&format!("{}{:?}{:?}", g, c2.s.gen.conc, c2.s.frag))).or_insert((i, c2.clone(), item.clone()));
                    if e.0 > i {
                        *e = (i, c2, item);
                    }
                }
                (a, b) => bad.push((format!("spelled differently ({}), the verdict is different: {:?} instead of {:?}", how, kind(&b), kind(a)), format!("{}// instead of\n{}", item, plain))),
            }
        }
        bad
    });
    for (what, item) in outs.into_iter().flatten().take(5) {
        rep.violate(what.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", what.replace('\n', " "), item));
    }
    let c = n.load(Ordering::Relaxed);
    rep.expansions += c;
    rep.states += c;
    rep.transitions += c;
    let mut l: Vec<(usize, Cfg, String)> = differ.into_inner().unwrap().into_values().filter(|x| x.1.usable() && clean::sane(&x.1)).collect();
    l.sort_by(|a, b| (a.0, &a.2).cmp(&(b.0, &b.2)));
    let cap = if cx.thorough { 8000 } else { 2500 };
    let all = l.len();
    if all > cap {
        rep.caps.push(format!("{}: {} of {} differing expansions explored", name, cap, all));
        l.truncate(cap);
    }
    let mods: Vec<(u32, Cfg, String, crate::emit::Module)> = l
        .into_iter()
        .enumerate()
        .map(|(i, (_, c, item))| {
            let m = crate::emit::module(i as u32, &c, &item);
            (i as u32, c, item, m)
        })
        .collect();
    rep.distinct += mods.len() as u64;
    explore_modules(cx, name, &mods, &Opts { depth: 3, cap: 4_000, ..Default::default() }, rep);
    rep.spaces.push(json!({"space": name, "configurations": cfgs.len(), "ways": ways.len(), "spellings_expanded": c, "expansions_that_differ_and_were_explored": all}));
    eprintln!("  {}: {} spellings, {} differ, {:.1}s", name, c, all, cx.elapsed() - t0);
}
fn kind(e: &Exp) -> String {
    match e {
        Exp::Ok(_) => "accepted".into(),
        e => format!("{:?}", e).chars().take(300).collect(),
    }
}

fn spellings() -> Vec<Way> {
    let mut v: Vec<Way> = vec![];
    for k in 0..64u32 {
        let b = |i: u32| k >> i & 1 == 1;
        let sp = Spell { long_true: b(0), quote_bool: b(1), bare: b(2), split: b(3), rev: b(4), trail: b(5), ..PLAIN };
        v.push((format!("{:?}", sp), Box::new(move |c| Some((c.clone(), sp)))));
    }
    v
}
/// Parts passed to a macro that defines the struct.
fn fragments() -> Vec<Way> {
    let mut v: Vec<Way> = vec![];
    for k in FRAGS {
        for bare in [false, true] {
            let sp = Spell { bare, ..PLAIN };
            v.push((format!("passed to a macro: {:?}", k), Box::new(move |c| {
                let mut c = c.clone();
                c.s.frag = k;
                Some((c, sp))
            })));
        }
    }
    v
}
/// All orders and all distributions over attributes, of up to n options.
fn orders(n: u32) -> Vec<Way> {
    let mut v: Vec<Way> = vec![];
    for perm in 0..(1..=n).product() {
        for cut in 0..1 << (n - 1) {
            let sp = Spell { perm, cut, ..PLAIN };
            v.push((format!("order {}, cuts {}", perm, cut), Box::new(move |c| Some((c.clone(), sp)))));
        }
    }
    v
}
/// Defaults that can be written out.
fn defaults() -> Vec<(&'static str, fn(&mut Cfg) -> bool)> {
    fn svis(c: &Cfg) -> Vis {
        match c.s.vis.trim() {
            "pub" => Vis::Public,
            "" => Vis::Private,
            _ => Vis::Ex("pub(crate)"),
        }
    }
    macro_rules! none {
        ($c:ident, $f:expr, $v:expr) => {{
            if $f.is_some() {
                return false;
            }
            let v = $v;
            $f = Some(v);
            true
        }};
    }
    macro_rules! novis {
        ($c:ident, $f:expr, $v:expr) => {{
            if $f != Vis::No {
                return false;
            }
            let v = $v;
            $f = v;
            true
        }};
    }
    vec![
        ("pattern", |c| none!(c, c.s.pattern, Pat::Mut)),
        ("name", |c| none!(c, c.s.bname, c.builder())),
        ("public", |c| novis!(c, c.s.bvis, svis(c))),
        ("build_fn(public)", |c| {
            // where the builder is public, public; otherwise not expressible as such
            let b = if c.s.bvis != Vis::No { c.s.bvis.clone() } else { svis(c) };
            novis!(c, c.s.b_vis, b)
        }),
        ("build_fn(skip = false)", |c| none!(c, c.s.b_skip, false)),
        ("build_fn(name)", |c| none!(c, c.s.b_name, "build".into())),
        ("build_fn(error(validation_error))", |c| {
            if c.s.error != ErrK::No {
                return false;
            }
            c.s.error = ErrK::Gen(true);
            true
        }),
        ("create_empty", |c| none!(c, c.s.create_empty, "create_empty".into())),
        ("setter(into = false)", |c| none!(c, c.s.s_into, false)),
        ("setter(strip_option = false)", |c| none!(c, c.s.s_strip, false)),
        ("setter(skip = false)", |c| none!(c, c.s.s_skip, false)),
        ("crate", |c| none!(c, c.s.krate, "::derive_builder".into())),
        ("field(private)", |c| novis!(c, c.s.fvis, Vis::Private)),
        ("field pattern", |c| none!(c, c.f[0].pattern, c.strukt_pat())),
        ("field public", |c| novis!(c, c.f[0].vis, if c.s.bvis == Vis::No { Vis::Public } else { c.s.bvis.clone() })),
        ("field(private) of the field", |c| novis!(c, c.f[0].fvis, if c.hidden(0) || c.s.fvis == Vis::No { Vis::Private } else { c.s.fvis.clone() })),
        ("setter(name)", |c| !c.hidden(0) && none!(c, c.f[0].sname, c.setter_name(0))),
        ("setter(into) of the field", |c| !c.hidden(0) && none!(c, c.f[0].into, c.s.s_into.unwrap_or(false))),
        ("setter(strip_option) of the field", |c| !c.hidden(0) && none!(c, c.f[0].strip, c.s.s_strip.unwrap_or(false))),
        ("setter(skip = ..) of the field", |c| none!(c, c.f[0].skip, c.hidden(0))),
        ("setter(custom = false)", |c| !c.hidden(0) && none!(c, c.f[0].custom, false)),
        ("each(..)", |c| match &mut c.f[0].each {
            Some(e) if !e.long => {
                e.long = true;
                true
            }
            _ => false,
        }),
        ("each(into = false)", |c| match &mut c.f[0].each {
            Some(e) if e.into.is_none() => {
                e.long = true;
                e.into = Some(false);
                true
            }
            _ => false,
        }),
        ("two fields", |c| {
            // the other field, too
            if c.f[1].pattern.is_some() || c.f[1].custom.is_some() || c.hidden(1) {
                return false;
            }
            c.f[1].pattern = Some(c.strukt_pat());
            c.f[1].into = Some(c.s.s_into.unwrap_or(false));
            c.f[1].sname = Some(c.setter_name(1));
            c.f[1].custom = Some(false);
            true
        }),
    ]
}
fn written_out(t: usize) -> Vec<Way> {
    let d = defaults();
    let mut v: Vec<Way> = vec![];
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let mut last = sets.clone();
    for _ in 0..t {
        let next: Vec<Vec<usize>> = last.iter().flat_map(|s| (s.last().map_or(0, |x| x + 1)..d.len()).map(|k| [&s[..], &[k]].concat()).collect::<Vec<_>>()).collect();
        sets.extend(next.iter().cloned());
        last = next;
    }
    sets.push((0..d.len()).collect());
    let fs: Vec<fn(&mut Cfg) -> bool> = d.iter().map(|x| x.1).collect();
    for s in sets {
        let names: Vec<&str> = s.iter().map(|i| d[*i].0).collect();
        let all = s.len() == d.len();
        let fs = fs.clone();
        v.push((
            format!("written out: {}", names.join(", ")),
            Box::new(move |c| {
                if c.f[0].word {
                    return None; // not expressible next to options
                }
                let mut c2 = c.clone();
                for i in &s {
                    if !fs[*i](&mut c2) && !all {
                        return None;
                    }
                }
                Some((c2, PLAIN))
            }),
        ));
    }
    v
}

pub fn c19(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    purity(cx, rep);
    let mut all = clean::struct_settings();
    all.extend(clean::field_settings(0));
    all.retain(|s| s.opt != "derive" || clean::apply(std::slice::from_ref(s), &[0]).s.derive.len() == 1);
    let get = |k: usize| -> Vec<Cfg> { clean::subsets(&all, k).iter().map(|s| clean::apply(&all, s)).filter(|c| c.usable() && clean::sane(c)).collect() };
    let two = get(2);
    let three = get(3);
    agree(cx, "spellings", if t { &three } else { &two }, &spellings(), rep);
    agree(cx, "orders and distributions over attributes", &two, &orders(2), rep);
    // several options of one list
    let strukt: Vec<_> = clean::struct_settings().into_iter().filter(|s| s.opt != "derive" && s.opt != "generics").collect();
    let field: Vec<_> = clean::field_settings(0);
    for (name, l, k) in [("struct", &strukt, 3), ("field", &field, 3)] {
        let k = if t { k + 1 } else { k };
        let c: Vec<Cfg> = clean::subsets(l, k).iter().filter(|s| s.len() == k).map(|s| clean::apply(l, s)).filter(|c| c.usable()).collect();
        // two settings each in quick mode would double the work
        agree(cx, &format!("all orders of {} options of the {}", k, name), &c, &orders(k as u32), rep);
    }
    agree(cx, "written-out defaults", if t { &three } else { &two }, &written_out(2), rep);
    agree(cx, "fragments of macros", if t { &three } else { &two }, &fragments(), rep);
    derives(cx, rep);
    bare_default(cx, rep);
}

/// The order of requested derives makes no difference.
fn derives(cx: &Ctx, rep: &mut Report) {
    let mut cfgs = vec![];
    for p in [Pat::Own, Pat::Mut] {
        for d in [&["Debug", "PartialEq"][..], &["Clone", "Debug", "PartialEq"]] {
            let mut c = clean::base();
            c.s.pattern = Some(p);
            c.s.facts = true;
            c.s.derive = d.iter().map(|s| s.to_string()).collect();
            cfgs.push(c);
        }
    }
    agree(cx, "orders of derives", &cfgs, &orders(3), rep);
}

/// A bare default is the type's Default written out.
fn bare_default(cx: &Ctx, rep: &mut Report) {
    let s = |d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS));
        let mut f = FieldCfg::new("a", d.pick(&[Ty::v(), Ty::n(), Ty::c(), Ty::o(Ty::v()), Ty::vc(Ty::v())]).clone());
        let e = d.pick(&["Default::default()", "::std::default::Default::default()", "<_>::default()", "{ Default::default() }", "let x = Default::default(); x"]).to_string();
        f.def = if d.bool() { Def::Raw(e, mc_rt::NoneK::Ty) } else { Def::Bare };
        f.strip = *d.pick(&[None, Some(true)]);
        s.sdef = d.pick(&[SD::No, SD::Expr]).clone();
        Some(Cfg::new(s, vec![f, FieldCfg::new("b", Ty::v())]))
    };
    explore_space(cx, "written-out Default", &s, &Opts { depth: 3, cap: 4_000, ..Default::default() }, rep);
}
