//! C11: visibility of every generated item, decided by where it can be used.
use super::probes::*;
use super::*;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// Where a visibility reaches: 1 the module itself and below, 2 its parent, 3 the crate, 4 everyone.
type Reach = u8;
/// spelled `$M` for the name of the parent module
pub const EXPL: [(&str, Reach); 8] = [
    ("", 1),
    ("pub", 4),
    ("pub(crate)", 3),
    ("pub(super)", 2),
    ("pub(self)", 1),
    ("pub(in crate::$M)", 2),
    ("pub(in super::super)", 3),
    ("pub(in crate)", 3),
];
fn reach_str(v: &str) -> Reach {
    EXPL.iter().find(|e| e.0 == v.trim()).map(|e| e.1).unwrap_or_else(|| fail("unknown visibility"))
}
fn reach(v: &Vis) -> Option<Reach> {
    match v {
        Vis::No => None,
        Vis::Public => Some(4),
        Vis::Private => Some(1),
        Vis::Ex(s) => Some(reach_str(s)),
    }
}
fn reach_syn(v: &syn::Visibility) -> Reach {
    let s = quote::quote!(#v).to_string().replace(' ', "");
    match s.as_str() {
        "" | "pub(self)" | "pub(inself)" => 1,
        "pub" => 4,
        "pub(super)" | "pub(insuper)" | "pub(incrate::m0)" | "pub(inself::super)" => 2,
        "crate" | "pub(crate)" | "pub(incrate)" | "pub(insuper::super)" => 3,
        _ => fail(&format!("unknown visibility {}", s)),
    }
}
pub struct Model {
    pub strukt: Reach,
    pub builder: Reach,
    pub build: Reach,
    pub setter: Vec<Reach>,
    pub field: Vec<Reach>,
}
pub fn model(c: &Cfg) -> Model {
    let strukt = reach_str(c.s.vis);
    let builder = reach(&c.s.bvis).unwrap_or(strukt);
    Model {
        strukt,
        builder,
        build: reach(&c.s.b_vis).unwrap_or(builder),
        setter: c.f.iter().map(|f| reach(&f.vis).or(reach(&c.s.bvis)).unwrap_or(4)).collect(),
        field: (0..c.f.len())
            .map(|i| {
                let own = reach(&c.f[i].fvis);
                let st = if c.hidden(i) { None } else { reach(&c.s.fvis) };
                own.or(st).unwrap_or(1)
            })
            .collect(),
    }
}
pub fn all_vis(n: usize) -> Vec<Vis> {
    let mut v = vec![Vis::No, Vis::Public, Vis::Private];
    v.extend(EXPL.iter().skip(1).take(n).map(|e| Vis::Ex(e.0)));
    if n >= EXPL.len() - 1 {
        v.push(Vis::Ex(""));
    }
    v
}
const SVIS: [&str; 5] = ["pub ", "", "pub(crate) ", "pub(super) ", "pub(in crate::$M) "];

/// Scopes: module itself, child, parent, sibling, elsewhere in the crate, another crate; with what reaches them.
const SCOPES: [(&str, Reach); 6] = [("the same module", 1), ("a child module", 1), ("the parent module", 2), ("a sibling module", 2), ("elsewhere in the crate", 3), ("another crate", 4)];

type Use = (String, u8, Box<dyn Fn(&str, usize) -> String>, Reach, Reach);
/// Items, as (name, phase, code given the path of the module, reach, reach of the types it needs).
fn uses(c: &Cfg) -> Vec<Use> {
    let m = model(c);
    let mut v: Vec<Use> = vec![];
    let b = c.builder();
    v.push(("the builder".into(), 0, Box::new(move |p, k| format!("type B{} = {}::{};", k, p, b)), m.builder, 4));
    if let Some(e) = c.error() {
        v.push(("the error type".into(), 0, Box::new(move |p, k| format!("type E{} = {}::{};", k, p, e)), m.builder, 4));
    }
    let ce = c.create_empty();
    v.push(("the empty constructor".into(), 1, Box::new(move |p, k| format!("fn c{}() {{ let _ = {}::AL::{}(); }}", k, p, ce)), 1, 4));
    if c.has_build() {
        let n = c.build_name();
        v.push(("the build method".into(), 1, Box::new(move |p, k| format!("fn b{}() {{ let _ = {}::nb().{}(); }}", k, p, n)), m.build, 4));
    }
    for i in 0..c.f.len() {
        let f = &c.f[i];
        if c.has_setter(i) {
            let n = c.setter_name(i);
            let r = m.setter[i];
            let a = if c.into(i) { "A(1)" } else { "mk(1, b'D')" };
            v.push((format!("setter {}", n), 1, Box::new(move |p, k| format!("fn s{}() {{ let _ = {}::nb().{}({}); }}", k, p, n, a)), r, 4));
            if c.has_try(i) {
                let n = c.try_name(i);
                v.push((format!("setter {}", n), 1, Box::new(move |p, k| format!("fn t{}() {{ let _ = {}::nb().{}(B(1)); }}", k, p, n)), r, 4));
            }
            if let Some(e) = &f.each {
                let n = e.name.clone();
                v.push((format!("setter {}", n), 1, Box::new(move |p, k| format!("fn e{}() {{ let _ = {}::nb().{}(V::default()); }}", k, p, n)), r, 4));
            }
        }
        if !c.hidden(i) {
            let n = f.name.clone();
            let r = m.field[i];
            v.push((format!("builder field {}", n), 1, Box::new(move |p, k| format!("fn f{}() {{ let b = {}::nb(); let _ = &b.{}; }}", k, p, n)), r, 4));
        }
    }
    v
}

/// Groups of the in-crate scopes, and of the other crate, for one phase; and the library itself.
fn groups(c: &Cfg, id: usize, phase: u8) -> (Group, Group, String) {
    let mut c = c.clone();
    // names of the struct's own field visibility must not matter
    for f in &mut c.f {
        f.svis = "";
    }
    let m = format!("m{}", id);
    let item = c.render(PLAIN).replace("$M", &m);
    let u = uses(&c);
    let scope = |s: usize, path: &str| -> Vec<Seg> {
        let mut v = vec![];
        for (k, (what, ph, code, r, need)) in u.iter().enumerate() {
            // where the types cannot be used, rustc may or may not also refuse their methods
            if *ph == phase && SCOPES[s].1 <= *need {
                let ok = SCOPES[s].1 <= *r;
                v.push(probe(code(path, k + 100 * s), ok, format!("{} from {}", what, SCOPES[s].0)));
            }
        }
        v
    };
    let code = |s: String| Seg::Code(s);
    let b = c.builder();
    let p = format!("crate::{}::p", m);
    let head = format!(
        "pub mod p {{ use mc_rt::*;\n#[derive(::derive_builder::Builder)]\n{}pub type AL = {};\npub fn nb() -> {} {{ <{}>::{}() }}\n",
        item,
        b,
        b,
        b,
        c.create_empty()
    );
    let mut v = vec![code(format!("pub mod {} {{ #[allow(unused_imports)] use mc_rt::*;", m)), code(head.clone())];
    v.extend(scope(0, "self"));
    v.push(code("mod c { #[allow(unused_imports)] use mc_rt::*;".into()));
    v.extend(scope(1, &p));
    v.push(code("} }".into()));
    v.extend(scope(2, &p));
    v.push(code("mod sib { #[allow(unused_imports)] use mc_rt::*;".into()));
    v.extend(scope(3, &p));
    v.push(code("} }".into()));
    v.push(code(format!("pub mod q{} {{ #[allow(unused_imports)] use mc_rt::*;", id)));
    v.extend(scope(4, &p));
    v.push(code("}".into()));
    let mut e = vec![code(format!("pub mod {} {{ #[allow(unused_imports)] use mc_rt::*;", m))];
    e.extend(scope(5, &format!("::thelib::{}::p", m)));
    e.push(code("}".into()));
    let lib = format!("pub mod {} {{ {} }} }}\n", m, head);
    (Group { input: item.clone(), segs: v }, Group { input: item, segs: e }, lib)
}

pub fn probe_scopes(cx: &Ctx, name: &str, cfgs: &[Cfg], rep: &mut Report) {
    let per = (cfgs.len() / (cx.jobs * 2) + 1).clamp(4, 60);
    let head = "#![allow(warnings)]\n";
    // the library, once per chunk
    let chunks: Vec<&[Cfg]> = cfgs.chunks(per).collect();
    let libs = par(cx.jobs, &chunks, |ci, ch| {
        let mut o = String::from(head);
        for (k, c) in ch.iter().enumerate() {
            o.push_str(&groups(c, ci * per + k, 0).2);
        }
        let dir = cx.work.join(format!("{}_{}", name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), ci));
        let _ = std::fs::create_dir_all(&dir);
        let src = dir.join("thelib.rs");
        let out = dir.join("libthelib.rmeta");
        let _ = std::fs::write(&src, &o);
        let co = cx.compile(&cx.rustc_default(Kind::Meta), &src, &out);
        if co.ok {
            Ok(out.display().to_string())
        } else {
            Err(co.diags.iter().find(|d| d.level == "error").map(|d| d.msg.clone()).unwrap_or(co.stderr))
        }
    });
    for (ci, l) in libs.iter().enumerate() {
        if let Err(e) = l {
            rep.violate(format!("the derived code does not compile: {}", e), format!("{}", chunks[ci][0].render(PLAIN)), format!("// kind: none\n// {}", e));
            return;
        }
    }
    for phase in 0..2 {
        let (mut a, mut b) = (vec![], vec![]);
        for (k, c) in cfgs.iter().enumerate() {
            let (x, y, _) = groups(c, k, phase);
            a.push(x);
            b.push(y);
        }
        run_probes(cx, &format!("{}, phase {}, scopes of the crate", name, phase), &a, head, per, &|_| cx.rustc_default(Kind::Meta), rep);
        run_probes(cx, &format!("{}, phase {}, another crate", name, phase), &b, head, per, &|ci| {
            let mut r = cx.rustc_default(Kind::Meta);
            r.externs.push(("thelib".into(), libs[ci].clone().unwrap()));
            r
        }, rep);
    }
}

pub fn collect(sp: Space) -> Vec<Cfg> {
    let mut total = 1;
    let mut i = 0;
    let mut v = vec![];
    while i < total {
        let mut d = Dig { i, tot: 1 };
        let c = sp(&mut d);
        // an early `None` may have seen fewer digits
        total = total.max(d.tot);
        if let Some(c) = c {
            if c.usable() {
                v.push(c);
            }
        }
        i += 1;
    }
    v
}

pub fn c11(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    // 1. who can use what, according to rustc
    let few = all_vis(7);
    let style = |n: &str| -> Vec<FieldCfg> {
        let f = || FieldCfg::new(n, Ty::c());
        vec![
            f(),
            FieldCfg { try_: true, ..f() }.each(&format!("add_{}", n), None),
            FieldCfg { pattern: Some(Pat::Own), into: Some(true), ..f() },
            FieldCfg { custom: Some(true), ..f() },
            FieldCfg { fty: Some(Ty::c()), fbuild: Some(Bld::Std), ..f() }.each(&format!("add_{}", n), None),
            FieldCfg { strip: Some(true), ..FieldCfg::new(n, Ty::o(Ty::c())) },
        ]
    };
    let sa = style("a");
    let mut v = collect(&|d: &mut Dig| {
        let mut s = StructCfg::new();
        s.vis = *d.pick(&SVIS);
        s.bvis = d.pick(&few).clone();
        s.b_vis = d.pick(&few).clone();
        Some(Cfg::new(s, vec![FieldCfg::new("a", Ty::c())]))
    });
    v.extend(collect(&|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(if t { &PATS3 } else { &PATS3[..1] }));
        s.vis = *d.pick(if t { &SVIS } else { &SVIS[..2] });
        s.bvis = d.pick(&few).clone();
        let mut f = d.pick(&sa).clone();
        f.vis = d.pick(&few).clone();
        Some(Cfg::new(s, vec![f, FieldCfg { vis: Vis::Private, ..FieldCfg::new("b", Ty::v()) }]))
    }));
    v.extend(collect(&|d: &mut Dig| {
        let mut s = StructCfg::new();
        s.fvis = d.pick(&few).clone();
        let mut f = d.pick(&sa).clone();
        f.fvis = d.pick(&few).clone();
        Some(Cfg::new(s, vec![f, FieldCfg { fvis: Vis::Ex("pub(super)"), ..FieldCfg::new("b", Ty::v()) }, FieldCfg::new("c", Ty::v())]))
    }));
    // levels must not leak into each other
    v.extend(collect(&|d: &mut Dig| {
        let mut s = StructCfg::new();
        let three = [Vis::No, Vis::Private, Vis::Ex("pub(crate)")];
        s.bvis = d.pick(&three).clone();
        s.b_vis = d.pick(&three).clone();
        s.fvis = d.pick(&three).clone();
        let mut f = sa[1].clone();
        f.vis = d.pick(&three).clone();
        f.fvis = d.pick(&three).clone();
        if !t && [&s.bvis, &s.b_vis, &s.fvis, &f.vis, &f.fvis].iter().filter(|v| ***v == Vis::No).count() < 3 {
            return None;
        }
        Some(Cfg::new(s, vec![f]))
    }));
    probe_scopes(cx, "uses from six scopes", &v, rep);
    // 2. what the generated code says, over the full product of settings at all levels
    let n = if t { 7 } else { 2 };
    let all = all_vis(n);
    let fv = all_vis(if t { 5 } else { 1 });
    let mut st = style("a");
    st.push(FieldCfg { skip: Some(true), ..FieldCfg::new("a", Ty::c()) });
    if !t {
        st = vec![st[1].clone(), st[3].clone(), st[6].clone()];
    }
    tokens(cx, "settings at all levels, as written in the expansion", &|d: &mut Dig| {
        let mut s = StructCfg::new();
        s.vis = *d.pick(&SVIS);
        s.bvis = d.pick(&all).clone();
        s.b_vis = d.pick(&all).clone();
        s.fvis = d.pick(&fv).clone();
        let mut f = d.pick(&st).clone();
        f.vis = d.pick(&all).clone();
        f.fvis = d.pick(&fv).clone();
        let g = FieldCfg { fvis: Vis::Public, vis: Vis::Private, ..FieldCfg::new("b", Ty::v()) };
        Some(Cfg::new(s, vec![f, g, FieldCfg::new("c", Ty::v())]))
    }, rep);
    // 3. likewise for every word at every place of a name or a type, many numbers of fields, and for structs defined by
    // a macro which gets parts of them as fragments
    let vs: Vec<clean::Set> = inter::alphabet().into_iter().filter(|s| inter::VIS.contains(&s.opt)).collect();
    let good = |c: Cfg| if c.usable() && clean::sane(&c) { Some((c, ())) } else { None };
    let judge = |c: &Cfg, _: &(), ts| check_file(c, syn::parse2(ts));
    let w = inter::Words::new(inter::alphabet().into_iter().filter(|s| inter::VIS.contains(&s.opt) && !s.opt.starts_with("g.")).collect(), true);
    inter::compare(cx, "single settings of visibilities x words", w.total(), &|k| w.at(k).and_then(good), &judge, rep);
    let sets = clean::subsets(&vs, if t { 3 } else { 2 });
    let n = crate::frag::KINDS.len() as u64;
    inter::compare(cx, "sets of settings of visibilities x fragments of macros", sets.len() as u64 * n, &|k| {
        let mut c = clean::apply(&vs, &sets[(k / n) as usize]);
        c.s.frag = crate::frag::KINDS[(k % n) as usize];
        crate::frag::pass(&c.render(inter::spell(&c)), c.s.frag)?;
        good(c)
    }, &judge, rep);
    // 4. likewise for all sets of settings of all options, with at least one visibility
    let set = inter::alphabet();
    let t0 = cx.elapsed();
    let p = inter::Plan {
        size: if t { 3 } else { 2 },
        focus: &inter::VIS,
        focus_size: 3,
        ..Default::default()
    };
    let outs = inter::for_sets(cx, &set, &p, || (0u64, 0u64, vec![]), |st, q| {
        let c = clean::apply(&set, q);
        if !(c.usable() && clean::sane(&c)) {
            return;
        }
        let item = c.render(PLAIN);
        st.0 += 1;
        let di: syn::DeriveInput = syn::parse_str(&item).unwrap_or_else(|e| fail(&format!("generated source does not parse: {}", e)));
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| derive_builder_core::builder_for_struct(di))) {
            Ok(t) => check_file(&c, syn::parse2(t)).map(|k| st.1 += k),
            Err(_) => Err("the macro panics".into()),
        };
        if let Err(e) = r {
            st.2.push((q.len(), item, e));
        }
    });
    let (mut n, mut k, mut bad) = (0, 0, vec![]);
    for o in outs {
        n += o.0;
        k += o.1;
        bad.extend(o.2);
    }
    bad.sort();
    for (_, item, e) in bad.iter().take(5) {
        rep.violate(e.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", e.replace('\n', " "), item));
    }
    rep.points += n;
    rep.configs += n;
    rep.expansions += n;
    rep.states += n;
    rep.transitions += k;
    rep.spaces.push(json!({"space": "sets of settings of all options", "configurations": n, "visibilities_compared": k}));
    eprintln!("  sets of settings of all options: {}, {:.1}s", n, cx.elapsed() - t0);
}

/// Reads the visibilities out of the expansion of every point.
fn tokens(cx: &Ctx, name: &str, sp: Space, rep: &mut Report) {
    let t0 = cx.elapsed();
    let total = {
        let mut d = Dig { i: 0, tot: 1 };
        let _ = sp(&mut d);
        d.tot
    };
    let next = AtomicU64::new(0);
    let n = AtomicU64::new(0);
    let items = AtomicU64::new(0);
    let bad: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..cx.jobs {
            s.spawn(|| loop {
                let b = next.fetch_add(64, Ordering::Relaxed);
                if b >= total {
                    break;
                }
                for i in b..(b + 64).min(total) {
                    let c = match sp(&mut Dig { i, tot: 1 }) {
                        Some(c) => c,
                        None => continue,
                    };
                    n.fetch_add(1, Ordering::Relaxed);
                    let item = c.render(PLAIN).replace("$M", "m0");
                    let r = match expand(&item) {
                        Exp::Ok(t) => check_tokens(&c, &t).map(|k| {
                            items.fetch_add(k, Ordering::Relaxed);
                        }),
                        e => Err(format!("the struct is not accepted: {:?}", e)),
                    };
                    if let Err(e) = r {
                        bad.lock().unwrap().push((i, e, item));
                    }
                }
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort();
    for (_, e, item) in bad.iter().take(5) {
        rep.violate(e.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", e.replace('\n', " "), item));
    }
    let n = n.load(Ordering::Relaxed);
    rep.points += total;
    rep.configs += n;
    rep.expansions += n;
    rep.states += n;
    rep.transitions += items.load(Ordering::Relaxed);
    rep.spaces.push(json!({"space": name, "points": total, "configurations": n, "visibilities_compared": items.load(Ordering::Relaxed)}));
    eprintln!("  {}: {:.1}s", name, cx.elapsed() - t0);
}

fn check_tokens(c: &Cfg, text: &str) -> Result<u64, String> {
    check_file(c, syn::parse_file(text))
}
fn check_file(c: &Cfg, file: syn::Result<syn::File>) -> Result<u64, String> {
    let file = file.map_err(|e| format!("the expansion does not parse: {}", e))?;
    let m = model(c);
    let b = c.builder();
    let mut n = 0;
    let mut cmp = |what: &str, v: &syn::Visibility, want: Reach, cap: Reach| {
        n += 1;
        let got = reach_syn(v);
        if got.min(cap) != want.min(cap) {
            Err(format!("{} is `{}`", what, quote::quote!(#v)))
        } else {
            Ok(())
        }
    };
    let names: Vec<String> = c.present_methods();
    let mut found: Vec<String> = vec![];
    for it in &file.items {
        match it {
            syn::Item::Struct(s) if s.ident == b => {
                cmp("the builder", &s.vis, m.builder, 4)?;
                for (i, f) in c.f.iter().enumerate() {
                    if let Some(x) = s.fields.iter().find(|x| x.ident.as_ref().map_or(false, |i| *i == f.name)) {
                        cmp(&format!("builder field {}", f.name), &x.vis, m.field[i], 4)?;
                    } else if !c.hidden(i) {
                        return Err(format!("no builder field {}", f.name));
                    }
                }
            }
            syn::Item::Enum(e) if Some(e.ident.to_string()) == c.error() => cmp("the error type", &e.vis, m.builder, 4)?,
            syn::Item::Impl(im) if im.trait_.is_none() => {
                for x in &im.items {
                    if let syn::ImplItem::Fn(x) = x {
                        let name = x.sig.ident.to_string();
                        found.push(name.clone());
                        if name == c.create_empty() {
                            cmp("the empty constructor", &x.vis, 1, m.builder)?;
                        } else if name == c.build_name() {
                            cmp("the build method", &x.vis, m.build, 4)?;
                        } else {
                            for (i, f) in c.f.iter().enumerate() {
                                if c.has_setter(i) && (name == c.setter_name(i) || name == c.try_name(i) || f.each.as_ref().map_or(false, |e| e.name == name)) {
                                    cmp(&format!("setter {}", name), &x.vis, m.setter[i], 4)?;
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for w in names {
        if !found.contains(&w) {
            return Err(format!("no method {}", w));
        }
    }
    Ok(n)
}
