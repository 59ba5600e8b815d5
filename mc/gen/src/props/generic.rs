//! C13: bounds, generics and Clone.
use super::probes::*;
use super::vis::collect;
use super::*;

/// A shape of a generic struct; `$0`, `$1` are the types its parameters get.
struct Shape {
    decl: &'static str,
    where_: &'static str,
    /// arguments, with $Q for each type
    args: &'static str,
    fields: fn(Ty) -> Vec<(&'static str, Ty)>,
}
fn g(src: &str, t: &Ty) -> Ty {
    Ty::gen(src, t.clone())
}
fn rf(src: &str, t: &Ty) -> Ty {
    Ty { src: src.into(), conc: format!("&'static {}", t.conc), m: mc_rt::T::Rf(leak(t.m)), inner: None }
}
fn ar(src: &str, t: &Ty) -> Ty {
    Ty { src: src.into(), conc: format!("[{}; 2]", t.conc), m: mc_rt::T::Ar(leak(t.m)), inner: None }
}
const SHAPES: [Shape; 20] = [
    Shape { decl: "<X>", where_: "", args: "<$Q>", fields: |t| vec![("a", g("X", &t)), ("b", Ty::v())] },
    Shape { decl: "<X>", where_: "", args: "<$Q>", fields: |t| vec![("a", Ty::o(g("X", &t))), ("b", Ty::v())] },
    Shape { decl: "<X>", where_: "", args: "<$Q>", fields: |t| vec![("a", Ty::vc(g("X", &t))), ("b", g("X", &t))] },
    Shape { decl: "<X: Bnd>", where_: "", args: "<$Q>", fields: |t| vec![("a", g("X", &t)), ("b", Ty::v())] },
    Shape { decl: "<X>", where_: " where X: Bnd", args: "<$Q>", fields: |t| vec![("a", g("X", &t)), ("b", Ty::v())] },
    Shape { decl: "<X>", where_: " where Vec<X>: Sized, Option<X>: Sized,", args: "<$Q>", fields: |t| vec![("a", g("X", &t)), ("b", Ty::v())] },
    Shape { decl: "<X, Y>", where_: "", args: "<$Q, $Q>", fields: |t| vec![("a", g("X", &t)), ("b", Ty::o(g("Y", &t)))] },
    Shape { decl: "<X: Bnd, Y>", where_: " where Y: Bnd", args: "<$Q, $Q>", fields: |t| vec![("a", g("X", &t)), ("b", Ty::bx(g("Y", &t)))] },
    Shape { decl: "<X = P>", where_: "", args: "<$Q>", fields: |t| vec![("a", g("X", &t)), ("b", Ty::v())] },
    Shape { decl: "<X: Bnd = P>", where_: "", args: "<$Q>", fields: |t| vec![("a", g("X", &t)), ("b", Ty::v())] },
    Shape { decl: "<'x, X>", where_: "", args: "<'static, $Q>", fields: |t| vec![("a", rf("&'x X", &t)), ("b", Ty::v())] },
    Shape { decl: "<'x, X: 'x>", where_: "", args: "<'static, $Q>", fields: |t| vec![("a", rf("&'x X", &t)), ("b", g("X", &t))] },
    Shape { decl: "<'x, 'y: 'x>", where_: "", args: "<'static, 'static>", fields: |_| vec![("a", rf("&'x V", &Ty::v())), ("b", rf("&'y V", &Ty::v()))] },
    Shape { decl: "<'x, 'y>", where_: " where 'y: 'x", args: "<'static, 'static>", fields: |_| vec![("a", rf("&'x V", &Ty::v())), ("b", rf("&'y V", &Ty::v()))] },
    Shape { decl: "<const M: usize>", where_: "", args: "<2>", fields: |_| vec![("a", ar("[V; M]", &Ty::v())), ("b", Ty::v())] },
    Shape { decl: "<X, const M: usize>", where_: "", args: "<$Q, 2>", fields: |t| vec![("a", ar("[X; M]", &t)), ("b", g("X", &t))] },
    Shape { decl: "<'x, X: Bnd, Y, const M: usize>", where_: " where Y: Bnd + 'x", args: "<'static, $Q, $Q, 2>", fields: |t| vec![("a", ar("[X; M]", &t)), ("b", rf("&'x Y", &t))] },
    Shape { decl: "<X, Y = X>", where_: "", args: "<$Q, $Q>", fields: |t| vec![("a", g("X", &t)), ("b", g("Y", &t))] },
    Shape { decl: "<X, const M: usize = 2>", where_: "", args: "<$Q, 2>", fields: |t| vec![("a", ar("[X; M]", &t)), ("b", Ty::v())] },
    Shape { decl: "<X: Bnd + Send>", where_: " where X: Sync, Self: Sized", args: "<$Q>", fields: |t| vec![("a", g("X", &t)), ("b", Ty::v())] },
];

pub fn c13(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let mk = |d: &mut Dig, spats: &[Option<Pat>], fpats: &[Option<Pat>], styles: usize| -> Cfg {
        let mut s = StructCfg::pat(*d.pick(spats));
        s.facts = true;
        let sh = d.pick(&SHAPES);
        let fp = [*d.pick(fpats), *d.pick(fpats)];
        let byref = s.pattern != Some(Pat::Own) || fp.iter().any(|p| p.map_or(false, |p| p != Pat::Own));
        // the poorest type that must do
        let ty = if byref { Ty::p() } else { Ty::raw("Q", mc_rt::T::Q) };
        s.gen = Gen { decl: sh.decl.into(), where_: sh.where_.into(), conc: sh.args.replace("$Q", &ty.conc), args: String::new() };
        let mut f: Vec<FieldCfg> = (sh.fields)(ty).into_iter().map(|(n, t)| FieldCfg::new(n, t)).collect();
        for (f, p) in f.iter_mut().zip(fp) {
            f.pattern = p;
        }
        match *d.pick(&(0..styles).collect::<Vec<_>>()) {
            1 => s.s_strip = Some(true),
            2 => f[0].custom = Some(true),
            3 => f[0].skip = Some(true),
            4 => s.error = ErrK::Custom,
            5 => s.b_skip = Some(true),
            6 => s.custom_ctor = true,
            7 => f[0].prefix = Some("with".into()),
            8 => f[0].def = Def::Bare,
            9 => {
                f[1].def = Def::Expr;
                if f[1].ty.m != mc_rt::T::V {
                    f[1].def = Def::No;
                }
            }
            _ => {}
        }
        Cfg::new(s, f)
    };
    // a bare default or a hidden field needs Default of its type: only where the type has it for every parameter
    let fine = |c: &Cfg| {
        c.f.iter().all(|f| !(f.def == Def::Bare || f.skip == Some(true)) || matches!(f.ty.m, mc_rt::T::O(_) | mc_rt::T::Vc(_) | mc_rt::T::V) && !f.ty.src.starts_with('[') && f.ty.src.len() > 1 || f.ty.src == "V")
    };
    explore_space(cx, "shapes of generics x patterns of struct and fields x options", &|d: &mut Dig| {
        let c = mk(d, &PATS, if t { &PATS } else { &PATS3 }, 10);
        if !fine(&c) || (!t && c.f.iter().all(|f| f.pattern.is_some()) && c.f[0].pattern == c.f[1].pattern) {
            return None;
        }
        Some(c)
    }, &Opts { depth: 3, cap: if t { 20_000 } else { 1_500 }, edition: "2021", ..Opts::default() }, rep);
    // Clone exactly when needed, for plain structs
    let kinds = |n: &str| -> Vec<FieldCfg> {
        let f = |t: Ty| FieldCfg::new(n, t);
        vec![f(Ty::v()), f(Ty::n()), FieldCfg { skip: Some(true), ..f(Ty::n()) }, FieldCfg { custom: Some(true), ..f(Ty::v()) }, FieldCfg { fty: Some(Ty::c()), fbuild: Some(Bld::Std), ..f(Ty::n()) }]
    };
    let (ka, kb) = (kinds("a"), kinds("b"));
    explore_space(cx, "Clone: patterns of struct and fields x field kinds x derives", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS));
        s.facts = true;
        s.derive = d.pick(&[vec![], vec!["Debug".to_string()], vec!["PartialEq".to_string(), "Debug".to_string()]]).clone();
        let mut a = d.pick(&ka).clone();
        let mut b = d.pick(&kb).clone();
        a.pattern = *d.pick(&PATS);
        b.pattern = *d.pick(&PATS);
        if !t && a.pattern.is_some() && b.pattern.is_some() && !s.derive.is_empty() {
            return None;
        }
        Some(Cfg::new(s, vec![a, b]))
    }, &Opts { depth: 2, cap: 500, ..Opts::default() }, rep);
    bounds(cx, rep);
    // probes
    let mut cfgs = collect(&|d: &mut Dig| {
        let c = mk(d, &PATS, &PATS, 1);
        Some(c)
    });
    // owned structs with in-place setters must do without Clone
    cfgs.extend(
        SHAPES
            .iter()
            .flat_map(|sh| {
                [(0, false), (1, false), (0, true)].into_iter().map(move |(k, skip)| {
                    let mut s = StructCfg::pat(Some(Pat::Own));
                    let ty = Ty::raw("Q", mc_rt::T::Q);
                    s.gen = Gen { decl: sh.decl.into(), where_: sh.where_.into(), conc: sh.args.replace("$Q", "Q"), args: "mut".into() };
                    let mut f: Vec<FieldCfg> = (sh.fields)(ty).into_iter().map(|(n, t)| FieldCfg::new(n, t)).collect();
                    f[k].pattern = Some(Pat::Mut);
                    s.b_skip = Some(skip);
                    Cfg::new(s, f)
                })
            })
            .collect::<Vec<_>>(),
    );
    let groups: Vec<Group> = cfgs.iter().enumerate().map(|(i, c)| bounds_group(c, i)).collect();
    run_probes(cx, "what the derived items demand of their parameters", &groups, "#![allow(warnings)]\n", 40, &|_| {
        let mut r = cx.rustc_default(Kind::Meta);
        r.edition = "2021";
        r
    }, rep);
}

fn bounds_group(c: &Cfg, id: usize) -> Group {
    let mut s = c.clone();
    s.s.gen.args = String::new();
    let item = s.render(PLAIN);
    let b = c.builder();
    let conc = &c.s.gen.conc;
    let owned_mut = c.s.gen.args == "mut";
    let mut v = vec![Seg::Code(format!("pub mod m{} {{ use mc_rt::*;\n#[derive(::derive_builder::Builder)]\n{}", id, item))];
    let mut p = |code: String, ok: bool, what: &str| v.push(probe(code, ok, what.to_string()));
    let tys = conc.contains('Q') || conc.contains('P');
    let has_bound = c.s.gen.decl.contains("Bnd") || c.s.gen.where_.contains("Bnd");
    let bad = conc.replace('Q', "NoBnd").replace('P', "NoBnd");
    // whatever the struct accepts, the builder type accepts, and nothing else
    p(format!("fn p0(_: &{}{}) {{}}", b, conc.replace('P', "Q")), true, "naming the builder with parameters that are not Clone");
    if tys {
        p(format!("fn p1(_: &{}{}) {{}}", b, bad), !has_bound, "naming the builder with parameters without the declared bound");
    }
    let byref = c.needs_clone() && !owned_mut;
    let clone_conc = conc.replace('Q', "P");
    p(format!("fn p2() {{ need_clone::<{}{}>() }}", b, clone_conc), c.needs_clone(), "cloning the builder");
    if tys {
        p(format!("fn p3() {{ need_clone::<{}{}>() }}", b, conc.replace('P', "Q")), c.needs_clone() && c.f.iter().all(|f| f.ty.src.starts_with("&'x V")), "cloning a builder of parameters that are not Clone");
    }
    p(format!("fn p4() {{ need_default::<{}{}>() }}", b, conc), true, "an empty builder of the poorest parameters");
    if !byref && tys {
        p(format!("fn p5() {{ need_default::<{}{}>() }}", b, conc.replace('P', "Q")), true, "an empty owned builder of the poorest parameters");
    }
    // all methods
    for (i, f) in c.f.iter().enumerate() {
        let e = match c.pat(i) {
            Pat::Own => format!("fn s{}(b: {}{}, x: {}) {{ let _ = b.{}(x); }}", i, b, conc, f.ty.conc, f.name),
            Pat::Mut => format!("fn s{}(mut b: {}{}, x: {}) {{ let _ = b.{}(x); }}", i, b, conc, f.ty.conc, f.name),
            Pat::Imm => format!("fn s{}(b: &{}{}, x: {}) {{ let _ = b.{}(x); }}", i, b, conc, f.ty.conc, f.name),
        };
        p(e, true, &format!("the setter {}", f.name));
    }
    if c.has_build() {
        p(format!("fn bd(b: {}{}) {{ let _: Result<T{}, TBuilderError> = b.build(); }}", b, conc, conc), true, "the build method");
    }
    // inside generic code with only the declared bounds (and Clone where by reference)
    let names: Vec<&str> = c.s.gen.decl.trim_matches(|x| x == '<' || x == '>').split(',').map(|x| x.trim().trim_start_matches("const ").split(|x| x == ':' || x == ' ' || x == '=').next().unwrap()).collect();
    let names = names.join(", ");
    let mut decl = c.s.gen.decl.clone();
    for d in [" = P", " = X", " = 2"] {
        decl = decl.replace(d, "");
    }
    let mut w = c.s.gen.where_.replace(", Self: Sized", "");
    if byref {
        for x in ["X", "Y"] {
            if names.split(", ").any(|n| n == x) {
                w = if w.is_empty() { format!(" where {}: Clone", x) } else { format!("{}, {}: Clone", w.trim_end_matches(','), x) };
            }
        }
    }
    p(format!("fn g0{}(_: &{}<{}>){} {{}}", decl, b, names, c.s.gen.where_.replace(", Self: Sized", "")), true, "naming the builder in generic code");
    p(format!("fn g1{}() -> {}<{}>{} {{ {}::default() }}", decl, b, names, w, b), true, "an empty builder in generic code");
    if c.has_build() {
        p(format!("fn g2{}(b: {}<{}>) -> Result<T<{}>, TBuilderError>{} {{ b.build() }}", decl, b, names, names, w), true, "building in generic code");
    }
    // default parameters
    let dfl = c.s.gen.decl.matches(" = ").count();
    let n = names.split(", ").count();
    if dfl > 0 {
        let mut args: Vec<&str> = conc.trim_matches(|x| x == '<' || x == '>').split(", ").collect();
        args.truncate(n - dfl);
        let a = if args.is_empty() { String::new() } else { format!("<{}>", args.join(", ")) };
        p(format!("fn d0(_: &{}{}) {{}}", b, a), true, "leaving out parameters that have a default");
    }
    v.push(Seg::Code("}".into()));
    Group { input: item, segs: v }
}

/// Bounds of a type parameter; the last ones mention another parameter `X`.
const BOUNDS: [&str; 40] = [
    "",
    "Clone",
    "Send",
    "Copy",
    "Default",
    "'static",
    "Send + 'static",
    "'x",
    "::std::clone::Clone",
    "std::fmt::Debug + std::hash::Hash",
    "Fn(u8) -> u8",
    "FnMut()",
    "FnOnce(u8, u8) + Send + 'static",
    "Fn(&u8) -> &u8",
    "for<'z> Fn(&'z str) -> &'z str",
    "std::ops::Deref<Target = dyn for<'z> Fn(&'z u8) -> Option<u8>>",
    "Iterator<Item = u8>",
    "IntoIterator<Item = Vec<Option<u8>>>",
    "Into<Vec<u8>>",
    "std::convert::AsRef<[u8]>",
    "std::ops::Add<Output = u8>",
    "PartialEq<u8> + PartialOrd<u8>",
    "?Sized",
    "?Sized + 'static",
    "std::io::Read + std::io::Write",
    // traits of the user's that have the names of known ones
    "mc_rt::named::Clone",
    "mc_rt::named::Default + mc_rt::named::Sized",
    "mc_rt::named::Copy + Clone",
    "mc_rt::named::Into<u8>",
    "mc_rt::named::From<u8>",
    "mc_rt::named::Clone + mc_rt::named::Copy + Send",
    "?Sized + mc_rt::named::Clone",
    "mc_rt::named::core::clone::Clone",
    // on the struct
    "PartialEq<Self>",
    "Fn(&Self, u8) -> Vec<Self>",
    // on the first parameter
    "Into<X>",
    "Fn(X) -> Option<X>",
    "Iterator<Item = X>",
    "PartialEq<X>",
    "std::borrow::Borrow<X>",
];
/// (type of the field, fits an unsized parameter, has Default, can be stripped)
const FORMS: [(&str, bool, bool, bool); 14] = [
    ("X", false, false, false),
    ("Option<X>", false, true, true),
    ("Vec<X>", false, true, false),
    ("[X; 2]", false, false, false),
    ("(X, u8)", false, false, false),
    ("Box<X>", false, false, false),
    ("&'x X", true, false, false),
    ("std::marker::PhantomData<X>", true, true, false),
    ("std::rc::Rc<X>", true, false, false),
    ("std::option::Option<&'x X>", true, true, true),
    ("fn(&X) -> u8", true, false, false),
    ("Option<std::sync::Arc<X>>", true, true, true),
    ("Option<std::rc::Rc<(Self, X)>>", false, true, true),
    ("fn(&Self) -> Option<X>", false, false, false),
];
/// A generic struct with uses of its builder in generic code, with the declared bounds and Clone only where values are cloned.
fn generic_item(params: &[(&str, &str)], where_: &[String], fields: &[(String, String)], pattern: &str, opts: &str, clone: bool) -> (String, clean::Item) {
    let decl = |with: bool| {
        let l: Vec<String> = params
            .iter()
            .map(|(n, b)| {
                let b = if with { *b } else { "" };
                let n = if with || !n.starts_with("const ") { n.to_string() } else { n[6..].split(':').next().unwrap().to_string() };
                if b.is_empty() { n } else { format!("{}: {}", n, b) }
            })
            .collect();
        if l.is_empty() { String::new() } else { format!("<{}>", l.join(", ")) }
    };
    let wh = |extra: &[String]| {
        let l: Vec<String> = where_.iter().cloned().chain(extra.iter().cloned()).collect();
        if l.is_empty() { String::new() } else { format!(" where {}", l.join(", ")) }
    };
    let mut text = format!("/// Documented.\n#[derive(::derive_builder::Builder)]\n#[builder({}{}{})]\npub struct T{}{} {{\n", pattern, if pattern.is_empty() || opts.is_empty() { "" } else { ", " }, opts, decl(true), wh(&[]));
    if pattern.is_empty() && opts.is_empty() {
        text = text.replace("#[builder()]\n", "");
    }
    for (i, (ty, o)) in fields.iter().enumerate() {
        let n = ["a", "b", "c"][i];
        text.push_str("    /// Documented.\n");
        if !o.is_empty() {
            text.push_str(&format!("    #[builder({})]\n", o));
        }
        text.push_str(&format!("    pub {}: {},\n", n, ty));
    }
    text.push_str("}\n");
    let cl: Vec<String> = if clone { params.iter().filter(|p| !p.0.starts_with('\'') && !p.0.starts_with("const ")).map(|p| format!("{}: Clone", p.0)).collect() } else { vec![] };
    let (d, n, w, wc) = (decl(true), decl(false), wh(&[]), wh(&cl));
    let mut s = format!("fn u{d}(_: &TBuilder{n}){w} {{}}\nfn e{d}() -> TBuilder{n}{wc} {{ TBuilder{n2}::default() }}\nfn f{d}(b: TBuilder{n}) -> Result<T{n}, TBuilderError>{wc} {{ b.build() }}\n", n2 = if n.is_empty() { String::new() } else { format!("::{}", n) });
    for (i, (ty, o)) in fields.iter().enumerate() {
        if o.contains("skip") || o.contains("custom") {
            continue;
        }
        let f = ["a", "b", "c"][i];
        let x = if o.contains("strip") && ty.contains("Option<") { &ty[ty.find("Option<").unwrap() + 7..ty.len() - 1] } else { ty.as_str() };
        s.push_str(&format!("fn s{f}{d}(mut b: TBuilder{n}, x: {x}){wc} {{ let _ = b.{f}(x); }}\n"));
    }
    let s = s.replace("Self", &format!("T{n}"));
    (text.clone(), clean::Item { text, support: s })
}
/// Structs over all bounds, where they stand, and how the parameter is used; and over all pairs of bounds.
pub fn bound_items(thorough: bool) -> Vec<(String, clean::Item)> {
    let mut v = vec![];
    let pats = [("", true), ("pattern = \"owned\"", false), ("pattern = \"immutable\"", true)];
    let own = |b: &str| b.contains("'x");
    for b in &BOUNDS[..35] {
        for at in 0..3 {
            // inline, in the where clause, or one in each place
            let parts: Vec<&str> = b.splitn(2, " + ").collect();
            let (inl, wh): (String, Vec<String>) = match at {
                0 => (b.to_string(), vec![]),
                1 if b.is_empty() || b.starts_with('?') => continue,
                1 => (String::new(), vec![format!("X: {}", b)]),
                _ if parts.len() < 2 => continue,
                _ => (parts[0].into(), vec![format!("X: {}", parts[1]), "Vec<u8>: Send".into()]),
            };
            for (form, unsized_, dflt, strip) in FORMS {
                if b.starts_with('?') && !unsized_ {
                    continue;
                }
                for (p, clone) in pats {
                    for o in ["", "setter(into)", "setter(strip_option)", "try_setter", "default", "setter(skip)", "setter(custom)", "setter(strip_option, into), try_setter"] {
                        if (o == "default" || o.contains("skip")) && !dflt || o.contains("strip") && !strip {
                            continue;
                        }
                        // the conversion bounds of a borrowed unsized parameter are fine, a by-value one is not there
                        let mut ps: Vec<(&str, &str)> = vec![];
                        if own(b) || form.contains("'x") {
                            ps.push(("'x", ""));
                        }
                        ps.push(("X", &inl));
                        let mut w = wh.clone();
                        if form.contains("'x") && !own(b) {
                            w.push("X: 'x".into());
                        }
                        let mut f = vec![(form.to_string(), o.to_string())];
                        if own(b) && !form.contains("'x") {
                            f.push(("&'x u8".into(), String::new()));
                        }
                        f.push(("u8".into(), String::new()));
                        f.truncate(3);
                        v.push(generic_item(&ps, &w, &f, p, "", clone));
                    }
                }
            }
        }
    }
    // two parameters
    for a in &BOUNDS[..35] {
        for b in BOUNDS {
            for k in 0..if thorough { 4 } else { 2 } {
                let (p, clone) = pats[k & 1];
                let mut ps: Vec<(&str, &str)> = vec![];
                if own(a) || own(b) {
                    ps.push(("'x", ""));
                }
                let mut w = vec![];
                if k < 2 {
                    ps.push(("X", a));
                    ps.push(("Y", b));
                } else {
                    ps.push(("X", if a.starts_with('?') { a } else { "" }));
                    ps.push(("Y", if b.starts_with('?') { b } else { "" }));
                    for (n, x) in [("X", *a), ("Y", b)] {
                        if !x.is_empty() && !x.starts_with('?') {
                            w.push(format!("{}: {}", n, x));
                        }
                    }
                }
                if a.starts_with('?') && b.contains('X') {
                    continue;
                }
                let fa = if a.starts_with('?') { "std::rc::Rc<X>" } else { "X" };
                let fb = if b.starts_with('?') { "Option<std::rc::Rc<Y>>" } else { "Option<Y>" };
                let mut f = vec![(fa.to_string(), String::new()), (fb.to_string(), "setter(strip_option), default".to_string())];
                if own(a) || own(b) {
                    f.push(("&'x u8".into(), String::new()));
                }
                v.push(generic_item(&ps, &w, &f, p, "", clone));
            }
        }
    }
    // kinds of parameters and their order
    let kinds: [(&str, &str, &str); 8] = [
        ("'p", "", "&'p u8"),
        ("'q", "'static", "&'q str"),
        ("X", "", "X"),
        ("Y", "Clone = u8", "Vec<Y>"),
        ("Z", "Fn(u8)", "Z"),
        ("const M: usize", "", "[u8; M]"),
        ("const BB: bool", "", "Flag<BB>"),
        ("W", "?Sized", "std::rc::Rc<W>"),
    ];
    for i in 0..8 {
        for j in 0..8 {
            for k in 0..8 {
                if i == j || j == k || i == k {
                    continue;
                }
                let l = [kinds[i], kinds[j], kinds[k]];
                // lifetimes first, defaults last
                if (1..3).any(|n| l[n].0.starts_with('\'') && !l[n - 1].0.starts_with('\'')) || (0..2).any(|n| l[n].1.contains(" = ")) {
                    continue;
                }
                for (p, clone) in [("", true), ("pattern = \"owned\"", false)] {
                    let has = |x: &str| l.iter().any(|y| y.1.contains(x));
                    let ps: Vec<(&str, &str)> = l.iter().map(|x| (x.0, x.1)).collect();
                    let f: Vec<(String, String)> = l.iter().map(|x| (x.2.to_string(), String::new())).collect();
                    let (text, mut it) = generic_item(&ps, &[], &f, p, "", clone);
                    if has(" = ") {
                        it.support = it.support.replace("Clone = u8", "Clone");
                    }
                    if text.contains("Flag<") {
                        it.text = it.text.replace("Flag<BB>", "mc_rt::Flag<BB>");
                        it.support = it.support.replace("Flag<BB>", "mc_rt::Flag<BB>");
                    }
                    v.push((it.text.clone(), it));
                }
            }
        }
    }
    v
}
/// All of them compile cleanly.
pub fn bounds(cx: &Ctx, rep: &mut Report) {
    let items = bound_items(cx.thorough);
    rep.points += items.len() as u64;
    rep.configs += items.len() as u64;
    rep.expansions += items.len() as u64;
    rep.states += items.len() as u64;
    for e in if cx.thorough { &["2018", "2021", "2024"][..] } else { &["2021"] } {
        clean::lint(cx, "bounds and kinds of parameters x fields x patterns", &items, e, rep);
    }
}
