//! C14: the contract of the build error type.
use super::behave::unset_kinds;
use super::names::os;
use super::probes::*;
use super::vis::collect;
use super::*;
use serde_json::json;

pub fn c14(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let errs = [ErrK::No, ErrK::Custom, ErrK::Gen(false), ErrK::Gen(true)];
    let (fa, fb) = (unset_kinds("a", 1), unset_kinds("b", 0));
    let bsel: Vec<usize> = if t { (0..fb.len()).collect() } else { vec![0, 1, 4] };
    explore_space(cx, "error kind x no_std x validation x build x pattern x struct default x field kinds", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.facts = true;
        s.error = d.pick(&errs).clone();
        s.no_std = d.bool();
        s.validate = d.bool();
        s.sdef = d.pick(&[SD::No, SD::Chk(0)]).clone();
        s.b_skip = *d.pick(&[None, Some(true), Some(false)]);
        let a = d.pick(&fa).clone();
        let b = fb[*d.pick(&bsel)].clone();
        if !t && (s.b_skip == Some(true) && s.validate || s.b_skip == Some(false) && s.no_std) {
            return None;
        }
        Some(Cfg::new(s, vec![a, b]))
    }, &Opts { depth: 2, cap: if t { 3_000 } else { 150 }, max_classes: if t { 100_000 } else { 100_000 }, ..Opts::default() }, rep);
    // error expressions of custom fields and defaults
    explore_space(cx, "failing build expressions x error kind x names", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.facts = true;
        s.error = d.pick(&errs).clone();
        s.no_std = d.bool();
        s.bname = d.pick(&os(&["MyB", "r#fn"])).clone();
        s.validate = d.bool();
        s.vis = *d.pick(&["pub ", "pub(crate) ", ""]);
        let f = |n: &str| vec![
            FieldCfg::new(n, Ty::v()),
            FieldCfg { fbuild: Some(Bld::Chk), ..FieldCfg::new(n, Ty::v()) },
            FieldCfg { fty: Some(Ty::k()), fbuild: Some(Bld::Chk), ..FieldCfg::new(n, Ty::v()) },
            FieldCfg { fty: Some(Ty::o(Ty::v())), fbuild: Some(Bld::Chk), ..FieldCfg::new(n, Ty::v()) },
        ];
        Some(Cfg::new(s, vec![d.pick(&f("a")).clone(), d.pick(&f("r#b")[..if t { 4 } else { 2 }]).clone()]))
    }, &Opts { depth: 3, cap: if t { 3_000 } else { 200 }, ..Opts::default() }, rep);
    // what can be written about the error type
    let cfgs = collect(&|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.error = d.pick(&errs).clone();
        s.no_std = d.bool();
        s.bname = d.pick(&os(&["MyB", "r#fn"])).clone();
        s.b_skip = *d.pick(&[None, Some(true)]);
        s.validate = d.bool();
        s.derive = d.pick(&[vec![], vec!["Debug".to_string()]]).clone();
        Some(Cfg::new(s, vec![FieldCfg::new("a", Ty::v())]))
    });
    let groups: Vec<Group> = cfgs.iter().enumerate().map(|(i, c)| err_group(c, i)).collect();
    run_probes(cx, "uses of the error type", &groups, "#![allow(warnings)]\n", 40, &|_| cx.rustc_default(Kind::Meta), rep);
    custom_errors(cx, rep);
    public_error(rep);
}

fn err_group(c: &Cfg, id: usize) -> Group {
    let item = c.render(PLAIN);
    let mut v = vec![Seg::Code(format!("pub mod m{} {{ use mc_rt::*;\n#[derive(::derive_builder::Builder)]\n{}", id, item))];
    let mut p = |code: String, ok: bool, what: &str| v.push(probe(code, ok, what.to_string()));
    let b = c.builder();
    let e = c.error().unwrap_or(format!("{}Error", unraw(&b)));
    let gen = c.error().is_some();
    let val = gen && c.vld_err();
    if gen {
        p(format!("fn a0() -> {} {{ {}::UninitializedField(\"x\") }}", e, e), true, "naming UninitializedField");
        p(format!("fn a1() -> {} {{ {}::ValidationError(String::new()) }}", e, e), val, "naming ValidationError");
        p(format!("fn a2(e: {}) -> &'static str {{ match e {{ {}::UninitializedField(s) => s, _ => \"\" }} }}", e, e), true, "reading the field name");
        p(format!("fn a3(e: {}) -> String {{ match e {{ {}::ValidationError(s) => s, _ => String::new() }} }}", e, e), val, "reading the message");
        if val {
            p(format!("fn a4(e: {}) {{ match e {{ {}::ValidationError(_) => (), {}::UninitializedField(_) => () }} }}", e, e, e), true, "the variants are all there are");
        } else {
            p(format!("fn a4(e: {}) {{ match e {{ {}::UninitializedField(_) => () }} }}", e, e), true, "the variant is the only one");
        }
        p(format!("fn a5(s: String) -> {} {{ s.into() }}", e), val, "converting a String");
        p(format!("fn a6(s: ::derive_builder::UninitializedFieldError) -> {} {{ s.into() }}", e), true, "converting a missing-field error");
        p(format!("fn a7(e: {}) -> Box<dyn std::error::Error + Send + Sync> {{ e.into() }}", e), !c.s.no_std, "boxing as std's Error");
        p(format!("fn a8(e: {}) -> String {{ format!(\"{{}} {{:?}}\", e, e) }}", e), true, "formatting");
    }
    let en = if gen { e.clone() } else { "CErr".into() };
    if c.has_build() {
        let recv = if c.strukt_pat() == Pat::Own { "" } else { "&" };
        p(format!("fn b0(b: {}{}) -> Result<T, {}> {{ b.{}() }}", recv, b, en, c.build_name()), true, "the result type of build");
    }
    v.push(Seg::Code(if c.s.validate { format!("fn vld(_: &{}) -> Result<(), String> {{ Ok(()) }} }}", b) } else { "}".into() }));
    Group { input: item, segs: v }
}

/// A custom error needs no more than the conversions that can happen.
fn custom_errors(cx: &Ctx, rep: &mut Report) {
    let mut groups = vec![];
    let impls = [("", false), ("impl From<::derive_builder::UninitializedFieldError> for E { fn from(_: ::derive_builder::UninitializedFieldError) -> E { E } }", true)];
    let verr = ["String", "V", "&'static str", "std::fmt::Error"];
    for pat in ["owned", "mutable", "immutable"] {
        for (ui, (uimpl, has_u)) in impls.iter().enumerate() {
            for (vi, ve) in std::iter::once(&"").chain(verr.iter()).enumerate() {
                for vimpl in [false, true] {
                    for kind in 0..4 {
                        // the only field: required, own default, struct default, hidden
                        let (sopt, fopt) = match kind {
                            0 => ("", "".to_string()),
                            1 => ("", "#[builder(default)] ".into()),
                            2 => ("default, ", "".into()),
                            _ => ("", "#[builder(setter(skip))] ".into()),
                        };
                        if vi == 0 && vimpl {
                            continue;
                        }
                        let val = if vi > 0 { ", validate = \"vld\"" } else { "" };
                        let item = format!("#[builder({}pattern = \"{}\", build_fn(error = \"E\"{}))]\npub struct T {{ {}pub a: V }}\n", sopt, pat, val, fopt);
                        let ok = (kind != 0 || *has_u) && (vi == 0 || vimpl);
                        let id = groups.len();
                        let mut segs = vec![Seg::Code(format!("pub mod m{} {{ use mc_rt::*; pub struct E;", id))];
                        segs.push(Seg::Code(uimpl.to_string()));
                        if vi > 0 {
                            segs.push(Seg::Code(format!("fn vld(_: &TBuilder) -> Result<u8, {}> {{ Ok(1) }}", ve)));
                            if vimpl {
                                segs.push(Seg::Code(format!("impl From<{}> for E {{ fn from(_: {}) -> E {{ E }} }}", ve, ve)));
                            }
                        }
                        if kind == 2 {
                            segs.push(Seg::Code("impl Default for T { fn default() -> T { T { a: V::default() } } }".into()));
                        }
                        segs.push(probe(format!("#[derive(::derive_builder::Builder)] {}", item), ok, format!("a custom error {} the conversions it needs", if ok { "with" } else { "without" })));
                        segs.push(Seg::Code("}".into()));
                        let _ = ui;
                        groups.push(Group { input: item, segs });
                    }
                }
            }
        }
    }
    // refusing is rustc's and the user's business: only what must be accepted is judged
    groups.retain(|g| g.segs.iter().all(|s| if let Seg::Probe(p) = s { p.ok } else { true }));
    // generated errors accept what the user converts
    for pat in ["owned", "mutable", "immutable"] {
        for (ve, imp) in [("String", ""), ("V", "impl From<V> for TBuilderError { fn from(v: V) -> Self { TBuilderError::ValidationError(v.n.to_string()) } }"), ("TBuilderError", "")] {
            let item = format!("#[builder(pattern = \"{}\", build_fn(validate = \"vld\"))]\npub struct T {{ pub a: V }}\n", pat);
            let segs = vec![
                Seg::Code(format!("pub mod m{} {{ use mc_rt::*; {} fn vld(_: &TBuilder) -> Result<(), {}> {{ Ok(()) }}", groups.len(), imp, ve)),
                probe(format!("#[derive(::derive_builder::Builder)] {}", item), true, format!("validation failing with {}", ve)),
                Seg::Code("}".into()),
            ];
            groups.push(Group { input: item, segs });
        }
    }
    run_probes(cx, "demands on custom errors", &groups, "#![allow(warnings)]\n", 40, &|_| cx.rustc_default(Kind::Meta), rep);
}

/// The public missing-field error, for all field names of up to three characters of a small alphabet.
fn public_error(rep: &mut Report) {
    use derive_builder::UninitializedFieldError as U;
    let al = ["", "a", "r#", "_", "`", "{}", "ß", " ", "\n", "%s"];
    let mut n = 0u64;
    for a in al {
        for b in al {
            for c in al {
                let s: &'static str = leaks(&format!("{}{}{}", a, b, c));
                n += 1;
                let e = [U::new(s), U::from(s), s.into(), U::new(s).clone()];
                for e in e {
                    let dynamic: &dyn std::error::Error = &e;
                    if e.field_name() != s || dynamic.to_string() != format!("Field not initialized: {}", s) || !format!("{:?}", e).contains(&format!("{:?}", s)) {
                        rep.violate(format!("the missing-field error of {:?} is {:?} / {}", s, e, e), s.to_string(), format!("// kind: none\n// UninitializedFieldError::new({:?})", s));
                    }
                }
            }
        }
    }
    rep.states += n;
    rep.transitions += n * 4;
    rep.traces += n * 4;
    rep.spaces.push(json!({"space": "names in the public missing-field error", "points": n}));
}
