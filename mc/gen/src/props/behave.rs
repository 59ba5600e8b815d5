//! Properties decided by exploring the builder's operation sequences.
use super::*;

pub fn all_types() -> Vec<Ty> {
    vec![
        Ty::v(),
        Ty::k(),
        Ty::p(),
        Ty::n(),
        Ty::c(),
        Ty::o(Ty::v()),
        Ty::o(Ty::n()),
        Ty::o(Ty::o(Ty::v())),
        Ty::vc(Ty::v()),
        Ty::bx(Ty::v()),
        Ty::o(Ty::c()),
        Ty::o(Ty::k()),
        Ty::o(Ty::vc(Ty::v())),
        Ty::o(Ty::bx(Ty::v())),
    ]
}
/// Spellings of option types, and types that only look or act like one.
pub fn opt_types() -> Vec<Ty> {
    let mut alias = Ty::raw("OptV", mc_rt::T::O(&mc_rt::T::V));
    alias.conc = "Option<V>".into();
    let mut other = Ty::raw("opt::Option<V>", mc_rt::T::O(&mc_rt::T::V));
    other.conc = "Option<V>".into();
    vec![
        Ty::osp("std::option::Option", Ty::v()),
        Ty::osp("core::option::Option", Ty::v()),
        Ty::osp("::std::option::Option", Ty::v()),
        Ty::osp("::core::option::Option", Ty::v()),
        alias,
        other,
    ]
}
pub const NAMES: [&str; 36] = [
    "a", "value", "new", "item", "converted", "r#type", "f", "s", "error", "field", "default", "clone", "into", "try_into", "extend", "from",
    "fmt", "builder", "r#match", "_x", "x_", "x1", "x11", "b", "ab", "core", "std", "result", "option", "string", "__default", "get_or_insert_with",
    "größe", "r#async", "a_very_long_field_name_that_goes_on_and_on_and_on_to_exceed_any_reasonable_limit", "self_",
];
/// Styles of a settable field, all types and options valid in every pattern.
pub fn styles(n: &str) -> Vec<FieldCfg> {
    let f = |t: Ty| FieldCfg::new(n, t);
    let mut v = vec![
        f(Ty::v()),
        FieldCfg { into: Some(true), ..f(Ty::v()) },
        FieldCfg { strip: Some(true), ..f(Ty::o(Ty::v())) },
        FieldCfg { strip: Some(true), into: Some(true), ..f(Ty::o(Ty::v())) },
        FieldCfg { try_: true, ..f(Ty::v()) },
        FieldCfg { try_: true, strip: Some(true), ..f(Ty::o(Ty::v())) },
        FieldCfg { prefix: Some("with".into()), ..f(Ty::v()) },
        FieldCfg { sname: Some(format!("put_{}", unraw(n))), ..f(Ty::k()) },
    ];
    let add = format!("add_{}", unraw(n));
    v.push(f(Ty::c()).each(&add, None));
    v.push(f(Ty::vc(Ty::v())).each(&add, Some(true)));
    v.push(FieldCfg { strip: Some(true), ..f(Ty::o(Ty::vc(Ty::v()))) }.each(&add, None));
    v.push(FieldCfg { fty: Some(Ty::k()), ..f(Ty::k()) });
    v.push(FieldCfg { fty: Some(Ty::vc(Ty::v())), fbuild: Some(Bld::Std), ..f(Ty::v()) }.each(&add, None));
    v.push(FieldCfg { custom: Some(true), ..f(Ty::v()) });
    v
}
/// Ways a field can get (or lack) its value when unset.
pub fn unset_kinds(n: &str, next: usize) -> Vec<FieldCfg> {
    let f = |t: Ty| FieldCfg::new(n, t);
    vec![
        f(Ty::v()),
        FieldCfg { def: Def::Bare, ..f(Ty::v()) },
        FieldCfg { def: Def::Expr, ..f(Ty::v()) },
        FieldCfg { def: Def::Chk(next), ..f(Ty::v()) },
        FieldCfg { skip: Some(true), ..f(Ty::v()) },
        FieldCfg { skip: Some(true), def: Def::Expr, ..f(Ty::v()) },
        FieldCfg { fbuild: Some(Bld::Std), ..f(Ty::v()) },
        FieldCfg { fty: Some(Ty::k()), ..f(Ty::k()) },
        FieldCfg { custom: Some(true), ..f(Ty::v()) },
        FieldCfg { strip: Some(true), sname: Some(format!("put_{}", unraw(n))), ..f(Ty::o(Ty::v())) },
        FieldCfg { skip: Some(true), def: Def::Bare, ..f(Ty::v()) },
        FieldCfg { custom: Some(true), def: Def::Expr, ..f(Ty::v()) },
        FieldCfg { strip: Some(true), def: Def::Bare, ..f(Ty::o(Ty::v())) },
    ]
}
fn sel<X: Clone>(l: &[X], idx: &[usize]) -> Vec<X> {
    idx.iter().map(|i| l[*i].clone()).collect()
}

pub fn c01(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let mut tys = all_types();
    if t {
        tys.extend(opt_types());
    }
    let o = Opts { depth: 4, cap: if t { 60_000 } else { 6_000 }, ..Opts::default() };
    let small = [Ty::v(), Ty::k(), Ty::o(Ty::v()), Ty::n()];
    explore_space(cx, "three plain fields, types x pattern", &|d: &mut Dig| {
        let s = StructCfg::pat(*d.pick(&PATS));
        let f = ["a", "b", "c"].iter().map(|n| FieldCfg::new(n, d.pick(&small).clone())).collect();
        Some(Cfg::new(s, f))
    }, &o, rep);
    explore_space(cx, "two plain fields, all types x pattern", &|d: &mut Dig| {
        let s = StructCfg::pat(*d.pick(&PATS));
        let f = ["a", "b"].iter().map(|n| FieldCfg::new(n, d.pick(&tys).clone())).collect();
        Some(Cfg::new(s, f))
    }, &o, rep);
    let pats: Vec<_> = if t { PATS.to_vec() } else { vec![None, Some(Pat::Own)] };
    explore_space(cx, "pairs of field names x pattern", &|d: &mut Dig| {
        let s = StructCfg::pat(*d.pick(&pats));
        let (a, b) = (*d.pick(&NAMES), *d.pick(&NAMES));
        if a == b {
            return None;
        }
        Some(Cfg::new(s, vec![FieldCfg::new(a, Ty::v()), FieldCfg::new(b, Ty::v())]))
    }, &Opts { depth: 3, cap: 3_000, ..Opts::default() }, rep);
    let ks: Vec<usize> = if t { (0..=40).chain([64, 100, 130]).collect() } else { (0..=13).chain([17, 33]).collect() };
    explore_space(cx, "number of fields x pattern", &|d: &mut Dig| {
        let s = StructCfg::pat(*d.pick(&PATS));
        let k = *d.pick(&ks);
        let mix = *d.pick(&[0usize, 1, 2]);
        let kinds = [Ty::v(), Ty::k(), Ty::o(Ty::v())];
        Some(Cfg::new(s, (0..k).map(|i| FieldCfg::new(&format!("x{}", i), kinds[(i * mix) % 3].clone())).collect()))
    }, &Opts { depth: 2, cap: 40_000, ..Opts::default() }, rep);
    let (sa, sb, sc) = (styles("a"), styles("b"), styles("c"));
    explore_space(cx, "setter styles of two fields x pattern", &|d: &mut Dig| {
        let s = StructCfg::pat(*d.pick(&PATS));
        Some(Cfg::new(s, vec![d.pick(&sa).clone(), d.pick(&sb).clone()]))
    }, &Opts { depth: 3, cap: if t { 60_000 } else { 3_000 }, ..Opts::default() }, rep);
    if t {
        explore_space(cx, "setter styles of three fields x pattern", &|d: &mut Dig| {
            let s = StructCfg::pat(*d.pick(&PATS));
            Some(Cfg::new(s, vec![d.pick(&sa).clone(), d.pick(&sb).clone(), d.pick(&sc).clone()]))
        }, &Opts { depth: 3, cap: 10_000, ..Opts::default() }, rep);
        explore_space(cx, "long histories of one field", &|d: &mut Dig| {
            let s = StructCfg::pat(*d.pick(&PATS));
            Some(Cfg::new(s, vec![d.pick(&sa).clone()]))
        }, &Opts { depth: 6, cap: 2_000_000, ..Opts::default() }, rep);
    }
}

pub fn c02(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let ix: &[usize] = if t { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[0, 2, 4, 6, 8, 9] };
    let ks: Vec<Vec<FieldCfg>> = ["a", "b", "c", "e"].iter().enumerate().map(|(i, n)| sel(&unset_kinds(n, i + 1), ix)).collect();
    let errs = [ErrK::No, ErrK::Custom, ErrK::Gen(false), ErrK::Gen(true)];
    let o = Opts { depth: 3, cap: if t { 8_000 } else { 1_500 }, ..Opts::default() };
    explore_space(cx, "three fields by how they are filled x struct default x error x pattern", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.sdef = d.pick(&[SD::No, SD::Expr]).clone();
        s.error = d.pick(if t { &errs } else { &errs[..2] }).clone();
        let f: Vec<FieldCfg> = (0..3).map(|i| d.pick(&ks[i]).clone()).collect();
        if matches!(f[2].def, Def::Chk(_)) {
            return None;
        }
        Some(Cfg::new(s, f))
    }, &o, rep);
    let two: Vec<Vec<FieldCfg>> = ["a", "b"].iter().enumerate().map(|(i, n)| unset_kinds(n, i + 1)).collect();
    explore_space(cx, "two fields, all fillings x struct default x error x validation x pattern", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS));
        s.sdef = d.pick(&[SD::No, SD::Bare, SD::Expr]).clone();
        s.error = d.pick(&errs).clone();
        s.validate = if t { d.bool() } else { false };
        let f: Vec<FieldCfg> = (0..2).map(|i| d.pick(&two[i]).clone()).collect();
        if matches!(f[1].def, Def::Chk(_)) || (!t && s.error == ErrK::Gen(true)) {
            return None;
        }
        Some(Cfg::new(s, f))
    }, &Opts { depth: 3, cap: 1_000, ..Opts::default() }, rep);
    explore_space(cx, "names of the missing field x setter naming x error", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.error = d.pick(&errs).clone();
        let n = *d.pick(&NAMES);
        let mut f = FieldCfg::new(n, Ty::v());
        match *d.pick(&[0, 1, 2, 3]) {
            1 => f.prefix = Some("with".into()),
            2 => f.sname = Some("other".into()),
            3 => s.s_prefix = Some("set".into()),
            _ => {}
        }
        let first = d.bool();
        let g = FieldCfg { def: Def::Bare, ..FieldCfg::new("zz", Ty::v()) };
        Some(Cfg::new(s, if first { vec![f, g] } else { vec![g, f] }))
    }, &Opts { depth: 2, cap: 1_000, ..Opts::default() }, rep);
    let n = if t { 14 } else { 8 };
    let pos: Vec<usize> = (0..n).collect();
    explore_space(cx, "positions of two required fields among n", &|d: &mut Dig| {
        let s = StructCfg::pat(*d.pick(&PATS3));
        let (i, j) = (*d.pick(&pos), *d.pick(&pos));
        if i > j {
            return None;
        }
        let f = (0..n)
            .map(|k| {
                let mut f = FieldCfg::new(&format!("x{}", (k * 7) % n), Ty::v());
                if k != i && k != j {
                    f.def = if k % 2 == 0 { Def::Bare } else { Def::Expr };
                }
                f
            })
            .collect();
        Some(Cfg::new(s, f))
    }, &Opts { depth: 2, cap: 2_000, ..Opts::default() }, rep);
}

pub fn c03(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let mk = |n: &str, other: usize| -> Vec<FieldCfg> {
        let mut v = vec![];
        for def in [Def::No, Def::Bare, Def::Expr, Def::Chk(other)] {
            for k in 0..5 {
                let mut f = FieldCfg::new(n, if k >= 3 { Ty::o(Ty::v()) } else { Ty::v() });
                f.def = def.clone();
                match k {
                    1 => f.skip = Some(true),
                    2 => f.custom = Some(true),
                    4 => f.strip = Some(true),
                    _ => {}
                }
                v.push(f);
            }
        }
        v
    };
    let (fa, fb) = (mk("a", 1), mk("b", 0));
    let sds = [SD::No, SD::Bare, SD::Expr, SD::Chk(0), SD::Chk(1)];
    let o = Opts { depth: 3, cap: if t { 10_000 } else { 800 }, ..Opts::default() };
    explore_space(cx, "two fields: default kind x presence x struct default x pattern x validation", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(if t { &PATS } else { &PATS[..2] }));
        s.sdef = d.pick(&sds).clone();
        s.validate = if t { d.bool() } else { false };
        s.error = if t { d.pick(&[ErrK::No, ErrK::Custom]).clone() } else { ErrK::No };
        Some(Cfg::new(s, vec![d.pick(&fa).clone(), d.pick(&fb).clone()]))
    }, &o, rep);
    let three: Vec<Vec<FieldCfg>> = ["a", "b", "c"].iter().enumerate().map(|(i, n)| {
        [Def::No, Def::Expr, Def::Chk((i + 1) % 3), Def::Bare].iter().map(|x| FieldCfg { def: x.clone(), ..FieldCfg::new(n, Ty::v()) }).collect()
    }).collect();
    explore_space(cx, "three fields: default kind x struct default x pattern", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.sdef = d.pick(&[SD::No, SD::Expr, SD::Chk(2)]).clone();
        Some(Cfg::new(s, (0..3).map(|i| d.pick(&three[i]).clone()).collect()))
    }, &Opts { depth: 3, cap: if t { 10_000 } else { 1_500 }, ..Opts::default() }, rep);
    // forms of default expressions; all have the value and the single evaluation of `dv`
    let forms: Vec<String> = [
        "dv(0)", "{ dv(0) }", "let x = dv(0); x", "let x = dv(0); let y = x; y", "if true { dv(0) } else { dv(0) }", "match 1 { _ => dv(0) }", "(|| dv(0))()",
        "loop { break dv(0) }", "fn g<T: Mk>() -> T { dv(0) } g()", "Ok::<_, String>(dv(0))?", "std::convert::identity(dv(0))", "unsafe { dv(0) }",
        "let s = \"};{\"; let _ = s; dv(0)", "use mc_rt::dv as q; q(0)", "let value = dv(0); value", "let __x = 1u8; let _ = __x; dv(0)",
        "const C: u8 = 0; dv(C)", "struct L; let _ = L; dv(0)", "(dv(0))", "let (x, _) = (dv(0), 1); x", "/* c */ dv(0)", "dv(0) as _", "<_ as Mk>::mk(5, { ev(Ev::Def(0)); b'E' })",
    ]
    .iter()
    .map(|s| s.to_string())
    .filter(|s| !s.contains("as _") && !s.starts_with("use mc_rt"))
    .collect();
    let tys = [Ty::v(), Ty::o(Ty::v()), Ty::vc(Ty::v()), Ty::c()];
    for bare in [false, true] {
        explore_space(cx, if bare { "forms of unquoted default expressions" } else { "forms of quoted default expressions" }, &|d: &mut Dig| {
            let mut s = StructCfg::pat(*d.pick(&PATS3));
            s.s_strip = *d.pick(&[None, Some(true)]);
            let mut f = FieldCfg::new("a", d.pick(&tys).clone());
            f.def = Def::Raw(d.pick(&forms).clone(), mc_rt::NoneK::Expr);
            f.skip = *d.pick(&[None, Some(true)]);
            Some(Cfg::new(s, vec![f, FieldCfg::new("b", Ty::v())]))
        }, &Opts { depth: 2, cap: 500, sp: Spell { bare, ..PLAIN }, ..Opts::default() }, rep);
    }
    for bare in [false, true] {
        expr_forms(cx, bare, rep);
    }
    let ks: Vec<usize> = (1..=if t { 20 } else { 8 }).collect();
    explore_space(cx, "number of defaulted fields x struct default", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.sdef = d.pick(&[SD::No, SD::Expr, SD::Bare]).clone();
        let k = *d.pick(&ks);
        let m = *d.pick(&[0usize, 1, 2, 3]);
        let defs = [Def::Expr, Def::Bare, Def::No];
        Some(Cfg::new(s, (0..k).map(|i| FieldCfg { def: defs[(i * m + m) % 3].clone(), ..FieldCfg::new(&format!("x{}", i), Ty::v()) }).collect()))
    }, &Opts { depth: 2, cap: 2_000, ..Opts::default() }, rep);
}

/// Forms of all kinds of expressions that options take.
pub fn expr_forms(cx: &Ctx, bare: bool, rep: &mut Report) {
    let forms: Vec<&'static str> = [
        "{ $E }", "let x = $E; x", "($E)", "if true { $E } else { panic!() }", "match () { () => $E }", "loop { break $E }", "unsafe { $E }", "$E ", " $E",
        "let value = $E; value", "let (x, ()) = ($E, ()); x", "{{ $E }}", "return Ok::<_, String>($E)?; loop {}",
        // only as strings
        "/* { */ $E", "$E // }", "// x\n$E\n", "$E\n// x", "/// x\nlet x = $E; x", "\t$E\r\n", "let _s = \"}\"; $E", "let _s = '}'; $E", "let _s = r#\"\"{\"#; $E", "#[allow(unused)] let x = $E; x", ";$E",
    ]
    .iter()
    .copied()
    .filter(|f| !f.starts_with("return"))
    .filter(|f| !bare || !f.contains(';') && !f.contains('\n') && !f.contains("//"))
    .collect();
    let sds = [SD::No, SD::Expr, SD::Chk(1)];
    let fs: Vec<FieldCfg> = {
        let f = || FieldCfg::new("a", Ty::v());
        let mut v = vec![f(), FieldCfg { def: Def::Expr, ..f() }, FieldCfg { def: Def::Chk(1), ..f() }, FieldCfg { def: Def::Expr, skip: Some(true), ..f() }, FieldCfg { fbuild: Some(Bld::Std), ..f() }, FieldCfg { fbuild: Some(Bld::Chk), ..f() }];
        v.push(FieldCfg { fty: Some(Ty::o(Ty::v())), fbuild: Some(Bld::Std), ..f() });
        v
    };
    explore_space(cx, if bare { "forms of unquoted expressions x option x pattern" } else { "forms of quoted expressions x option x pattern" }, &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.form = *d.pick(&forms);
        s.sdef = d.pick(&sds).clone();
        Some(Cfg::new(s, vec![d.pick(&fs).clone(), FieldCfg::new("b", Ty::v())]))
    }, &Opts { depth: 2, cap: 500, sp: Spell { bare, ..PLAIN }, ..Opts::default() }, rep);
}

pub fn c04(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let st = |n: &str| -> Vec<FieldCfg> {
        let mut v = styles(n);
        v.push(FieldCfg::new(n, Ty::n()));
        v.push(FieldCfg::new(n, Ty::p()));
        v.push(FieldCfg { into: Some(true), strip: Some(true), ..FieldCfg::new(n, Ty::o(Ty::n())) });
        v.push(FieldCfg { try_: true, ..FieldCfg::new(n, Ty::n()) });
        v.push(FieldCfg { skip: Some(true), ..FieldCfg::new(n, Ty::n()) });
        v.push(FieldCfg { skip: Some(true), ..FieldCfg::new(n, Ty::v()) });
        v.push(FieldCfg { def: Def::Expr, ..FieldCfg::new(n, Ty::v()) });
        v
    };
    let (sa, sb, sc) = (st("a"), st("b"), st("c"));
    let one = Opts { depth: if t { 6 } else { 5 }, cap: if t { 400_000 } else { 20_000 }, ..Opts::default() };
    explore_space(cx, "one field: style x struct pattern x field pattern x struct default x validation x derive Clone", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS));
        s.sdef = d.pick(&[SD::No, SD::Expr]).clone();
        s.validate = d.bool();
        let mut f = d.pick(&sa).clone();
        f.pattern = *d.pick(&PATS);
        Some(Cfg::new(s, vec![f]))
    }, &one, rep);
    explore_space(cx, "two fields: style and pattern of each x struct pattern", &|d: &mut Dig| {
        let s = StructCfg::pat(*d.pick(&PATS));
        let (mut a, mut b) = (d.pick(&sa).clone(), d.pick(if t { &sb } else { &sb[..7] }).clone());
        a.pattern = *d.pick(&PATS);
        b.pattern = *d.pick(&PATS);
        Some(Cfg::new(s, vec![a, b]))
    }, &Opts { depth: 3, cap: if t { 10_000 } else { 600 }, max_classes: 40_000, ..Opts::default() }, rep);
    let w: usize = if t { 6 } else { 1 };
    explore_space(cx, "three fields: pattern of each x struct pattern", &|d: &mut Dig| {
        let s = StructCfg::pat(*d.pick(&PATS));
        let (mut a, mut b, mut c) = (d.pick(&sa[..w]).clone(), d.pick(&sb[..w]).clone(), d.pick(&sc[..w]).clone());
        a.pattern = *d.pick(&PATS);
        b.pattern = *d.pick(&PATS);
        c.pattern = *d.pick(&PATS);
        Some(Cfg::new(s, vec![a, b, c]))
    }, &Opts { depth: 3, cap: if t { 4_000 } else { 2_000 }, ..Opts::default() }, rep);
}

pub fn c05(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let mut tys = all_types();
    tys.extend(opt_types());
    explore_space(cx, "one field: into x strip_option at both levels x type x pattern x naming x default", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.s_into = d.tri();
        s.s_strip = d.tri();
        let mut f = FieldCfg::new("a", d.pick(&tys).clone());
        f.into = d.tri();
        f.strip = d.tri();
        f.pattern = *d.pick(&PATS3);
        match *d.pick(&[0, 1, 2]) {
            1 => f.sname = Some("other".into()),
            2 => s.s_prefix = Some("with".into()),
            _ => {}
        }
        f.def = d.pick(&[Def::No, Def::Bare]).clone();
        f.try_ = d.bool();
        Some(Cfg::new(s, vec![f]))
    }, &Opts { depth: if t { 5 } else { 4 }, cap: if t { 20_000 } else { 3_000 }, ..Opts::default() }, rep);
    let two = [Ty::v(), Ty::o(Ty::v()), Ty::o(Ty::o(Ty::v())), Ty::n()];
    explore_space(cx, "two fields: into x strip_option of each and of the struct x types x pattern", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(if t { &PATS3 } else { &PATS3[..2] }));
        s.s_into = d.tri();
        s.s_strip = d.tri();
        let f = ["a", "b"].iter().map(|n| {
            let mut f = FieldCfg::new(n, d.pick(&two).clone());
            f.into = d.tri();
            f.strip = d.tri();
            f
        }).collect();
        Some(Cfg::new(s, f))
    }, &Opts { depth: 3, cap: 2_000, ..Opts::default() }, rep);
    let ft = [Ty::v(), Ty::o(Ty::v()), Ty::c(), Ty::o(Ty::c()), Ty::k(), Ty::vc(Ty::v()), Ty::osp("std::option::Option", Ty::v())];
    explore_space(cx, "custom builder types: into x strip_option at both levels", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.s_into = d.tri();
        s.s_strip = d.tri();
        let ty = d.pick(&ft).clone();
        let mut f = FieldCfg::new("a", ty.clone());
        f.fty = Some(d.pick(&ft).clone());
        f.fbuild = d.pick(&[None, Some(Bld::Std)]).clone();
        f.into = d.tri();
        f.strip = d.tri();
        Some(Cfg::new(s, vec![f]))
    }, &Opts { depth: 3, cap: 2_000, ..Opts::default() }, rep);
}

pub fn c06(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let mut tys = all_types();
    tys.push(Ty::osp("std::option::Option", Ty::v()));
    explore_space(cx, "one field: try_setter at both levels x type x into x strip x pattern x naming x presence", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.try_ = d.bool();
        s.s_strip = *d.pick(&[None, Some(true)]);
        s.s_into = *d.pick(&[None, Some(true)]);
        let mut f = FieldCfg::new(*d.pick(&["a", "r#type", "value", "converted"]), d.pick(&tys).clone());
        f.try_ = d.bool();
        f.into = *d.pick(&[None, Some(true), Some(false)]);
        f.strip = *d.pick(&[None, Some(true), Some(false)]);
        f.pattern = *d.pick(&PATS3);
        match *d.pick(&[0, 1, 2, 3]) {
            1 => f.sname = Some("r#fn".into()),
            2 => f.prefix = Some("with".into()),
            3 => f.vis = Vis::Private,
            _ => {}
        }
        match *d.pick(&[0, 1, 2]) {
            1 => f.skip = Some(true),
            2 => f.custom = Some(true),
            _ => {}
        }
        if !t && f.name != "a" && (f.ty.m != mc_rt::T::V || f.pattern.is_some()) {
            return None;
        }
        Some(Cfg::new(s, vec![f]))
    }, &Opts { depth: if t { 5 } else { 4 }, cap: if t { 20_000 } else { 2_000 }, ..Opts::default() }, rep);
    let two = [Ty::v(), Ty::o(Ty::v()), Ty::n(), Ty::k()];
    explore_space(cx, "two fields: try_setter of each and of the struct x types x patterns", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS));
        s.try_ = d.bool();
        s.s_strip = *d.pick(&[None, Some(true)]);
        let f = ["a", "b"].iter().map(|n| {
            let mut f = FieldCfg::new(n, d.pick(&two).clone());
            f.try_ = d.bool();
            f.pattern = *d.pick(if t { &PATS } else { &PATS[..2] });
            f
        }).collect();
        Some(Cfg::new(s, f))
    }, &Opts { depth: 4, cap: if t { 20_000 } else { 1_500 }, ..Opts::default() }, rep);
    let ft = [Ty::v(), Ty::o(Ty::v()), Ty::c(), Ty::o(Ty::c()), Ty::vc(Ty::v())];
    explore_space(cx, "try_setter with custom builder types and each", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.try_ = d.bool();
        let mut f = FieldCfg::new("a", d.pick(&ft).clone());
        f.try_ = true;
        f.fty = d.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(4)]).map(|i: usize| ft[i].clone());
        f.fbuild = d.pick(&[None, Some(Bld::Std), Some(Bld::Chk)]).clone();
        f.strip = *d.pick(&[None, Some(true)]);
        if d.bool() {
            f = f.each("add", None);
        }
        f.pattern = *d.pick(&PATS);
        Some(Cfg::new(s, vec![f]))
    }, &Opts { depth: 4, cap: if t { 20_000 } else { 1_500 }, ..Opts::default() }, rep);
}

pub fn c07(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let tys = [Ty::c(), Ty::vc(Ty::v()), Ty::o(Ty::c()), Ty::o(Ty::vc(Ty::v())), Ty::osp("std::option::Option", Ty::c())];
    let eis = [None, Some(true), Some(false)];
    explore_space(cx, "one collection: type x each x strip x into x try x pattern x default", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.s_strip = *d.pick(&[None, Some(true)]);
        s.s_into = *d.pick(&[None, Some(true)]);
        let mut f = FieldCfg::new(*d.pick(&["a", "item", "r#type"]), d.pick(&tys).clone());
        f = f.each(*d.pick(&["add", "r#fn"]), *d.pick(&eis));
        f.strip = *d.pick(&[None, Some(true), Some(false)]);
        f.into = *d.pick(&[None, Some(true)]);
        f.try_ = d.bool();
        f.pattern = *d.pick(&PATS3);
        f.def = d.pick(&[Def::No, Def::Bare, Def::Expr]).clone();
        if !t && f.name != "a" && (f.def != Def::No || s.s_into.is_some() || f.try_) {
            return None;
        }
        Some(Cfg::new(s, vec![f]))
    }, &Opts { depth: if t { 5 } else { 4 }, cap: if t { 60_000 } else { 3_000 }, ..Opts::default() }, rep);
    let ft = [Ty::c(), Ty::vc(Ty::v()), Ty::o(Ty::c()), Ty::o(Ty::vc(Ty::v()))];
    explore_space(cx, "collections with custom builder types", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.s_strip = *d.pick(&[None, Some(true)]);
        let mut f = FieldCfg::new("a", d.pick(&[Ty::v(), Ty::c(), Ty::vc(Ty::v()), Ty::o(Ty::c())]).clone());
        f.fty = Some(d.pick(&ft).clone());
        f.fbuild = d.pick(&[None, Some(Bld::Std), Some(Bld::Chk)]).clone();
        f = f.each("add", *d.pick(&eis));
        f.strip = *d.pick(&[None, Some(true), Some(false)]);
        f.into = *d.pick(&[None, Some(true)]);
        f.try_ = d.bool();
        f.pattern = *d.pick(&PATS3);
        Some(Cfg::new(s, vec![f]))
    }, &Opts { depth: 4, cap: if t { 20_000 } else { 2_000 }, ..Opts::default() }, rep);
    explore_space(cx, "two collections and a plain field", &|d: &mut Dig| {
        let s = StructCfg::pat(*d.pick(&PATS3));
        let mut f: Vec<FieldCfg> = ["a", "b"].iter().map(|n| {
            let ty = d.pick(&tys[..4]).clone();
            let strip = ty.inner.is_some();
            let mut f = FieldCfg::new(n, ty).each(&format!("add_{}", n), *d.pick(&eis[..2]));
            if strip {
                f.strip = Some(true);
            }
            f.custom = *d.pick(&[None, Some(false)]);
            f
        }).collect();
        f.push(FieldCfg { def: d.pick(&[Def::No, Def::Bare]).clone(), ..FieldCfg::new("c", Ty::v()) });
        Some(Cfg::new(s, f))
    }, &Opts { depth: 4, cap: if t { 60_000 } else { 10_000 }, ..Opts::default() }, rep);
}

pub fn c08(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let (fa, fb) = (unset_kinds("a", 1), unset_kinds("b", 0));
    let errs = [ErrK::No, ErrK::Custom, ErrK::Gen(true)];
    explore_space(cx, "validation x two fields by how they are filled x struct default x error x pattern", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.validate = true;
        s.vpath = if t { *d.pick(&["vld", "Self::vld", "self::d::vld"]) } else { "vld" };
        s.sdef = d.pick(&[SD::No, SD::Expr, SD::Chk(0)]).clone();
        s.error = d.pick(if t { &errs } else { &errs[..2] }).clone();
        Some(Cfg::new(s, vec![d.pick(&fa).clone(), d.pick(&fb).clone()]))
    }, &Opts { depth: 3, cap: if t { 6_000 } else { 700 }, ..Opts::default() }, rep);
    let sa = styles("a");
    explore_space(cx, "validation x setter style x patterns x path x build name", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS));
        s.validate = d.bool();
        s.vpath = *d.pick(&["vld", "Self::vld", "self::d::vld"]);
        if !s.validate && s.vpath != "vld" {
            return None;
        }
        s.error = d.pick(&errs).clone();
        s.b_name = d.pick(&[None, Some("make".to_string()), Some("r#try".to_string())]).clone();
        s.b_skip = *d.pick(&[None, Some(false)]);
        let mut f = d.pick(&sa).clone();
        f.pattern = *d.pick(&PATS3);
        Some(Cfg::new(s, vec![f]))
    }, &Opts { depth: if t { 4 } else { 3 }, cap: if t { 10_000 } else { 1_000 }, ..Opts::default() }, rep);
    let ks: Vec<usize> = (0..=if t { 20 } else { 6 }).collect();
    explore_space(cx, "validation x number of fields", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS));
        s.validate = true;
        s.error = d.pick(&errs).clone();
        let k = *d.pick(&ks);
        Some(Cfg::new(s, (0..k).map(|i| FieldCfg::new(&format!("x{}", i), Ty::v())).collect()))
    }, &Opts { depth: 3, cap: 3_000, ..Opts::default() }, rep);
}

pub fn c09(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    explore_space(cx, "one field: every combination of setter sub-options x struct skip x defaults", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.absent = true;
        s.s_skip = d.tri();
        s.sdef = d.pick(&[SD::No, SD::Expr]).clone();
        s.try_ = d.bool();
        s.s_prefix = d.pick(&[None, Some("get".to_string())]).clone();
        let mut f = FieldCfg::new("a", d.pick(&[Ty::v(), Ty::o(Ty::c()), Ty::c()]).clone());
        f.word = d.bool();
        f.skip = d.tri();
        f.custom = d.tri();
        f.prefix = d.pick(&[None, Some("with".to_string())]).clone();
        f.sname = d.pick(&[None, Some("other".to_string())]).clone();
        f.into = d.tri();
        f.strip = d.tri();
        if d.bool() {
            f = f.each("add", None);
        }
        f.def = d.pick(&[Def::No, Def::Bare, Def::Expr]).clone();
        f.pattern = if t { *d.pick(&PATS3) } else { None };
        Some(Cfg::new(s, vec![f]))
    }, &Opts { depth: if t { 4 } else { 3 }, cap: if t { 10_000 } else { 500 }, ..Opts::default() }, rep);
    let k = |n: &str| -> Vec<FieldCfg> {
        let f = || FieldCfg::new(n, Ty::v());
        vec![
            f(),
            FieldCfg { word: true, ..f() },
            FieldCfg { skip: Some(true), ..f() },
            FieldCfg { skip: Some(false), ..f() },
            FieldCfg { custom: Some(true), ..f() },
            FieldCfg { custom: Some(false), ..f() },
            FieldCfg { into: Some(false), ..f() },
            FieldCfg { strip: Some(false), ..f() },
            FieldCfg { skip: Some(true), into: Some(true), ..f() },
            FieldCfg { skip: Some(true), custom: Some(false), ..f() },
            FieldCfg { skip: Some(true), custom: Some(true), def: Def::Expr, ..f() },
            FieldCfg { skip: Some(false), custom: Some(true), ..f() },
            FieldCfg { skip: Some(true), pattern: Some(Pat::Own), ..f() },
            FieldCfg { try_: true, ..f() },
        ]
    };
    let (ka, kb) = (k("a"), k("b"));
    explore_space(cx, "two fields: presence of each x struct skip x struct default x pattern x validation", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.absent = true;
        s.s_skip = d.tri();
        s.sdef = d.pick(&[SD::No, SD::Expr]).clone();
        s.validate = if t { d.bool() } else { false };
        Some(Cfg::new(s, vec![d.pick(&ka).clone(), d.pick(&kb).clone()]))
    }, &Opts { depth: 3, cap: if t { 5_000 } else { 400 }, ..Opts::default() }, rep);
}

pub fn c12(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let ft = [Ty::v(), Ty::k(), Ty::o(Ty::v()), Ty::c(), Ty::o(Ty::c()), Ty::vc(Ty::v()), Ty::bx(Ty::v()), Ty::n(), Ty::o(Ty::k()), Ty::o(Ty::o(Ty::v()))];
    explore_space(cx, "one field: target type x builder type x build expression x setter options x pattern", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.s_strip = *d.pick(&[None, Some(true)]);
        s.sdef = d.pick(&[SD::No, SD::Expr]).clone();
        let mut f = FieldCfg::new("a", d.pick(&ft).clone());
        f.fty = d.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7), Some(8), Some(9)]).map(|i: usize| ft[i].clone());
        f.fbuild = d.pick(&[None, Some(Bld::Std), Some(Bld::Chk)]).clone();
        f.into = *d.pick(&[None, Some(true)]);
        f.strip = *d.pick(&[None, Some(true), Some(false)]);
        f.try_ = d.bool();
        if d.bool() {
            f = f.each("add", None);
        }
        f.custom = *d.pick(&[None, Some(true)]);
        f.pattern = if t { *d.pick(&PATS3) } else { None };
        if !t && f.fty.is_none() && f.fbuild.is_none() {
            return None;
        }
        if !t && f.fbuild == Some(Bld::Chk) && (f.try_ || f.each.is_some() || f.into.is_some()) {
            return None;
        }
        Some(Cfg::new(s, vec![f]))
    }, &Opts { depth: if t { 4 } else { 3 }, cap: if t { 10_000 } else { 700 }, ..Opts::default() }, rep);
    let ka = |n: &str| -> Vec<FieldCfg> {
        let f = |t: Ty| FieldCfg::new(n, t);
        vec![
            f(Ty::v()),
            FieldCfg { def: Def::Expr, ..f(Ty::v()) },
            FieldCfg { skip: Some(true), ..f(Ty::v()) },
            FieldCfg { fbuild: Some(Bld::Std), ..f(Ty::v()) },
            FieldCfg { fbuild: Some(Bld::Chk), ..f(Ty::v()) },
            FieldCfg { fty: Some(Ty::k()), ..f(Ty::k()) },
            FieldCfg { fty: Some(Ty::vc(Ty::v())), fbuild: Some(Bld::Chk), ..f(Ty::v()) },
            FieldCfg { fty: Some(Ty::o(Ty::v())), fbuild: Some(Bld::Std), strip: Some(true), ..f(Ty::v()) },
            FieldCfg { fty: Some(Ty::n()), ..f(Ty::n()) },
        ]
    };
    let (fa, fb) = (ka("a"), ka("b"));
    explore_space(cx, "two fields: custom x custom x struct default x validation x error x pattern", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.sdef = d.pick(&[SD::No, SD::Expr]).clone();
        s.validate = d.bool();
        s.error = d.pick(&[ErrK::No, ErrK::Custom]).clone();
        Some(Cfg::new(s, vec![d.pick(&fa).clone(), d.pick(&fb).clone()]))
    }, &Opts { depth: 3, cap: if t { 6_000 } else { 800 }, ..Opts::default() }, rep);
}

pub fn c20(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let all = |n: &str| -> Vec<FieldCfg> {
        let mut v = styles(n);
        v.extend(unset_kinds(n, 0).into_iter().skip(1).filter(|f| !matches!(f.def, Def::Chk(_))));
        v.push(FieldCfg { pattern: Some(Pat::Own), ..FieldCfg::new(n, Ty::v()) });
        v.push(FieldCfg { pattern: Some(Pat::Imm), ..FieldCfg::new(n, Ty::v()) });
        v.push(FieldCfg { pattern: Some(Pat::Mut), ..FieldCfg::new(n, Ty::v()) });
        v.push(FieldCfg { word: true, ..FieldCfg::new(n, Ty::v()) });
        v.push(FieldCfg { into: Some(false), strip: Some(false), ..FieldCfg::new(n, Ty::o(Ty::v())) });
        v.push(FieldCfg::new(n, Ty::o(Ty::v())));
        v
    };
    let (fa, fb, fc) = (all("a"), all("b"), all("c"));
    let structs: Vec<StructCfg> = {
        let s = StructCfg::new;
        vec![
            s(),
            StructCfg { pattern: Some(Pat::Own), ..s() },
            StructCfg { s_into: Some(true), s_strip: Some(true), ..s() },
            StructCfg { try_: true, sdef: SD::Expr, ..s() },
            StructCfg { s_skip: Some(true), ..s() },
            StructCfg { s_prefix: Some("set".into()), pattern: Some(Pat::Imm), validate: true, ..s() },
        ]
    };
    explore_space(cx, "two fields: all field variants x all field variants x struct options", &|d: &mut Dig| {
        let s = d.pick(if t { &structs } else { &structs[..3] }).clone();
        Some(Cfg::new(s, vec![d.pick(&fa).clone(), d.pick(&fb).clone()]))
    }, &Opts { depth: 3, cap: if t { 5_000 } else { 500 }, ..Opts::default() }, rep);
    let few: Vec<usize> = if t { (0..fa.len()).step_by(2).collect() } else { vec![1, 3, 9, 12, 17] };
    let (ga, gb, gc) = (sel(&fa, &few), sel(&fb, &few), sel(&fc, &few));
    explore_space(cx, "three fields: variants in every order x struct options", &|d: &mut Dig| {
        let s = d.pick(if t { &structs } else { &structs[..2] }).clone();
        let mut f = vec![d.pick(&ga).clone(), d.pick(&gb).clone(), d.pick(&gc).clone()];
        let r = *d.pick(&[0usize, 1, 2]);
        f.rotate_left(r);
        Some(Cfg::new(s, f))
    }, &Opts { depth: 3, cap: if t { 3_000 } else { 600 }, ..Opts::default() }, rep);
    // a field in a crowd: position x variant x crowd size
    let ks: Vec<usize> = if t { vec![1, 2, 4, 8, 16, 32] } else { vec![1, 5, 12] };
    explore_space(cx, "one field variant among n plain siblings", &|d: &mut Dig| {
        let s = d.pick(&structs[..2]).clone();
        let k = *d.pick(&ks);
        let p = *d.pick(&[0usize, 1, 2]);
        let v = d.pick(&fa).clone();
        let mut f: Vec<FieldCfg> = (0..k).map(|i| FieldCfg::new(&format!("x{}", i), Ty::v())).collect();
        f.insert(p * k / 2, v);
        Some(Cfg::new(s, f))
    }, &Opts { depth: 2, cap: 1_500, ..Opts::default() }, rep);
}

pub fn c21(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let mut ks = styles("a");
    ks.extend(unset_kinds("a", 0).into_iter().skip(1).filter(|f| !matches!(f.def, Def::Chk(_))));
    ks.push(FieldCfg::new("a", Ty::p()));
    ks.push(FieldCfg { fty: Some(Ty::c()), ..FieldCfg::new("a", Ty::c()) });
    ks.push(FieldCfg { fty: Some(Ty::c()), fbuild: Some(Bld::Std), ..FieldCfg::new("a", Ty::v()) });
    ks.push(FieldCfg { fty: Some(Ty::bx(Ty::v())), fbuild: Some(Bld::Std), ..FieldCfg::new("a", Ty::p()) });
    let kb: Vec<FieldCfg> = vec![
        FieldCfg::new("b", Ty::v()),
        FieldCfg { fty: Some(Ty::c()), fbuild: Some(Bld::Std), ..FieldCfg::new("b", Ty::v()) },
        FieldCfg { skip: Some(true), ..FieldCfg::new("b", Ty::v()) },
    ];
    explore_space(cx, "constructors x field kinds x pattern x struct default x validation", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(&PATS3));
        s.custom_ctor = d.bool();
        s.create_empty = d.pick(&[None, Some("empty".to_string()), Some("r#fn".to_string()), Some("new".to_string())]).clone();
        s.sdef = d.pick(&[SD::No, SD::Expr]).clone();
        s.validate = d.bool();
        s.b_skip = *d.pick(&[None, Some(true)]);
        s.facts = true;
        if !t && s.validate && s.sdef != SD::No {
            return None;
        }
        let k = *d.pick(&[0usize, 1, 2, 3]);
        let a = d.pick(&ks).clone();
        let f = if k == 3 { vec![a] } else { vec![a, kb[k].clone()] };
        if s.create_empty.as_deref() == Some("new") && f.len() == 1 && !t {
            return None;
        }
        if !t && k != 3 && s.create_empty.is_some() {
            return None;
        }
        Some(Cfg::new(s, f))
    }, &Opts { depth: 2, cap: if t { 2_000 } else { 150 }, ..Opts::default() }, rep);
}
