//! C10: names of the generated API.
use super::*;

pub fn os(l: &[&str]) -> Vec<Option<String>> {
    std::iter::once(None).chain(l.iter().map(|s| Some(s.to_string()))).collect()
}

pub fn c10(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let snames: &[&str] = if t { &["T", "Abc", "r#type", "r#Type", "größe", "__X", "T1", "SomeLongStructName"] } else { &["T", "r#type", "Größe", "X_1"] };
    let bnames = os(if t { &["MyB", "r#fn", "Builder_", "r#Bld", "b", "TBuilderError2", "größer"] } else { &["MyB", "r#fn", "Builder_"] });
    let mnames = os(if t { &["make", "r#try", "create", "new", "finish_", "bauë"] } else { &["make", "r#try"] });
    let cnames = os(if t { &["empty", "r#fn", "new", "build", "__e"] } else { &["empty", "r#fn", "build"] });
    let o = Opts { depth: 1, cap: 1_000, ..Opts::default() };
    explore_space(cx, "struct name x builder name x build name x skip x create_empty x error x constructor", &|d: &mut Dig| {
        let mut s = StructCfg::pat(if t { *d.pick(&PATS3) } else { None });
        s.absent = true;
        s.facts = true;
        s.name = d.pick(snames).to_string();
        s.bname = d.pick(&bnames).clone();
        s.b_name = d.pick(&mnames).clone();
        s.b_skip = *d.pick(&[None, Some(true)]);
        s.create_empty = d.pick(&cnames).clone();
        s.error = d.pick(&[ErrK::No, ErrK::Custom, ErrK::Gen(false), ErrK::Gen(true)]).clone();
        s.custom_ctor = d.bool();
        if !t && (s.custom_ctor && s.create_empty.is_none() || s.error == ErrK::Gen(true) && s.bname.is_none()) {
            return None;
        }
        Some(Cfg::new(s, vec![FieldCfg::new("a", Ty::v())]))
    }, &o, rep);
    let fnames: &[&str] = if t { &["a", "r#type", "_x", "x_", "value", "größe", "r#a", "a1", "with_a", "try_a"] } else { &["a", "r#type", "_x", "value", "r#b"] };
    let pre = os(if t { &["with", "r#in", "_", "p_", "try", "ß"] } else { &["with", "r#in", "_p"] });
    let spre = os(if t { &["set", "r#as", "_", "try"] } else { &["set", "r#as"] });
    let own = os(if t { &["put", "r#match", "_q", "with_put", "set_a", "try_put"] } else { &["put", "r#match"] });
    let each = os(if t { &["add", "r#else", "_add", "each"] } else { &["add", "r#else"] });
    explore_space(cx, "one field: name x prefixes x own name x try_setter x each x presence", &|d: &mut Dig| {
        let mut s = StructCfg::new();
        s.absent = true;
        s.s_prefix = d.pick(&spre).clone();
        s.try_ = d.bool();
        let mut f = FieldCfg::new(*d.pick(fnames), Ty::c());
        f.prefix = d.pick(&pre).clone();
        f.sname = d.pick(&own).clone();
        f.try_ = d.bool();
        if let Some(n) = d.pick(&each) {
            f = f.each(n, None);
        }
        match *d.pick(&[0, 1, 2, 3]) {
            1 => f.custom = Some(true),
            2 => f.skip = Some(true),
            3 => f.into = Some(true),
            _ => {}
        }
        Some(Cfg::new(s, vec![f]))
    }, &o, rep);
    let kinds = |n: &str, all: bool| -> Vec<FieldCfg> {
        let f = || FieldCfg::new(n, Ty::c());
        let mut v = vec![
            f(),
            FieldCfg { prefix: Some(format!("with_{}", unraw(n))), ..f() },
            FieldCfg { sname: Some(format!("put_{}", unraw(n))), ..f() },
            FieldCfg { sname: Some(format!("put_{}", unraw(n))), prefix: Some("with".into()), ..f() },
            FieldCfg { try_: true, ..f() },
            f().each(&format!("add_{}", unraw(n)), None),
            FieldCfg { skip: Some(true), ..f() },
        ];
        if all {
            v.push(FieldCfg { custom: Some(true), ..f() });
            v.push(FieldCfg { word: true, ..f() });
            v.push(FieldCfg { try_: true, prefix: Some("r#in".into()), ..f() }.each(&format!("add_{}", unraw(n)), Some(true)));
        }
        v
    };
    let (ka, kb, kc) = (kinds("a", true), kinds("r#fn", true), kinds("c", false));
    let pats: &[Option<Pat>] = if t { &PATS3 } else { &PATS3[..2] };
    explore_space(cx, "three fields: naming of each x struct prefix x try_setter x skip x pattern", &|d: &mut Dig| {
        let mut s = StructCfg::pat(*d.pick(pats));
        s.absent = true;
        s.s_prefix = d.pick(&os(&["set"])).clone();
        s.try_ = d.bool();
        s.s_skip = *d.pick(&[None, Some(true)]);
        if !t && s.try_ && s.s_skip.is_some() {
            return None;
        }
        Some(Cfg::new(s, vec![d.pick(&ka).clone(), d.pick(&kb).clone(), d.pick(&kc).clone()]))
    }, &o, rep);
}
