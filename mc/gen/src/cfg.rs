//! Configurations of `#[derive(Builder)]`: every option of the macro as data, rendering to source text in any
//! equivalent spelling, and the model: what the derived builder must be, computed from the configuration alone
//! (independently of the macro's code).
use mc_rt::{Conv, NoneK, Pat, SDef, Slot, T};
use std::fmt::Write;

pub fn leak<X: 'static>(x: X) -> &'static X {
    Box::leak(Box::new(x))
}
pub fn leaks(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// A field type: source spelling, its spelling for the concrete instance, its model.
#[derive(Clone, Debug, PartialEq)]
pub struct Ty {
    pub src: String,
    pub conc: String,
    pub m: T,
    /// the argument, if spelled as `Option<..>`
    pub inner: Option<Box<Ty>>,
}
impl Ty {
    pub fn raw(src: &str, m: T) -> Ty {
        Ty { src: src.into(), conc: src.into(), m, inner: None }
    }
    pub fn v() -> Ty {
        Ty::raw("V", T::V)
    }
    pub fn n() -> Ty {
        Ty::raw("N", T::N)
    }
    pub fn k() -> Ty {
        Ty::raw("K", T::K)
    }
    pub fn p() -> Ty {
        Ty::raw("P", T::P)
    }
    pub fn c() -> Ty {
        Ty::raw("Coll", T::C)
    }
    pub fn vc(t: Ty) -> Ty {
        Ty { src: format!("Vec<{}>", t.src), conc: format!("Vec<{}>", t.conc), m: T::Vc(leak(t.m)), inner: None }
    }
    pub fn bx(t: Ty) -> Ty {
        Ty { src: format!("Box<{}>", t.src), conc: format!("Box<{}>", t.conc), m: T::Bx(leak(t.m)), inner: None }
    }
    pub fn o(t: Ty) -> Ty {
        Ty::osp("Option", t)
    }
    /// Option spelled with another path
    pub fn osp(p: &str, t: Ty) -> Ty {
        Ty { src: format!("{}<{}>", p, t.src), conc: format!("Option<{}>", t.conc), m: T::O(leak(t.m)), inner: Some(Box::new(t)) }
    }
    /// generic parameter instantiated with t
    pub fn gen(p: &str, t: Ty) -> Ty {
        Ty { src: p.into(), conc: t.conc, m: t.m, inner: None }
    }
    pub fn is_clone(&self) -> bool {
        m_clone(&self.m)
    }
    pub fn is_copy(&self) -> bool {
        match self.m {
            T::K => true,
            T::O(T::K) => true,
            _ => false,
        }
    }
    pub fn has_default(&self) -> bool {
        m_default(&self.m)
    }
    /// From<A> and TryFrom<B>
    pub fn conv(&self) -> bool {
        matches!(
            self.m,
            T::V | T::N
                | T::K
                | T::C
                | T::O(T::V)
                | T::O(T::N)
                | T::O(T::K)
                | T::O(T::C)
                | T::O(T::O(T::V))
                | T::Vc(T::V)
                | T::O(T::Vc(T::V))
                | T::Bx(T::V)
                | T::O(T::Bx(T::V))
        )
    }
    pub fn is_coll(&self) -> bool {
        matches!(self.m, T::C | T::Vc(T::V))
    }
}
fn m_clone(m: &T) -> bool {
    match m {
        T::N | T::Q => false,
        T::V | T::K | T::P | T::C | T::Rf(_) => true,
        T::Vc(t) | T::O(t) | T::Bx(t) | T::Ar(t) => m_clone(t),
    }
}
fn m_default(m: &T) -> bool {
    match m {
        T::P | T::Q | T::Rf(_) => false,
        T::V | T::K | T::N | T::C | T::Vc(_) | T::O(_) => true,
        T::Bx(t) | T::Ar(t) => m_default(t),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Vis {
    No,
    Public,
    Private,
    Ex(&'static str),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Each {
    pub name: String,
    pub into: Option<bool>,
    /// `each(name = ..)` rather than `each = ..`
    pub long: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    No,
    Bare,
    Expr,
    /// fails unless field j is set
    Chk(usize),
    /// any expression text with its model
    Raw(String, NoneK),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Bld {
    Std,
    Chk,
}
#[derive(Clone, Debug)]
pub struct FieldCfg {
    pub name: String,
    pub ty: Ty,
    pub svis: &'static str,
    pub pattern: Option<Pat>,
    pub vis: Vis,
    /// bare `setter`
    pub word: bool,
    pub prefix: Option<String>,
    pub sname: Option<String>,
    pub into: Option<bool>,
    pub strip: Option<bool>,
    pub skip: Option<bool>,
    pub custom: Option<bool>,
    pub each: Option<Each>,
    pub def: Def,
    pub try_: bool,
    pub fvis: Vis,
    pub fty: Option<Ty>,
    pub fbuild: Option<Bld>,
    /// attribute lines before the builder attribute
    pub attrs: Vec<String>,
}
impl FieldCfg {
    pub fn new(name: &str, ty: Ty) -> FieldCfg {
        FieldCfg {
            name: name.into(),
            ty,
            svis: "pub ",
            pattern: None,
            vis: Vis::No,
            word: false,
            prefix: None,
            sname: None,
            into: None,
            strip: None,
            skip: None,
            custom: None,
            each: None,
            def: Def::No,
            try_: false,
            fvis: Vis::No,
            fty: None,
            fbuild: None,
            attrs: vec![],
        }
    }
    pub fn each(mut self, name: &str, into: Option<bool>) -> Self {
        self.each = Some(Each { name: name.into(), into, long: into.is_some() });
        self
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum ErrK {
    No,
    /// `error = "CErr"`
    Custom,
    /// `error(validation_error = b)`
    Gen(bool),
}
#[derive(Clone, Debug, PartialEq)]
pub enum SD {
    No,
    Bare,
    Expr,
    Chk(usize),
}
#[derive(Clone, Debug, Default)]
pub struct Gen {
    /// `<X: Bound>`
    pub decl: String,
    pub where_: String,
    /// `<V>`
    pub conc: String,
    /// `<X>`
    pub args: String,
}
#[derive(Clone, Debug)]
pub struct StructCfg {
    pub name: String,
    pub vis: &'static str,
    pub bname: Option<String>,
    pub pattern: Option<Pat>,
    pub bvis: Vis,
    pub b_skip: Option<bool>,
    pub b_name: Option<String>,
    pub b_vis: Vis,
    pub validate: bool,
    /// path of the validation function
    pub vpath: &'static str,
    pub error: ErrK,
    pub derive: Vec<String>,
    pub custom_ctor: bool,
    pub create_empty: Option<String>,
    pub s_prefix: Option<String>,
    pub s_into: Option<bool>,
    pub s_strip: Option<bool>,
    pub s_skip: Option<bool>,
    pub sdef: SD,
    pub no_std: bool,
    pub try_: bool,
    pub fvis: Vis,
    pub krate: Option<String>,
    pub gen: Gen,
    pub attrs: Vec<String>,
    /// also check static facts (traits implemented)
    pub facts: bool,
    /// also check that names replaced or disabled do not exist
    pub absent: bool,
    /// types of the harness under other names: (type, name)
    pub uses: Vec<(String, String)>,
    /// form of all expressions, `$E` standing for what they are otherwise
    pub form: &'static str,
    /// defined by a macro, with these parts passed to it
    pub frag: crate::frag::K,
}
impl StructCfg {
    pub fn new() -> StructCfg {
        StructCfg {
            name: "T".into(),
            vis: "pub ",
            bname: None,
            pattern: None,
            bvis: Vis::No,
            b_skip: None,
            b_name: None,
            b_vis: Vis::No,
            validate: false,
            vpath: "vld",
            error: ErrK::No,
            derive: vec![],
            custom_ctor: false,
            create_empty: None,
            s_prefix: None,
            s_into: None,
            s_strip: None,
            s_skip: None,
            sdef: SD::No,
            no_std: false,
            try_: false,
            fvis: Vis::No,
            krate: None,
            gen: Gen::default(),
            attrs: vec![],
            facts: false,
            absent: false,
            uses: vec![],
            form: "$E",
            frag: crate::frag::K::No,
        }
    }
    pub fn pat(p: Option<Pat>) -> StructCfg {
        StructCfg { pattern: p, ..StructCfg::new() }
    }
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub s: StructCfg,
    pub f: Vec<FieldCfg>,
}

// ------------------------------------------------------------------ rendering
/// One option inside a `builder` attribute.
#[derive(Clone, Debug)]
pub struct Opt {
    pub name: String,
    pub val: OV,
}
#[derive(Clone, Debug)]
pub enum OV {
    Word,
    Bool(bool),
    /// identifier-like value
    Ident(String),
    /// path value
    Path(String),
    /// expression
    Expr(String),
    /// type or visibility or other value that only exists quoted
    Str(String),
    List(Vec<Opt>),
}
pub fn op(n: &str, v: OV) -> Opt {
    Opt { name: n.into(), val: v }
}
/// How to spell options.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Spell {
    /// write `true` values out rather than as a word
    pub long_true: bool,
    /// quote booleans
    pub quote_bool: bool,
    /// leave identifiers, paths and expressions unquoted
    pub bare: bool,
    /// one attribute per option
    pub split: bool,
    /// reverse all option lists
    pub rev: bool,
    /// rotate all option lists
    pub rot: usize,
    pub trail: bool,
    /// which permutation of all option lists (after the above)
    pub perm: u32,
    /// bit i: a new attribute after option i
    pub cut: u32,
}
pub const PLAIN: Spell = Spell { long_true: false, quote_bool: false, bare: false, split: false, rev: false, rot: 0, trail: false, perm: 0, cut: 0 };

pub fn quote_str(s: &str) -> String {
    format!("{:?}", s)
}
fn is_ident(s: &str) -> bool {
    syn::parse_str::<syn::Ident>(s).is_ok()
}
impl Opt {
    pub fn render(&self, sp: Spell) -> String {
        let n = &self.name;
        match &self.val {
            OV::Word => n.clone(),
            OV::Bool(true) if !sp.long_true => n.clone(),
            OV::Bool(b) => {
                if sp.quote_bool {
                    format!("{} = \"{}\"", n, b)
                } else {
                    format!("{} = {}", n, b)
                }
            }
            OV::Ident(s) => {
                if sp.bare && is_ident(s) {
                    format!("{} = {}", n, s)
                } else {
                    format!("{} = {}", n, quote_str(s))
                }
            }
            OV::Path(s) => {
                if sp.bare {
                    format!("{} = {}", n, s)
                } else {
                    format!("{} = {}", n, quote_str(s))
                }
            }
            OV::Expr(s) => {
                if sp.bare {
                    if s.contains(';') || s.starts_with("fn ") {
                        format!("{} = {{ {} }}", n, s)
                    } else {
                        format!("{} = {}", n, s)
                    }
                } else {
                    format!("{} = {}", n, quote_str(s))
                }
            }
            OV::Str(s) => format!("{} = {}", n, quote_str(s)),
            OV::List(l) => format!("{}({})", n, render_list(l, sp)),
        }
    }
}
pub fn arrange<X: Clone>(l: &[X], sp: Spell) -> Vec<X> {
    let mut l = l.to_vec();
    if !l.is_empty() {
        let r = sp.rot % l.len();
        l.rotate_left(r);
    }
    if sp.rev {
        l.reverse();
    }
    let mut p = sp.perm as usize;
    for i in 0..l.len() {
        let n = l.len() - i;
        l[i..].rotate_left(p % n);
        p /= n;
    }
    l
}
pub fn render_list(l: &[Opt], sp: Spell) -> String {
    let mut s = arrange(l, sp).iter().map(|o| o.render(sp)).collect::<Vec<_>>().join(", ");
    if sp.trail && !s.is_empty() {
        s.push(',');
    }
    s
}
pub fn render_attr(l: &[Opt], sp: Spell) -> Vec<String> {
    if l.is_empty() {
        return vec![];
    }
    if sp.split {
        arrange(l, sp).iter().map(|o| format!("#[builder({})]", o.render(sp))).collect()
    } else if sp.cut > 0 {
        let mut v: Vec<String> = vec![];
        for (i, o) in arrange(l, sp).iter().enumerate() {
            if i == 0 || sp.cut >> (i - 1) & 1 == 1 {
                v.push(o.render(sp));
            } else {
                let k = v.len() - 1;
                v[k].push_str(&format!(", {}", o.render(sp)));
            }
        }
        v.iter().map(|s| format!("#[builder({}{})]", s, if sp.trail { "," } else { "" })).collect()
    } else {
        vec![format!("#[builder({})]", render_list(l, sp))]
    }
}
/// Other attributes, with the builder attributes after them or at a mark `@`.
fn around(attrs: &[String], opts: Vec<String>) -> Vec<String> {
    let k = attrs.iter().position(|a| a == "@").unwrap_or(attrs.len());
    let mut v = attrs[..k].to_vec();
    v.extend(opts);
    v.extend(attrs.iter().skip(k + 1).cloned());
    v
}
fn vis_opts(v: &Vis, l: &mut Vec<Opt>) {
    match v {
        Vis::No => {}
        Vis::Public => l.push(op("public", OV::Word)),
        Vis::Private => l.push(op("private", OV::Word)),
        Vis::Ex(s) => l.push(op("vis", OV::Str(s.to_string()))),
    }
}
pub fn pat_str(p: Pat) -> &'static str {
    match p {
        Pat::Own => "owned",
        Pat::Mut => "mutable",
        Pat::Imm => "immutable",
    }
}
impl Cfg {
    pub fn new(s: StructCfg, f: Vec<FieldCfg>) -> Cfg {
        Cfg { s, f }
    }
    /// A field type where `Self` is not the struct: in methods of the builder.
    pub fn outside(&self, t: &Ty) -> String {
        let mut o = String::new();
        let mut word = String::new();
        for ch in t.src.chars().chain(['\n']) {
            if ch.is_alphanumeric() || ch == '_' {
                word.push(ch);
                continue;
            }
            if word == "Self" {
                o.push_str(&format!("{}{}", self.s.name, crate::props::clean::params(&self.s.gen.decl)));
            } else {
                o.push_str(&word);
            }
            word.clear();
            o.push(ch);
        }
        o.pop();
        o
    }
    /// `r.f` of the builder, observed
    pub fn slot_obs(&self, i: usize, recv: &str, conc: bool) -> String {
        if self.hidden(i) {
            return "Val::Hidden".into();
        }
        let f = &self.f[i];
        let t = |t: &Ty| if conc { t.conc.clone() } else { self.outside(t) };
        match &f.fty {
            Some(t2) => format!("ob::<{}>(&{}.{})", t(t2), recv, f.name),
            None => format!("ob::<Option<{}>>(&{}.{})", t(&f.ty), recv, f.name),
        }
    }
    pub fn def_expr(&self, i: usize) -> Option<String> {
        let f = &self.f[i];
        match &f.def {
            Def::No | Def::Bare => None,
            Def::Expr => Some(format!("dv::<{}>({})", self.outside(&f.ty), i)),
            Def::Chk(j) => Some(format!("dchk::<{}>({}, {})?", self.outside(&f.ty), i, self.slot_obs(*j, "self", false))),
            Def::Raw(s, _) => Some(s.clone()),
        }
    }
    pub fn field_opts(&self, i: usize) -> Vec<Opt> {
        let f = &self.f[i];
        let mut l = vec![];
        if let Some(p) = f.pattern {
            l.push(op("pattern", OV::Str(pat_str(p).into())));
        }
        vis_opts(&f.vis, &mut l);
        if f.word {
            l.push(op("setter", OV::Word));
        } else {
            let mut s = vec![];
            if let Some(p) = &f.prefix {
                s.push(op("prefix", OV::Ident(p.clone())));
            }
            if let Some(p) = &f.sname {
                s.push(op("name", OV::Ident(p.clone())));
            }
            if let Some(b) = f.into {
                s.push(op("into", OV::Bool(b)));
            }
            if let Some(b) = f.strip {
                s.push(op("strip_option", OV::Bool(b)));
            }
            if let Some(b) = f.skip {
                s.push(op("skip", OV::Bool(b)));
            }
            if let Some(b) = f.custom {
                s.push(op("custom", OV::Bool(b)));
            }
            if let Some(e) = &f.each {
                if e.long {
                    let mut l = vec![op("name", OV::Ident(e.name.clone()))];
                    if let Some(b) = e.into {
                        l.push(op("into", OV::Bool(b)));
                    }
                    s.push(op("each", OV::List(l)));
                } else {
                    s.push(op("each", OV::Ident(e.name.clone())));
                }
            }
            if !s.is_empty() {
                l.push(op("setter", OV::List(s)));
            }
        }
        match &f.def {
            Def::No => {}
            Def::Bare => l.push(op("default", OV::Word)),
            _ => l.push(op("default", OV::Expr(self.formed(self.def_expr(i).unwrap())))),
        }
        if f.try_ {
            l.push(op("try_setter", OV::Word));
        }
        let mut fl = vec![];
        vis_opts(&f.fvis, &mut fl);
        if let Some(t) = &f.fty {
            fl.push(op("ty", OV::Str(t.src.clone())));
        }
        if let Some(b) = &f.fbuild {
            let slot = self.slot_obs(i, "self", false);
            let e = match b {
                Bld::Std => format!("blk::<{}>({}, {})", self.outside(&f.ty), i, slot),
                Bld::Chk => format!("blk_chk::<{}>({}, {})?", self.outside(&f.ty), i, slot),
            };
            fl.push(op("build", OV::Expr(self.formed(e))));
        }
        if !fl.is_empty() {
            l.push(op("field", OV::List(fl)));
        }
        l
    }
    fn formed(&self, e: String) -> String {
        if self.s.form == "$E" {
            return e;
        }
        // statements need a block where an expression is asked for
        let e = if e.contains("; ") { format!("{{ {} }}", e) } else { e };
        self.s.form.replace("$E", &e)
    }
    pub fn sdef_body(&self) -> String {
        let fs: Vec<String> = self.f.iter().map(|f| format!("{}: sd()", f.name)).collect();
        format!("{} {{ {} }}", self.s.name, fs.join(", "))
    }
    pub fn struct_opts(&self) -> Vec<Opt> {
        let s = &self.s;
        let mut l = vec![];
        if let Some(n) = &s.bname {
            l.push(op("name", OV::Ident(n.clone())));
        }
        if let Some(c) = &s.krate {
            l.push(op("crate", OV::Path(c.clone())));
        }
        if let Some(p) = s.pattern {
            l.push(op("pattern", OV::Str(pat_str(p).into())));
        }
        vis_opts(&s.bvis, &mut l);
        let mut b = vec![];
        if let Some(x) = s.b_skip {
            b.push(op("skip", OV::Bool(x)));
        }
        if let Some(x) = &s.b_name {
            b.push(op("name", OV::Ident(x.clone())));
        }
        vis_opts(&s.b_vis, &mut b);
        if s.validate {
            b.push(op("validate", OV::Path(s.vpath.into())));
        }
        match &s.error {
            ErrK::No => {}
            ErrK::Custom => b.push(op("error", OV::Path("CErr".into()))),
            ErrK::Gen(v) => b.push(op("error", OV::List(vec![Opt { name: "validation_error".into(), val: OV::Bool(*v) }]))),
        }
        if !b.is_empty() {
            l.push(op("build_fn", OV::List(b)));
        }
        if !s.derive.is_empty() {
            l.push(op("derive", OV::List(s.derive.iter().map(|d| op(d, OV::Word)).collect())));
        }
        if s.custom_ctor {
            l.push(op("custom_constructor", OV::Word));
        }
        if let Some(c) = &s.create_empty {
            l.push(op("create_empty", OV::Ident(c.clone())));
        }
        let mut b = vec![];
        if let Some(p) = &s.s_prefix {
            b.push(op("prefix", OV::Ident(p.clone())));
        }
        if let Some(x) = s.s_into {
            b.push(op("into", OV::Bool(x)));
        }
        if let Some(x) = s.s_strip {
            b.push(op("strip_option", OV::Bool(x)));
        }
        if let Some(x) = s.s_skip {
            b.push(op("skip", OV::Bool(x)));
        }
        if !b.is_empty() {
            l.push(op("setter", OV::List(b)));
        }
        match &s.sdef {
            SD::No => {}
            SD::Bare => l.push(op("default", OV::Word)),
            SD::Expr => l.push(op("default", OV::Expr(self.formed(format!("sev(); {}", self.sdef_body()))))),
            SD::Chk(j) => l.push(op(
                "default",
                OV::Expr(self.formed(format!("schk({})?; {}", self.slot_obs(*j, "self", false), self.sdef_body()))),
            )),
        }
        if s.no_std {
            l.push(op("no_std", OV::Word));
        }
        if s.try_ {
            l.push(op("try_setter", OV::Word));
        }
        let mut b = vec![];
        vis_opts(&s.fvis, &mut b);
        if !b.is_empty() {
            l.push(op("field", OV::List(b)));
        }
        l
    }
    /// The struct definition without the derive attribute.
    pub fn render(&self, sp: Spell) -> String {
        let mut o = String::new();
        for a in around(&self.s.attrs, render_attr(&self.struct_opts(), sp)) {
            let _ = writeln!(o, "{}", a);
        }
        let g = &self.s.gen;
        let _ = writeln!(o, "{}struct {}{}{} {{", self.s.vis, self.s.name, g.decl, g.where_);
        for (i, f) in self.f.iter().enumerate() {
            for a in around(&f.attrs, render_attr(&self.field_opts(i), sp)) {
                let _ = writeln!(o, "    {}", a);
            }
            let _ = writeln!(o, "    {}{}: {},", f.svis, f.name, f.ty.src);
        }
        o.push_str("}\n");
        o
    }

    // -------------------------------------------------------------- the model
    pub fn strukt_pat(&self) -> Pat {
        self.s.pattern.unwrap_or(Pat::Mut)
    }
    pub fn pat(&self, i: usize) -> Pat {
        self.f[i].pattern.unwrap_or(self.strukt_pat())
    }
    pub fn hidden(&self, i: usize) -> bool {
        let f = &self.f[i];
        if f.word {
            return false;
        }
        if let Some(s) = f.skip {
            return s;
        }
        if f.prefix.is_some() || f.sname.is_some() || f.into.is_some() || f.strip.is_some() || f.each.is_some() {
            return false;
        }
        self.s.s_skip.unwrap_or(false)
    }
    pub fn has_setter(&self, i: usize) -> bool {
        !self.hidden(i) && self.f[i].custom != Some(true)
    }
    pub fn into(&self, i: usize) -> bool {
        self.f[i].into.or(self.s.s_into).unwrap_or(false)
    }
    pub fn strip(&self, i: usize) -> bool {
        self.f[i].strip.or(self.s.s_strip).unwrap_or(false)
    }
    pub fn setter_name(&self, i: usize) -> String {
        let f = &self.f[i];
        if let Some(n) = &f.sname {
            return n.clone();
        }
        match f.prefix.as_ref().or(self.s.s_prefix.as_ref()) {
            Some(p) => format!("{}_{}", unraw(p), unraw(&f.name)),
            None => f.name.clone(),
        }
    }
    pub fn try_name(&self, i: usize) -> String {
        format!("try_{}", unraw(&self.setter_name(i)))
    }
    pub fn has_try(&self, i: usize) -> bool {
        self.has_setter(i) && (self.f[i].try_ || self.s.try_)
    }
    pub fn builder(&self) -> String {
        self.s.bname.clone().unwrap_or(format!("{}Builder", unraw(&self.s.name)))
    }
    pub fn error(&self) -> Option<String> {
        if self.s.error == ErrK::Custom {
            None
        } else {
            Some(format!("{}Error", unraw(&self.builder())))
        }
    }
    pub fn build_name(&self) -> String {
        self.s.b_name.clone().unwrap_or("build".into())
    }
    pub fn create_empty(&self) -> String {
        self.s.create_empty.clone().unwrap_or("create_empty".into())
    }
    pub fn needs_clone(&self) -> bool {
        self.strukt_pat() != Pat::Own || (0..self.f.len()).any(|i| self.pat(i) != Pat::Own)
    }
    pub fn has_build(&self) -> bool {
        self.s.b_skip != Some(true)
    }
    pub fn vld_err(&self) -> bool {
        self.s.error != ErrK::Gen(false)
    }
    /// The type the setter's argument is based on.
    pub fn slot_ty(&self, i: usize) -> &Ty {
        self.f[i].fty.as_ref().unwrap_or(&self.f[i].ty)
    }
    /// (argument type, stripped?)
    pub fn arg(&self, i: usize) -> (Ty, bool) {
        let t = self.slot_ty(i);
        if self.strip(i) {
            if let Some(t) = &t.inner {
                return ((**t).clone(), true);
            }
        }
        (t.clone(), false)
    }
    /// Must the macro reject this configuration?
    pub fn rejected(&self) -> bool {
        for f in &self.f {
            if f.def != Def::No && (f.fty.is_some() || f.fbuild.is_some()) {
                return true;
            }
        }
        self.s.validate && self.s.error == ErrK::Gen(false)
    }
    /// Is this a sensible program: accepted, and every bound of the generated code satisfied by the field types?
    /// (Programs that are not are the user's error, whose reporting rustc decides.)
    pub fn usable(&self) -> bool {
        if self.rejected() {
            return false;
        }
        let sp = self.strukt_pat();
        for i in 0..self.f.len() {
            let f = &self.f[i];
            let hidden = self.hidden(i);
            if f.word && (f.prefix.is_some() || f.sname.is_some() || f.into.is_some() || f.strip.is_some() || f.skip.is_some() || f.custom.is_some() || f.each.is_some()) {
                return false; // not expressible
            }
            if hidden && (f.fty.is_some() || f.fbuild.is_some()) {
                return false; // unspecified
            }
            if self.has_build() && !hidden && f.fty.is_some() && f.fbuild.is_none() {
                // moved as is
                let t = f.fty.as_ref().unwrap();
                if t.m != f.ty.m || (sp != Pat::Own && !t.is_copy()) {
                    return false;
                }
            }
            if !hidden {
                if self.needs_clone() && !self.slot_ty(i).is_clone() {
                    return false;
                }
                if let Some(t) = &f.fty {
                    if !t.has_default() {
                        return false;
                    }
                }
            }
            if f.def == Def::Bare && !f.ty.has_default() {
                return false;
            }
            if hidden && f.def == Def::No && self.s.sdef == SD::No && !f.ty.has_default() {
                return false;
            }
            if let Def::Chk(j) = f.def {
                // reads slot j: must be an Option slot that was not moved out
                if self.hidden(j) || self.f[j].fty.is_some() || !self.vld_err() {
                    return false;
                }
                if sp == Pat::Own && j <= i {
                    return false;
                }
            }
            if f.fbuild == Some(Bld::Chk) && !self.vld_err() {
                return false;
            }
            if self.has_setter(i) {
                let (arg, stripped) = self.arg(i);
                if (self.into(i) || self.has_try(i)) && !arg.conv() {
                    return false;
                }
                if f.each.is_some() {
                    if !arg.is_coll() {
                        return false;
                    }
                    let _ = stripped;
                }
            }
        }
        if let SD::Chk(j) = self.s.sdef {
            if self.hidden(j) || self.f[j].fty.is_some() || !self.vld_err() {
                return false;
            }
        }
        // names must be distinct
        for i in 0..self.f.len() {
            if (0..i).any(|j| unraw(&self.f[i].name) == unraw(&self.f[j].name)) {
                return false;
            }
        }
        let mut names = vec![self.create_empty()];
        if self.has_build() {
            names.push(self.build_name());
        }
        for i in 0..self.f.len() {
            if self.has_setter(i) {
                names.push(self.setter_name(i));
                if self.has_try(i) {
                    names.push(self.try_name(i));
                }
                if let Some(e) = &self.f[i].each {
                    names.push(e.name.clone());
                }
            }
        }
        let mut n2: Vec<String> = names.iter().map(|n| unraw(n).to_string()).collect();
        n2.sort();
        n2.dedup();
        n2.len() == names.len()
    }
    pub fn none_kind(&self, i: usize) -> NoneK {
        match &self.f[i].def {
            Def::Bare => NoneK::Ty,
            Def::Expr => NoneK::Expr,
            Def::Chk(j) => NoneK::Chk(*j as u8),
            Def::Raw(_, k) => *k,
            Def::No => {
                if self.s.sdef != SD::No {
                    NoneK::Struct
                } else if self.hidden(i) {
                    NoneK::Ty
                } else {
                    NoneK::Err
                }
            }
        }
    }
    /// Names of methods that must exist.
    pub fn present_methods(&self) -> Vec<String> {
        let mut v = vec![self.create_empty()];
        if self.has_build() {
            v.push(self.build_name());
        }
        for i in 0..self.f.len() {
            if self.has_setter(i) {
                v.push(self.setter_name(i));
                if self.has_try(i) {
                    v.push(self.try_name(i));
                }
                if let Some(e) = &self.f[i].each {
                    v.push(e.name.clone());
                }
            }
        }
        v
    }
    /// Names that methods of other configurations have, and that must not exist in this one.
    pub fn absent_methods(&self) -> Vec<String> {
        let mut v: Vec<String> = ["build", "create_empty", "new", "try_build", "validate"].iter().map(|s| s.to_string()).collect();
        let mut prefixes: Vec<String> = vec!["with".into(), "set".into()];
        prefixes.extend(self.s.s_prefix.iter().cloned());
        prefixes.extend(self.f.iter().filter_map(|f| f.prefix.clone()));
        for (i, f) in self.f.iter().enumerate() {
            let mut names = vec![f.name.clone(), self.setter_name(i)];
            names.extend(f.sname.iter().cloned());
            for p in &prefixes {
                names.push(format!("{}_{}", unraw(p), unraw(&f.name)));
                if let Some(n) = &f.sname {
                    names.push(format!("{}_{}", unraw(p), unraw(n)));
                }
                if let Some(e) = &f.each {
                    names.push(format!("{}_{}", unraw(p), unraw(&e.name)));
                }
            }
            if let Some(e) = &f.each {
                names.push(e.name.clone());
            }
            for n in names {
                v.push(format!("try_{}", unraw(&n)));
                v.push(n);
            }
        }
        let here: Vec<String> = self.present_methods().iter().map(|s| unraw(s).to_string()).collect();
        const TAKEN: [&str; 22] = [
            "clone", "default", "into", "from", "try_into", "try_from", "fmt", "extend", "drop", "eq", "ne", "cmp", "to_string", "to_owned", "borrow", "as_ref",
            "clone_from", "try_clone", "partial_cmp", "mk", "obs", "error",
        ];
        v.retain(|n| !here.iter().any(|h| h == unraw(n)) && !TAKEN.contains(&unraw(n)));
        v.sort();
        v.dedup_by(|a, b| unraw(a) == unraw(b));
        v
    }
    /// Likewise for types.
    pub fn absent_types(&self) -> Vec<String> {
        let b = self.builder();
        let mut here = vec![unraw(&self.s.name).to_string(), unraw(&b).to_string()];
        here.extend(self.error());
        let s = unraw(&self.s.name);
        let mut v = vec![
            format!("{}Builder", s),
            format!("{}BuilderError", s),
            format!("{}Error", s),
            format!("{}Error", unraw(&b)),
            format!("{}Builder", unraw(&b)),
            format!("{}BuilderError", unraw(&b)),
        ];
        if b.starts_with("r#") {
            here.push(b.clone());
        }
        v.retain(|n| !here.contains(n));
        v.sort();
        v.dedup();
        v
    }
    /// The behaviour of the builder, as Rust source of an `mc_rt::Spec`.
    pub fn spec_src(&self, id: u32) -> String {
        let mut o = String::new();
        let _ = write!(
            o,
            "Spec {{ id: {}, build: {}, by_val: {}, validate: {}, sdef: SDef::{:?}, custom_err: {}, clone: {}, fields: &[",
            id,
            self.has_build(),
            self.strukt_pat() == Pat::Own,
            self.s.validate,
            match &self.s.sdef {
                SD::No => SDef::No,
                SD::Bare | SD::Expr => SDef::Plain,
                SD::Chk(j) => SDef::Chk(*j as u8),
            },
            self.s.error == ErrK::Custom,
            self.needs_clone() || self.s.derive.iter().any(|d| d == "Clone"),
        );
        for i in 0..self.f.len() {
            let f = &self.f[i];
            let slot = if self.hidden(i) {
                Slot::Hidden
            } else if let Some(t) = &f.fty {
                Slot::Precise(t.m)
            } else {
                Slot::Opt(f.ty.m)
            };
            let conv = match (&f.fbuild, &f.fty) {
                (Some(Bld::Std), _) => Conv::Blk,
                (Some(Bld::Chk), _) => Conv::BlkChk,
                (None, Some(_)) => Conv::Move,
                (None, None) => Conv::Std,
            };
            let (arg, strip) = self.arg(i);
            let set = |into: bool| format!("Some(SetK {{ arg: {}, into: {}, strip: {} }})", m_src(&arg.m), into, strip);
            let _ = write!(
                o,
                "F {{ name: {:?}, ty: {}, pat: Pat::{:?}, slot: {}, set: {}, try_: {}, each: {}, custom: {}, none: NoneK::{:?}, conv: Conv::{:?} }},",
                f.name,
                m_src(&f.ty.m),
                self.pat(i),
                match slot {
                    Slot::Hidden => "Slot::Hidden".to_string(),
                    Slot::Opt(t) => format!("Slot::Opt({})", m_src(&t)),
                    Slot::Precise(t) => format!("Slot::Precise({})", m_src(&t)),
                },
                if self.has_setter(i) { set(self.into(i)) } else { "None".into() },
                if self.has_try(i) { set(false) } else { "None".into() },
                match &f.each {
                    Some(e) if self.has_setter(i) => format!("Some(({}, {}))", e.into.unwrap_or(false), strip),
                    _ => "None".into(),
                },
                !self.hidden(i) && f.custom == Some(true),
                self.none_kind(i),
                conv,
            );
        }
        o.push_str("] }");
        o
    }
}
pub fn m_src(t: &T) -> String {
    match t {
        T::V => "T::V".into(),
        T::N => "T::N".into(),
        T::K => "T::K".into(),
        T::P => "T::P".into(),
        T::C => "T::C".into(),
        T::Vc(t) => format!("T::Vc(&{})", m_src(t)),
        T::O(t) => format!("T::O(&{})", m_src(t)),
        T::Bx(t) => format!("T::Bx(&{})", m_src(t)),
        T::Q => "T::Q".into(),
        T::Rf(t) => format!("T::Rf(&{})", m_src(t)),
        T::Ar(t) => format!("T::Ar(&{})", m_src(t)),
    }
}
pub fn unraw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}
