//! Driver programs: one module per distinct configuration, with the derived builder and the glue that lets the explorer drive it.
use crate::cfg::*;
use mc_rt::Pat;
use std::fmt::Write;

/// A generated module with its line map.
pub struct Module {
    pub src: String,
    /// number of lines of the head (struct and derive)
    pub head: usize,
}

pub const PRELUDE: &str = "#![allow(unused_imports)]\n";

/// What field types that mention the struct ask of it.
pub fn own(c: &Cfg) -> String {
    if !c.f.iter().any(|f| f.ty.src.contains("Self")) {
        return String::new();
    }
    let g: syn::DeriveInput = syn::parse_str(&format!("struct {}{}{};", c.s.name, c.s.gen.decl, c.s.gen.where_)).unwrap();
    let (i, t, w) = g.generics.split_for_impl();
    let n = &g.ident;
    format!("{}\n", quote::quote!(impl #i Own for #n #t #w { type A = V; }))
}
/// The definition, as the source code has it.
pub fn definition(c: &Cfg, item: &str) -> String {
    let lib = match &c.s.krate {
        Some(k) if !k.ends_with("derive_builder") => "db",
        _ => "derive_builder",
    };
    let derive = format!("#[derive(::{}::Builder)]", lib);
    match (c.s.frag, item) {
        (crate::frag::K::No, _) | (_, "") => format!("{}\n{}", derive, item),
        // nothing to pass: a macro without parameters
        (k, _) => crate::frag::pass(item, k).or_else(|| crate::frag::pass(item, crate::frag::K::Plain)).unwrap().source(&derive),
    }
}
/// The module for a configuration.  `item` is the rendered struct definition.
pub fn module(id: u32, c: &Cfg, item: &str) -> Module {
    let mut o = String::new();
    let _ = writeln!(o, "pub mod m{} {{", id);
    let _ = writeln!(o, "#[allow(unused_imports)] use mc_rt::*;");
    for (t, w) in &c.s.uses {
        let _ = writeln!(o, "#[allow(unused_imports)] use mc_rt::{} as {};", t, w);
    }
    o.push_str(&definition(c, item));
    let head = o.lines().count();
    o.push_str(&own(c));
    let b = c.builder();
    let g = &c.s.gen.conc;
    let tb = format!("{}{}", b, g);
    let target = format!("{}{}", c.s.name, g);
    let _ = writeln!(o, "#[allow(warnings)] mod d {{ use super::*; pub type TB = super::{}; pub type TT = super::{};", tb, target);
    for (_, w) in c.s.uses.iter().filter(|u| mc_rt::real::NAMES.contains(&u.1.as_str())) {
        let _ = writeln!(o, "use mc_rt::real::{};", w);
    }
    if c.s.sdef == SD::Bare {
        let _ = writeln!(o, "impl Default for TT {{ fn default() -> Self {{ sev(); {} }} }}", c.sdef_body());
    }
    let slots: Vec<String> = (0..c.f.len()).map(|i| c.slot_obs(i, "b", true)).collect();
    let _ = writeln!(o, "pub fn slots(b: &TB) -> Vec<Val> {{ vec![{}] }}", slots.join(", "));
    if c.s.validate {
        let _ = writeln!(o, "pub fn vld(b: &TB) -> Result<(), String> {{ validate(slots(b)) }}");
    }
    if c.s.vpath == "Self::vld" {
        let _ = writeln!(o, "impl TB {{ pub fn vld(&self) -> Result<(), String> {{ vld(self) }} }}");
    }
    if c.s.absent {
        // an inherent function of that name would be chosen over the trait's and would not fit
        let ab = c.absent_methods();
        let _ = writeln!(o, "pub struct Abs0; pub trait Abs: Sized {{ {} }} impl<Q> Abs for Q {{}}", ab.iter().map(|n| format!("fn {}(_: Abs0) -> Abs0 {{ Abs0 }}", n)).collect::<Vec<_>>().join(" "));
        let _ = writeln!(o, "pub fn absent() {{ {} }}", ab.iter().map(|n| format!("let _: Abs0 = <TB>::{}(Abs0);", n)).collect::<Vec<_>>().join(" "));
    }
    let _ = writeln!(o, "pub struct S {{ b: Option<TB>, saved: Vec<TB> }}");
    let ctor = if c.s.custom_ctor { format!("<TB>::{}()", c.create_empty()) } else { "<TB as Default>::default()".to_string() };
    let _ = writeln!(o, "impl Subject for S {{");
    let _ = writeln!(o, "fn reset(&mut self) {{ self.saved.clear(); self.b = Some({}); }}", ctor);
    let _ = writeln!(o, "fn second(&mut self) -> Vec<Val> {{ let b: TB = <TB>::{}(); slots(&b) }}", c.create_empty());
    let _ = writeln!(o, "fn obs(&self) -> Vec<Val> {{ slots(self.b.as_ref().unwrap()) }}");
    if c.needs_clone() || c.s.derive.iter().any(|d| d == "Clone") {
        let _ = writeln!(o, "fn fork(&mut self) {{ let c = Clone::clone(self.b.as_ref().unwrap()); self.saved.push(self.b.replace(c).unwrap()); }}");
        let _ = writeln!(o, "fn unfork(&mut self) {{ self.b = self.saved.pop(); }}");
    } else {
        let _ = writeln!(o, "fn fork(&mut self) {{ unreachable!() }} fn unfork(&mut self) {{ unreachable!() }}");
    }
    if c.s.facts {
        let mut f = String::new();
        let mut fact = |t: &str, tr: &str, want: bool| {
            let _ = write!(f, "({:?}, has!({}: {}) == {}),", format!("{}{}: {}", if want { "" } else { "not " }, t, tr), t, tr, want);
        };
        let derives = |d: &str| c.s.derive.iter().any(|x| x == d);
        fact("TB", "Default", !c.s.custom_ctor || derives("Default"));
        fact("TB", "Clone", c.needs_clone() || derives("Clone"));
        for d in ["std::fmt::Debug", "PartialEq", "Eq", "std::hash::Hash", "PartialOrd", "Copy"] {
            fact("TB", d, derives(d.rsplit("::").next().unwrap()));
        }
        if let Some(e) = c.error() {
            let e = format!("super::{}", e);
            fact(&e, "std::fmt::Debug", true);
            fact(&e, "std::fmt::Display", true);
            fact(&e, "std::error::Error", !c.s.no_std);
            fact(&e, "From<::mc_rt::derive_builder::UninitializedFieldError>", true);
            fact(&e, "From<String>", c.vld_err());
            fact(&e, "From<&'static str>", false);
            fact(&e, "Clone", false);
            fact(&e, "Send", true);
        }
        let _ = writeln!(o, "fn facts(&self) -> Vec<(&'static str, bool)> {{ vec![{}] }}", f);
    }
    // setters
    let _ = writeln!(o, "fn apply(&mut self, f: u8, k: u8, n: u8) -> Out {{ match (f, k) {{");
    for i in 0..c.f.len() {
        let f = &c.f[i];
        let p = c.pat(i);
        let (arg, _) = c.arg(i);
        let (fun, tfun, tail) = match p {
            Pat::Own => ("app_own", "try_own", ""),
            Pat::Mut => ("app_mut", "try_mut", ""),
            Pat::Imm => ("app_imm", "try_imm", ", slots"),
        };
        if c.has_setter(i) {
            let s = c.setter_name(i);
            if c.into(i) {
                let _ = writeln!(o, "({}, 0) => {}(&mut self.b, |b| <TB>::{}(b, A(n)){}),", i, fun, s, tail);
                let _ = writeln!(o, "({}, 1) => {}(&mut self.b, |b| <TB>::{}(b, mk::<{}>(n, b'D')){}),", i, fun, s, arg.conc, tail);
            } else {
                let _ = writeln!(o, "({}, 0) => {}(&mut self.b, |b| <TB>::{}(b, mk(n, b'D')){}),", i, fun, s, tail);
            }
        }
        if c.has_try(i) {
            let s = c.try_name(i);
            let _ = writeln!(o, "({}, 2) => {}::<_, BErr>(&mut self.b, |b| <TB>::{}(b, B(n)){}),", i, tfun, s, tail);
            let _ = writeln!(
                o,
                "({}, 3) => {}::<_, std::convert::Infallible>(&mut self.b, |b| <TB>::{}(b, mk::<{}>(n, b'D')){}),",
                i, tfun, s, arg.conc, tail
            );
        }
        if let (Some(e), true) = (&f.each, c.has_setter(i)) {
            let a = if e.into.unwrap_or(false) { "A(n)" } else { "mk(n, b'D')" };
            let _ = writeln!(o, "({}, 4) => {}(&mut self.b, |b| <TB>::{}(b, {}){}),", i, fun, e.name, a, tail);
        }
        if !c.hidden(i) && f.custom == Some(true) {
            let rhs = match &f.fty {
                Some(t) => format!("mk::<{}>(n, b'D')", t.conc),
                None => format!("Some(mk::<{}>(n, b'D'))", f.ty.conc),
            };
            let _ = writeln!(o, "({}, 5) => {{ self.b.as_mut().unwrap().{} = {}; Out::default() }}", i, f.name, rhs);
        }
    }
    let _ = writeln!(o, "_ => unreachable!() }} }}");
    // build
    let _ = writeln!(o, "fn build(&mut self) -> BOut {{");
    if c.has_build() {
        let err = c.error();
        let ety = err.clone().map(|e| format!("super::{}", e)).unwrap_or("CErr".into());
        let recv = if c.strukt_pat() == Pat::Own { "self.b.take().unwrap()" } else { "self.b.as_ref().unwrap()" };
        let fields: Vec<String> = c.f.iter().map(|f| format!("ob::<{}>(&t.{})", f.ty.conc, f.name)).collect();
        let _ = writeln!(o, "let r: Result<TT, {}> = <TB>::{}({}); match r {{", ety, c.build_name(), recv);
        let _ = writeln!(o, "Ok(t) => BOut::Ok(vec![{}]),", fields.join(", "));
        if err.is_some() {
            let _ = writeln!(o, "Err(e) => {{ let d = e.to_string(); match e {{ {}::UninitializedField(f) => BOut::Uninit(f.to_string(), d),", ety);
            if c.vld_err() {
                let _ = writeln!(o, "{}::ValidationError(m) => BOut::Msg(m, d),", ety);
            }
            let _ = writeln!(o, "_ => BOut::Other(d) }} }}");
        } else {
            let _ = writeln!(o, "Err(e) => cerr(e),");
        }
        let _ = writeln!(o, "}}");
    } else {
        let _ = writeln!(o, "BOut::NoBuild");
    }
    let _ = writeln!(o, "}} }}");
    let _ = writeln!(o, "pub fn new() -> Box<dyn Subject> {{ Box::new(S {{ b: None, saved: vec![] }}) }}");
    let _ = writeln!(o, "}}");
    let _ = writeln!(o, "#[allow(warnings)] mod s {{ use mc_rt::*; pub static SPEC: Spec = {}; }}", c.spec_src(id));
    let _ = writeln!(o, "pub use self::d::new; pub use self::s::SPEC;");
    if c.s.absent {
        // a type of that name would hide the one of the glob import
        let ab = c.absent_types();
        let _ = writeln!(o, "pub mod gl {{ {} }} #[allow(unused_imports)] use self::gl::*;", ab.iter().map(|n| format!("pub struct {};", n)).collect::<Vec<_>>().join(" "));
        let _ = writeln!(o, "#[allow(warnings)] mod ga {{ use super::*; fn f() {{ {} }} }}", ab.iter().map(|n| format!("let _: super::gl::{} = super::{};", n, n)).collect::<Vec<_>>().join(" "));
    }
    if c.s.validate {
        let _ = writeln!(o, "use self::d::vld;");
    }
    let _ = writeln!(o, "}}");
    Module { src: o, head }
}

pub fn program(mods: &[(u32, &Module)]) -> (String, Vec<(usize, usize, u32)>) {
    let mut o = String::from(PRELUDE);
    let lib = if mods.iter().any(|(_, m)| m.src.contains("#[derive(::db::Builder)]")) { "db" } else { "derive_builder" };
    let _ = writeln!(o, "extern crate mc_rt; pub extern crate {lib}; pub mod reexp {{ pub use ::{lib} as inner; }}");
    let mut map = vec![];
    let mut line = o.lines().count();
    for (id, m) in mods {
        let n = m.src.lines().count();
        map.push((line + 1, line + n, *id));
        o.push_str(&m.src);
        line += n;
    }
    o.push_str("fn main() { mc_rt::run(&[");
    for (id, _) in mods {
        let _ = write!(o, "(&m{}::SPEC, m{}::new),", id, id);
    }
    o.push_str("]) }\n");
    (o, map)
}
