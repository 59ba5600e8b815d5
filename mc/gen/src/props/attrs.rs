//! C15: where attributes are forwarded to.  Every attribute carries a unique marker; the markers of every item of the
//! expansion are compared with the model.
use super::*;
use quote::ToTokens;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use proc_macro2::TokenStream;
use syn::visit::Visit;

/// (text with `@` for the marker, on the field or struct itself?, on the setters or the impl?, what is forwarded, usable with rustc?)
type A = (&'static str, bool, bool, &'static str, bool);
const FIELD: [A; 17] = [
    ("/// @", true, true, "#[doc = \" @\"]", true),
    ("#[doc = \"@\"]", true, true, "", true),
    ("#[allow(@)]", true, true, "", true),
    ("#[cfg(not(@))]", true, true, "", false),
    ("#[builder_field_attr(doc = \"@\")]", true, false, "#[doc = \"@\"]", true),
    ("#[builder_setter_attr(doc = \"@\")]", false, true, "#[doc = \"@\"]", true),
    ("#[builder_field_attr(allow(@))]", true, false, "#[allow(@)]", true),
    ("#[builder_setter_attr(must_use = \"@\")]", false, true, "#[must_use = \"@\"]", true),
    ("#[deprecated(note = \"@\")]", false, false, "", true),
    ("#[warn(@)]", false, false, "", true),
    ("#[serde(rename = \"@\")]", false, false, "", false),
    ("#[x::allow(@)]", false, false, "", false),
    ("#[builder_setter_attr(cfg(not(@)))]", false, true, "#[cfg(not(@))]", false),
    ("#[builder_field_attr(serde(@, x = 1))]", true, false, "#[serde(@, x = 1)]", false),
    ("#[cfg_attr(all(), doc = \"@\")]", false, false, "", false),
    ("#[inline(@)]", false, false, "", false),
    ("#[builder_setter_attr(x::y::@)]", false, true, "#[x::y::@]", false),
];
const STRUCT: [A; 15] = [
    ("#[allow(@)]", true, true, "", true),
    ("#[cfg(not(@))]", true, true, "", false),
    ("#[builder_struct_attr(doc = \"@\")]", true, false, "#[doc = \"@\"]", true),
    ("#[builder_impl_attr(doc = \"@\")]", false, true, "#[doc = \"@\"]", true),
    ("#[builder_struct_attr(allow(@))]", true, false, "#[allow(@)]", true),
    ("#[builder_impl_attr(warn(@))]", false, true, "#[warn(@)]", true),
    ("/// @", false, false, "", true),
    ("#[doc = \"@\"]", false, false, "", true),
    ("#[deprecated(note = \"@\")]", false, false, "", true),
    ("#[must_use = \"@\"]", false, false, "", true),
    ("#[serde(@)]", false, false, "", false),
    ("#[deny(@)]", false, false, "", true),
    ("#[builder_struct_attr(serde(@, x = 1))]", true, false, "#[serde(@, x = 1)]", false),
    ("#[repr(@)]", false, false, "", false),
    ("#[builder_impl_attr(x::y(@))]", false, true, "#[x::y(@)]", false),
];
fn mark(t: &str, n: usize) -> String {
    t.replace('@', &format!("mk{}", n))
}
fn norm(t: &str) -> String {
    let t = if t.starts_with("///") { format!("{}\n", t) } else { t.to_string() };
    let a = syn::parse::Parser::parse_str(syn::Attribute::parse_outer, &t).unwrap_or_else(|e| fail(&format!("{}: {}", t, e)));
    a[0].to_token_stream().to_string()
}

struct Input {
    cfg: Cfg,
    /// attributes of struct and of each field
    s: Vec<A>,
    f: Vec<Vec<A>>,
    /// equal attributes stay equal: all of a place have the same marker
    same: bool,
}
impl Input {
    /// The same attributes, all of a place with the same marker, so that repeated ones are equal.
    fn same(self, at: usize) -> Input {
        Input::marked(self.cfg, self.s, self.f, at, true)
    }
    /// Numbers the attributes; `at` is the place of the builder attribute.
    fn new(cfg: Cfg, s: Vec<usize>, f: Vec<Vec<usize>>, at: usize) -> Input {
        let pick = |v: Vec<usize>, al: &[A]| v.into_iter().map(|i| al[i]).collect::<Vec<A>>();
        Input::with(cfg, pick(s, &STRUCT), f.into_iter().map(|v| pick(v, &FIELD)).collect(), at)
    }
    fn with(cfg: Cfg, s: Vec<A>, f: Vec<Vec<A>>, at: usize) -> Input {
        Input::marked(cfg, s, f, at, false)
    }
    fn marked(mut cfg: Cfg, s: Vec<A>, f: Vec<Vec<A>>, at: usize, same: bool) -> Input {
        let lines = |v: &[A], base: usize| -> Vec<String> {
            let mut r: Vec<String> = v.iter().enumerate().map(|(k, a)| mark(a.0, base + if same { 0 } else { k })).collect();
            r.insert(at.min(v.len()), "@".into());
            r
        };
        cfg.s.attrs = lines(&s, 900);
        for i in 0..cfg.f.len() {
            cfg.f[i].attrs = lines(&f[i], 100 * (i + 1));
        }
        Input { cfg, s, f, same }
    }
    fn part(&self, v: &[A], base: usize, first: bool) -> Vec<String> {
        v.iter()
            .enumerate()
            .filter(|(_, a)| if first { a.1 } else { a.2 })
            .map(|(k, a)| norm(&mark(if a.3.is_empty() { a.0 } else { a.3 }, base + if self.same { 0 } else { k })))
            .collect()
    }
    /// site -> attributes with markers, in order
    fn model(&self) -> BTreeMap<String, Vec<String>> {
        let c = &self.cfg;
        let mut m = BTreeMap::new();
        m.insert("the builder struct".to_string(), self.part(&self.s, 900, true));
        m.insert("the builder impl".to_string(), self.part(&self.s, 900, false));
        for i in 0..c.f.len() {
            m.insert(format!("builder field {}", c.f[i].name), self.part(&self.f[i], 100 * (i + 1), true));
            if c.has_setter(i) {
                let st = self.part(&self.f[i], 100 * (i + 1), false);
                m.insert(format!("method {}", c.setter_name(i)), st.clone());
                if c.has_try(i) {
                    m.insert(format!("method {}", c.try_name(i)), st.clone());
                }
                if let Some(e) = &c.f[i].each {
                    m.insert(format!("method {}", e.name), st);
                }
            }
        }
        m.retain(|_, v| !v.is_empty());
        m
    }
    fn derives(&self) -> Vec<String> {
        let c = &self.cfg;
        let mut v = c.s.derive.clone();
        if c.needs_clone() && !v.iter().any(|d| d == "Clone") {
            v.push("Clone".into());
        }
        let mut v: Vec<String> = v.iter().map(|d| d.replace(' ', "")).collect();
        v.sort();
        v
    }
}

#[derive(Default)]
struct Sites {
    m: BTreeMap<String, Vec<String>>,
    derives: Vec<String>,
    late_derive: bool,
    builder: String,
    strukt: String,
}
struct Rest<'a>(&'a mut Vec<String>);
impl<'a, 'b> Visit<'b> for Rest<'a> {
    fn visit_attribute(&mut self, a: &'b syn::Attribute) {
        let t = a.to_token_stream().to_string();
        if t.contains("mk") {
            self.0.push(t);
        }
    }
}
impl Sites {
    fn take(&mut self, site: String, a: &mut Vec<syn::Attribute>) {
        let v: Vec<String> = std::mem::take(a).iter().map(|a| a.to_token_stream().to_string()).filter(|t| t.contains("mk")).collect();
        if !v.is_empty() {
            self.m.entry(site).or_default().extend(v);
        }
    }
    fn rest(&mut self, site: &str, i: &syn::Item) {
        let mut v = vec![];
        Rest(&mut v).visit_item(i);
        if !v.is_empty() {
            self.m.entry(site.to_string()).or_default().extend(v);
        }
    }
    fn items(&mut self, items: Vec<syn::Item>, expanded: bool) {
        for it in items {
            match it {
                syn::Item::Struct(mut s) if s.ident == self.builder => {
                    let mut marked = false;
                    for a in &s.attrs {
                        if a.path().is_ident("derive") {
                            self.late_derive |= marked;
                            let _ = a.parse_nested_meta(|m| {
                                self.derives.push(m.path.to_token_stream().to_string().replace(' ', ""));
                                Ok(())
                            });
                        }
                        marked |= a.to_token_stream().to_string().contains("mk");
                    }
                    self.take("the builder struct".into(), &mut s.attrs);
                    for f in s.fields.iter_mut() {
                        let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                        self.take(format!("builder field {}", n), &mut f.attrs);
                    }
                    self.rest("elsewhere", &syn::Item::Struct(s));
                }
                syn::Item::Struct(s) if expanded && s.ident == self.strukt => {}
                syn::Item::Impl(mut i) if i.trait_.is_none() && matches!(&*i.self_ty, syn::Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == self.builder)) => {
                    self.take("the builder impl".into(), &mut i.attrs);
                    for m in i.items.iter_mut() {
                        if let syn::ImplItem::Fn(m) = m {
                            self.take(format!("method {}", m.sig.ident), &mut m.attrs);
                        }
                    }
                    self.rest("elsewhere", &syn::Item::Impl(i));
                }
                // rustc's own derives copy lint attributes
                syn::Item::Impl(i) if expanded && i.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) => {}
                i => self.rest("elsewhere", &i),
            }
        }
    }
}
fn judge(inp: &Input, s: &Sites, derives: bool) -> Result<(), String> {
    if derives {
        let mut d = s.derives.clone();
        d.sort();
        if d != inp.derives() {
            return Err(format!("the builder derives {:?} instead of {:?}", d, inp.derives()));
        }
        if s.late_derive {
            return Err("a derive comes after a forwarded attribute".into());
        }
    }
    let m = inp.model();
    for k in m.keys().chain(s.m.keys()) {
        if m.get(k) != s.m.get(k) {
            return Err(format!("attributes of {} are {:?} instead of {:?}", k, s.m.get(k).cloned().unwrap_or_default(), m.get(k).cloned().unwrap_or_default()));
        }
    }
    Ok(())
}

/// all sequences over 0..n of length up to k
fn seqs(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..k {
        last = last.iter().flat_map(|p: &Vec<usize>| (0..n).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect();
        v.extend(last.clone());
    }
    v
}
fn field_kinds(n: &str) -> Vec<FieldCfg> {
    let f = || FieldCfg::new(n, Ty::c());
    vec![
        f(),
        FieldCfg { try_: true, into: Some(true), prefix: Some("with".into()), ..f() }.each(&format!("add_{}", n), Some(true)),
        FieldCfg { skip: Some(true), ..f() },
        FieldCfg { custom: Some(true), try_: true, ..f() },
        FieldCfg { pattern: Some(Pat::Own), try_: true, ..f() }.each(&format!("add_{}", n), None),
        FieldCfg { fty: Some(Ty::c()), fbuild: Some(Bld::Std), try_: true, ..f() },
        FieldCfg { pattern: Some(Pat::Imm), def: Def::Bare, vis: Vis::Private, fvis: Vis::Public, ..f() },
    ]
}
fn struct_kinds() -> Vec<StructCfg> {
    let d = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    vec![
        StructCfg::new(),
        StructCfg { derive: d(&["Debug"]), ..StructCfg::pat(Some(Pat::Own)) },
        StructCfg { error: ErrK::Custom, custom_ctor: true, no_std: true, vis: "", ..StructCfg::pat(Some(Pat::Own)) },
        StructCfg { bname: Some("MyB".into()), sdef: SD::Bare, b_skip: Some(true), ..StructCfg::pat(Some(Pat::Imm)) },
        StructCfg { try_: true, s_into: Some(true), s_prefix: Some("set".into()), ..StructCfg::new() },
        StructCfg { s_skip: Some(true), derive: d(&["PartialEq", "Debug"]), ..StructCfg::new() },
    ]
}

type Mk<'a> = &'a (dyn Fn(u64) -> Option<Input> + Sync);
fn sweep(cx: &Ctx, name: &str, n: u64, mk: Mk, rep: &mut Report) {
    let t0 = cx.elapsed();
    let next = AtomicU64::new(0);
    let cnt = AtomicU64::new(0);
    let sites = AtomicU64::new(0);
    let bad: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..cx.jobs {
            s.spawn(|| loop {
                let b = next.fetch_add(64, Ordering::Relaxed);
                if b >= n {
                    break;
                }
                for k in b..(b + 64).min(n) {
                    let inp = match mk(k) {
                        Some(i) => i,
                        None => continue,
                    };
                    cnt.fetch_add(1, Ordering::Relaxed);
                    let item = inp.cfg.render(PLAIN);
                    let r = match expand(&item) {
                        Exp::Ok(t) => match syn::parse_str::<syn::File>(&t) {
                            Ok(f) => {
                                let mut s = Sites { builder: inp.cfg.builder(), strukt: inp.cfg.s.name.clone(), ..Sites::default() };
                                s.items(f.items, false);
                                sites.fetch_add(inp.model().len() as u64 + 1, Ordering::Relaxed);
                                judge(&inp, &s, true)
                            }
                            Err(e) => Err(format!("the expansion does not parse: {}", e)),
                        },
                        Exp::Syntax(e) => fail(&format!("{}\n{}", e, item)),
                        e => Err(format!("not expanded: {:?}", e)),
                    };
                    if let Err(e) = r {
                        bad.lock().unwrap().push((k, e, item));
                    }
                }
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort();
    for (_, what, item) in bad.iter().take(3) {
        rep.violate(what.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", what.replace('\n', " "), item));
    }
    let c = cnt.load(Ordering::Relaxed);
    rep.points += n;
    rep.configs += c;
    rep.expansions += c;
    rep.states += c;
    rep.traces += c;
    rep.transitions += sites.load(Ordering::Relaxed);
    rep.spaces.push(json!({"space": name, "expansions": c, "items_compared": sites.load(Ordering::Relaxed)}));
    eprintln!("  {}: {} expansions, {:.1}s", name, c, cx.elapsed() - t0);
}

pub fn c15(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let other = vec![0usize, 5, 8, 4];
    let sother = vec![2usize, 8, 3, 0];
    let fk = field_kinds("a");
    let fk2 = field_kinds("b");
    let sk = struct_kinds();
    // field attributes
    let fs = seqs(FIELD.len(), if t { 4 } else { 3 });
    let kinds = fk.len() as u64;
    let n = fs.len() as u64 * kinds;
    sweep(cx, "sequences of different and of equal field attributes x kind of field", n * 2, &|k| {
        let (same, k) = (k >= n, k % n);
        let s = fs[(k / kinds) as usize].clone();
        let kind = (k % kinds) as usize;
        let sc = sk[(k as usize / 7 + kind) % sk.len()].clone();
        let at = (k as usize) % (s.len() + 1);
        let c = Cfg::new(sc, vec![fk[kind].clone(), fk2[(kind + 1) % fk2.len()].clone()]);
        let i = Input::new(c, sother.clone(), vec![s, other.clone()], at);
        Some(if same { i.same(at) } else { i })
    }, rep);
    // every kind of struct and field and both positions, with sequences of two
    let fs2 = seqs(FIELD.len(), 2);
    let n = fs2.len() as u64 * kinds * sk.len() as u64 * 6;
    sweep(cx, "pairs of field attributes x kind of field x kind of struct x place of the builder attribute x position", n, &|mut k| {
        let s = fs2[(k % fs2.len() as u64) as usize].clone();
        k /= fs2.len() as u64;
        let kind = (k % kinds) as usize;
        k /= kinds;
        let sc = sk[(k % sk.len() as u64) as usize].clone();
        k /= sk.len() as u64;
        let at = (k % 3) as usize;
        if at > s.len() {
            return None;
        }
        let (a, b) = (fk[kind].clone(), fk2[(kind + 2) % fk2.len()].clone());
        Some(if k / 3 == 0 {
            Input::new(Cfg::new(sc, vec![a, b]), sother.clone(), vec![s, other.clone()], at)
        } else {
            Input::new(Cfg::new(sc, vec![b, a]), sother.clone(), vec![other.clone(), s], at)
        })
    }, rep);
    // struct attributes
    let ss = seqs(STRUCT.len(), if t { 4 } else { 3 });
    let n = ss.len() as u64 * sk.len() as u64;
    sweep(cx, "sequences of different and of equal struct attributes x kind of struct", n * 2, &|k| {
        let (same, k) = (k >= n, k % n);
        let s = ss[(k / sk.len() as u64) as usize].clone();
        let sc = sk[(k % sk.len() as u64) as usize].clone();
        let at = (k as usize) % (s.len() + 1);
        let c = Cfg::new(sc, vec![fk[k as usize % fk.len()].clone(), fk2[(k as usize / 3) % fk2.len()].clone()]);
        let i = Input::new(c, s, vec![other.clone(), vec![2, 1, 7]], at);
        Some(if same { i.same(at) } else { i })
    }, rep);
    // derives
    let al = ["Debug", "Clone", "PartialEq", "Default", "serde::Serialize", "Hash", "::a::b::Copy"];
    let ds: Vec<Vec<usize>> = seqs(al.len(), 4).into_iter().filter(|s| (0..s.len()).all(|i| !s[..i].contains(&s[i]))).collect();
    let pats: Vec<(Option<Pat>, Option<Pat>, Option<Pat>)> = PATS.iter().flat_map(|a| PATS.iter().flat_map(move |b| PATS.iter().map(move |c| (*a, *b, *c)))).collect();
    let n = (ds.len() * pats.len()) as u64;
    sweep(cx, "lists of derives x patterns of struct and two fields", n, &|k| {
        let d = &ds[k as usize / pats.len()];
        let (p, a, b) = pats[k as usize % pats.len()];
        let mut s = StructCfg::pat(p);
        s.custom_ctor = true;
        s.derive = d.iter().map(|i| al[*i].to_string()).collect();
        let c = Cfg::new(s, vec![FieldCfg { pattern: a, ..FieldCfg::new("a", Ty::v()) }, FieldCfg { pattern: b, skip: if k % 3 == 0 { Some(true) } else { None }, ..FieldCfg::new("b", Ty::v()) }]);
        Some(Input::new(c, vec![2, 0, 3], vec![vec![], vec![]], 1))
    }, rep);
    options(cx, rep);
    words(cx, &fk, &sk, rep);
    real(cx, &fk, &sk, rep);
}

/// Attributes with all sets of settings of all options, with every word at every place of a name or a type, with many
/// numbers of fields, and passed to macros as fragments.
fn options(cx: &Ctx, rep: &mut Report) {
    let all: Vec<clean::Set> = inter::alphabet().into_iter().filter(|s| !s.opt.ends_with("attrs")).collect();
    let sets = clean::subsets(&all, if cx.thorough { 3 } else { 2 });
    let input = |c: Cfg, k: u64| {
        if !(c.usable() && clean::sane(&c)) {
            return None;
        }
        let f: [&[usize]; 4] = [&[5, 0, 7, 2], &[0, 4, 5], &[3], &[7, 1, 2, 6, 8]];
        let s: [&[usize]; 2] = [&[0, 3, 2, 8], &[5, 1, 4]];
        let n = c.f.len();
        let i = Input::new(c, s[k as usize % 2].to_vec(), (0..n).map(|i| f[(i + k as usize) % 4].to_vec()).collect(), k as usize % 3);
        Some((i.cfg.clone(), i))
    };
    let judge = |_: &Cfg, i: &Input, ts: TokenStream| {
        let f: syn::File = syn::parse2(ts).map_err(|e| format!("the expansion does not parse: {}", e))?;
        let mut s = Sites { builder: i.cfg.builder(), strukt: i.cfg.s.name.clone(), ..Sites::default() };
        s.items(f.items, false);
        judge(i, &s, true)?;
        Ok(i.model().len() as u64 + 1)
    };
    inter::compare(cx, "sets of settings of all options", sets.len() as u64, &|k| input(clean::apply(&all, &sets[k as usize]), k), &judge, rep);
    let w = inter::Words::new(all.into_iter().filter(|s| ["pattern", "f.each", "f.try", "f.ty", "f.skip"].contains(&s.opt)).collect(), true);
    inter::compare(cx, "single settings x words", w.total(), &|k| input(w.at(k)?, k), &judge, rep);
    let all: Vec<clean::Set> = inter::alphabet().into_iter().filter(|s| !s.opt.ends_with("attrs")).collect();
    let sets = clean::subsets(&all, if cx.thorough { 2 } else { 1 });
    let n = crate::frag::KINDS.len() as u64;
    inter::compare(cx, "single settings x fragments of macros", sets.len() as u64 * n * 4, &|k| {
        let (v, k) = (k % 4, k / 4);
        let c = clean::apply(&all, &sets[(k / n) as usize]);
        let (mut c, mut i) = input(c, v)?;
        c.s.frag = crate::frag::KINDS[(k % n) as usize];
        i.cfg = c.clone();
        crate::frag::pass(&c.render(inter::spell(&c)), c.s.frag)?;
        Some((c, i))
    }, &judge, rep);
}

/// Every word as the name of an attribute, as the first in its arguments, in its text.
fn words(cx: &Ctx, fk: &[FieldCfg], sk: &[StructCfg], rep: &mut Report) {
    let dict = inter::all_words();
    // what the macro or its parser gives a meaning
    let ours = ["builder", "builder_field_attr", "builder_setter_attr", "builder_struct_attr", "builder_impl_attr", "derive"];
    let path = |w: &str| syn::parse_str::<syn::Ident>(w).is_ok();
    let mut f: Vec<A> = vec![];
    let mut s: Vec<A> = vec![];
    for w in &dict {
        let l = |t: &str| leaks(&t.replace('#', w).replace('%', "#"));
        if path(w) && !ours.contains(&w.as_str()) {
            let both = ["doc", "allow", "cfg"].contains(&w.as_str());
            for t in ["(@)", "(x, @)", "(x = \"@\")", " = \"@\""] {
                if w != "cfg_attr" {
                    f.push((l(&format!("%[#{}]", t)), both, both, "", false));
                    // documentation of the struct is not the builder's
                    let st = ["allow", "cfg"].contains(&w.as_str());
                    s.push((l(&format!("%[#{}]", t)), st, st, "", false));
                }
                for (n, a, b) in [("builder_field_attr", true, false), ("builder_setter_attr", false, true)] {
                    f.push((l(&format!("%[{}(#{})]", n, t)), a, b, l(&format!("%[#{}]", t)), false));
                }
                for (n, a, b) in [("builder_struct_attr", true, false), ("builder_impl_attr", false, true)] {
                    s.push((l(&format!("%[{}(#{})]", n, t)), a, b, l(&format!("%[#{}]", t)), false));
                }
            }
            for t in ["%[#::x(@)]", "%[x::#(@)]"] {
                f.push((l(t), false, false, "", false));
                s.push((l(t), false, false, "", false));
            }
        }
        for t in ["%[allow(#, @)]", "%[cfg(#, @)]"] {
            f.push((l(t), true, true, "", false));
            s.push((l(t), true, true, "", false));
        }
        for t in ["%[doc = \"# @\"]", "%[doc(#, @)]", "%[doc(# = \"@\")]", "/// # @", "/// @ `#`"] {
            f.push((l(t), true, true, if t.starts_with("///") { l(&t.replace("/// ", "%[doc = \" ").replace("@ `#`", "@ `#`\"]").replace("# @", "# @\"]")) } else { "" }, false));
            s.push((l(t), false, false, "", false));
        }
        for (n, a, b) in [("builder_field_attr", true, false), ("builder_setter_attr", false, true)] {
            f.push((l(&format!("%[{}(x(#, @))]", n)), a, b, l("%[x(#, @)]"), false));
        }
        for (n, a, b) in [("builder_struct_attr", true, false), ("builder_impl_attr", false, true)] {
            s.push((l(&format!("%[{}(x(#, @))]", n)), a, b, l("%[x(#, @)]"), false));
        }
    }
    let judge = |_: &Cfg, i: &Input, ts: TokenStream| {
        let f: syn::File = syn::parse2(ts).map_err(|e| format!("the expansion does not parse: {}", e))?;
        let mut s = Sites { builder: i.cfg.builder(), strukt: i.cfg.s.name.clone(), ..Sites::default() };
        s.items(f.items, false);
        judge(i, &s, true)?;
        Ok(i.model().len() as u64 + 1)
    };
    let kinds = fk.len() as u64;
    inter::compare(cx, "words in field attributes x kind of field", f.len() as u64 * kinds, &|k| {
        let (a, kind) = (f[(k / kinds) as usize], (k % kinds) as usize);
        let c = Cfg::new(sk[(k as usize / 3) % sk.len()].clone(), vec![fk[kind].clone()]);
        let l = match k % 3 {
            0 => vec![a],
            1 => vec![FIELD[0], a, FIELD[8]],
            _ => vec![FIELD[4], FIELD[5], a],
        };
        let i = Input::with(c, vec![STRUCT[2]], vec![l], k as usize % 2);
        Some((i.cfg.clone(), i))
    }, &judge, rep);
    let kinds = sk.len() as u64;
    inter::compare(cx, "words in struct attributes x kind of struct", s.len() as u64 * kinds, &|k| {
        let (a, kind) = (s[(k / kinds) as usize], (k % kinds) as usize);
        let c = Cfg::new(sk[kind].clone(), vec![fk[k as usize % fk.len()].clone()]);
        let l = match k % 3 {
            0 => vec![a],
            1 => vec![STRUCT[0], a, STRUCT[8]],
            _ => vec![STRUCT[4], STRUCT[5], a],
        };
        let i = Input::with(c, l, vec![vec![FIELD[0]]], k as usize % 2);
        Some((i.cfg.clone(), i))
    }, &judge, rep);
}

/// The same comparison on rustc's own expansion.
fn real(cx: &Ctx, fk: &[FieldCfg], sk: &[StructCfg], rep: &mut Report) {
    let ok = |al: &[A]| (0..al.len()).filter(|i| al[*i].4).collect::<Vec<_>>();
    let (fa, sa) = (ok(&FIELD), ok(&STRUCT));
    let (fs, ss) = (seqs(fa.len(), 2), seqs(sa.len(), 2));
    let mut inputs = vec![];
    for (k, s) in fs.iter().enumerate() {
        for (j, f) in fk.iter().enumerate() {
            if cx.thorough || (k + j) % 2 == 0 {
                let mut c = Cfg::new(sk[(j + k) % sk.len()].clone(), vec![f.clone()]);
                c.s.derive.clear();
                inputs.push(Input::new(c, vec![2, 3], vec![s.iter().map(|i| fa[*i]).collect()], (k + j) % 3));
            }
        }
    }
    for (k, s) in ss.iter().enumerate() {
        for (j, st) in sk.iter().enumerate() {
            let mut c = Cfg::new(st.clone(), vec![fk[(j + k) % fk.len()].clone()]);
            c.s.derive.clear();
            inputs.push(Input::new(c, s.iter().map(|i| sa[*i]).collect(), vec![vec![5, 4]], k % 3));
        }
    }
    let chunks: Vec<&[Input]> = inputs.chunks(inputs.len() / cx.jobs + 1).collect();
    let outs = par(cx.jobs, &chunks, |ci, ch| {
        let mut o = String::from("#![allow(warnings)]\n");
        for (k, i) in ch.iter().enumerate() {
            o.push_str(&format!("mod m{} {{ use mc_rt::*;\n#[derive(::derive_builder::Builder)]\n{}}}\n", k, i.cfg.render(PLAIN)));
        }
        let src = cx.work.join(format!("exp_{}.rs", ci));
        let _ = std::fs::write(&src, &o);
        let mut rc = cx.rustc_default(Kind::Meta);
        rc.flags.push("-Zunpretty=expanded".into());
        let outp = cx.work.join(format!("exp_{}.out", ci));
        std::env::set_var("RUSTC_BOOTSTRAP", "1");
        let co = cx.compile(&rc, &src, &outp);
        let mut r = Report::default();
        let text = std::fs::read_to_string(&outp).unwrap_or_default();
        let file = match syn::parse_file(&text) {
            Ok(f) if !f.items.is_empty() => f,
            _ => {
                let d: Vec<String> = co.diags.iter().filter(|d| d.level == "error").map(|d| d.rendered.clone()).collect();
                fail(&format!("rustc did not print the expansion: {} {}", d.join("\n"), co.stderr.chars().take(500).collect::<String>()))
            }
        };
        let mut seen = 0;
        for it in file.items {
            if let syn::Item::Mod(m) = it {
                if let Some(k) = m.ident.to_string().strip_prefix('m').and_then(|s| s.parse::<usize>().ok()) {
                    let inp = &ch[k];
                    let mut s = Sites { builder: inp.cfg.builder(), strukt: inp.cfg.s.name.clone(), ..Sites::default() };
                    s.items(m.content.map(|c| c.1).unwrap_or_default(), true);
                    seen += 1;
                    r.transitions += inp.model().len() as u64;
                    if let Err(e) = judge(inp, &s, false) {
                        let item = inp.cfg.render(PLAIN);
                        r.violate(e.clone(), item.clone(), format!("// kind: expand\n// with rustc: {}\n{}", e, item));
                    }
                }
            }
        }
        if seen != ch.len() {
            fail("modules missing in rustc's expansion");
        }
        r
    });
    for r in outs {
        rep.transitions += r.transitions;
        rep.viol.extend(r.viol);
    }
    rep.traces += inputs.len() as u64;
    rep.compiled += inputs.len() as u64;
    rep.sample(json!({"struct": inputs[inputs.len() / 2].cfg.render(PLAIN), "expected": inputs[inputs.len() / 2].model()}));
    rep.spaces.push(json!({"space": "rustc's own expansion, pairs of attributes", "programs": inputs.len()}));
}
