//! Interactions: all sets of settings of a fixed alphabet, up to a size, expanded in process.  The expansion of each is
//! taken apart into pieces (the slot of a field, one setter, one initializer of the build method, the rest of the build
//! method, ...), each paired with what the model says about just that piece.  For every distinct (piece, model) the
//! first configuration that has it is compiled and its builder explored.  A piece without counterpart in the model, or
//! one the model has and the expansion lacks, is a distinct piece, too.
use super::*;
use crate::frag::{K, KINDS as FRAGS};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hasher;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub const SLOT: u16 = 1;
pub const SET: u16 = 2;
pub const TRY: u16 = 4;
pub const EACH: u16 = 8;
pub const INIT: u16 = 16;
pub const SKEL: u16 = 32;
pub const EMPTY: u16 = 64;
pub const HEAD: u16 = 128;
pub const OTHER: u16 = 256;
pub const EXTRA: u16 = 512;
pub const ALL: u16 = 1023;
const KINDS: [(u16, &str); 10] = [
    (SLOT, "slots"),
    (SET, "setters"),
    (TRY, "fallible setters"),
    (EACH, "item setters"),
    (INIT, "field initializers"),
    (SKEL, "build methods"),
    (EMPTY, "empty constructors"),
    (HEAD, "headers"),
    (OTHER, "other items"),
    (EXTRA, "unmodelled or missing"),
];

/// What of the text does not matter.
#[derive(Clone, Copy)]
pub struct Norm {
    pub vis: bool,
    pub docs: bool,
}
type Ren<'a> = &'a dyn Fn(&str) -> Option<&'static str>;
struct W<'a> {
    h: DefaultHasher,
    norm: Norm,
    ren: Ren<'a>,
}
fn is_vis(g: &proc_macro2::Group) -> bool {
    g.delimiter() == Delimiter::Parenthesis
        && matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i == "crate" || i == "super" || i == "self" || i == "in")
}
fn is_doc(g: &proc_macro2::Group) -> bool {
    g.delimiter() == Delimiter::Bracket && matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i == "doc")
}
impl<'a> W<'a> {
    fn put(&mut self, s: &str) {
        self.h.write(s.as_bytes());
        self.h.write_u8(255);
    }
    fn feed(&mut self, ts: &[TokenTree]) {
        let mut i = 0;
        while i < ts.len() {
            match &ts[i] {
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    if s == "pub" && self.norm.vis {
                        if let Some(TokenTree::Group(g)) = ts.get(i + 1) {
                            if is_vis(g) {
                                i += 1;
                            }
                        }
                    } else {
                        match (self.ren)(&s) {
                            Some(r) => self.put(r),
                            None => self.put(&s),
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    if self.norm.docs && p.as_char() == '#' {
                        if let Some(TokenTree::Group(g)) = ts.get(i + 1) {
                            if is_doc(g) {
                                i += 2;
                                continue;
                            }
                        }
                    }
                    self.h.write_u32(p.as_char() as u32);
                    self.h.write_u8(matches!(p.spacing(), Spacing::Joint) as u8);
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    match (self.ren)(&s) {
                        Some(r) => self.put(r),
                        None => self.put(&s),
                    }
                }
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("<<", ">>"),
                    };
                    self.put(o);
                    let v: Vec<TokenTree> = g.stream().into_iter().collect();
                    self.feed(&v);
                    self.put(c);
                }
            }
            i += 1;
        }
    }
}
/// Splits at commas outside of groups and angle brackets.
fn commas(ts: &[TokenTree]) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur = vec![];
    let mut depth = 0i32;
    let mut dash = false;
    for t in ts {
        if let TokenTree::Punct(p) = t {
            match p.as_char() {
                '<' => depth += 1,
                '>' if !dash => depth -= 1,
                ',' if depth <= 0 => {
                    out.push(std::mem::take(&mut cur));
                    dash = false;
                    continue;
                }
                _ => {}
            }
            dash = (p.as_char() == '-' || p.as_char() == '=') && p.spacing() == Spacing::Joint;
        } else {
            dash = false;
        }
        cur.push(t.clone());
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
/// Splits at top-level brace groups and semicolons.
fn items(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur = vec![];
    for t in ts {
        let end = match &t {
            TokenTree::Group(g) => g.delimiter() == Delimiter::Brace,
            TokenTree::Punct(p) => p.as_char() == ';',
            _ => false,
        };
        cur.push(t);
        if end {
            out.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
fn ident(t: Option<&TokenTree>) -> Option<String> {
    match t {
        Some(TokenTree::Ident(i)) => Some(i.to_string()),
        _ => None,
    }
}
/// The name of `vis name: ...`, after attributes.
fn entry_name(ts: &[TokenTree]) -> Option<String> {
    for (i, t) in ts.iter().enumerate() {
        if let TokenTree::Punct(p) = t {
            if p.as_char() == ':' {
                return if i > 0 { ident(ts.get(i - 1)) } else { None };
            }
        }
    }
    None
}
/// Takes out the last struct literal of the given names; returns the entries.
fn take_literal(ts: &[TokenTree], names: &[&str]) -> Option<(Vec<TokenTree>, Vec<TokenTree>)> {
    for i in (0..ts.len()).rev() {
        if let TokenTree::Group(g) = &ts[i] {
            let v: Vec<TokenTree> = g.stream().into_iter().collect();
            if g.delimiter() == Delimiter::Brace && i > 0 && ident(ts.get(i - 1)).map_or(false, |n| names.contains(&n.as_str())) {
                let mut rest = ts.to_vec();
                rest.remove(i);
                return Some((v, rest));
            }
            if let Some((lit, inner)) = take_literal(&v, names) {
                let mut rest = ts.to_vec();
                rest[i] = TokenTree::Group(proc_macro2::Group::new(g.delimiter(), inner.into_iter().collect()));
                return Some((lit, rest));
            }
        }
    }
    None
}

/// The type with a word of it replaced.
fn unword(src: &str, w: &str) -> String {
    let mut o = String::new();
    let mut cur = String::new();
    for ch in src.chars().chain([' ']) {
        if ch.is_alphanumeric() || ch == '_' {
            cur.push(ch);
        } else {
            o.push_str(if cur == w { "@ty" } else { &cur });
            cur.clear();
            o.push(ch);
        }
    }
    o
}

/// What the model says about each piece.
struct M {
    slot: Vec<String>,
    set: Vec<String>,
    try_: Vec<String>,
    each: Vec<String>,
    init: Vec<String>,
    skel: String,
    head: String,
    other: String,
}
fn model(c: &Cfg, norm: Norm) -> M {
    if !c.s.uses.is_empty() {
        let mut d = c.clone();
        d.s.uses.clear();
        let un = |t: &mut Ty| {
            for (_, w) in &c.s.uses {
                t.src = unword(&t.src, w);
                if let Some(i) = &mut t.inner {
                    i.src = unword(&i.src, w);
                }
            }
        };
        for f in &mut d.f {
            un(&mut f.ty);
            if let Some(t) = &mut f.fty {
                un(t);
            }
        }
        return model(&d, norm);
    }
    let n = c.f.len();
    let slot: Vec<String> = (0..n)
        .map(|i| match (c.hidden(i), &c.f[i].fty) {
            (true, _) => "hidden".into(),
            (_, Some(t)) => format!("as {}", t.src),
            _ => format!("opt {}", c.f[i].ty.src),
        })
        .collect();
    let vis = |i: usize| if norm.vis { String::new() } else { format!("{:?}", c.f[i].vis) };
    let arg = |i: usize| {
        let (a, s) = c.arg(i);
        format!("{} {:?} {} {}{}", slot[i], c.pat(i), a.src, s, vis(i))
    };
    M {
        set: (0..n).map(|i| format!("{} {}", arg(i), c.into(i))).collect(),
        try_: (0..n).map(arg).collect(),
        each: (0..n).map(|i| format!("{} {:?}", arg(i), c.f[i].each.as_ref().map(|e| e.into))).collect(),
        init: (0..n)
            .map(|i| {
                let f = &c.f[i];
                // reading other fields: names
                let chk = match f.def {
                    Def::Chk(j) => format!("{} {}", j, c.f[j].name),
                    _ => String::new(),
                };
                format!("{} {} {:?} {:?} {}{}{:?}", slot[i], f.ty.src, c.none_kind(i), f.fbuild, c.strukt_pat() == Pat::Own, chk, c.s.error)
            })
            .collect(),
        skel: format!("{:?} {:?} {:?} {:?}{}", c.strukt_pat(), c.s.validate, c.s.sdef, c.s.error, c.s.gen.decl),
        head: format!("{} {:?} {} {}", c.s.gen.decl, c.s.derive, c.needs_clone(), c.s.custom_ctor),
        other: format!("{:?} {:?} {} {} {}", c.s.error, c.s.derive, c.s.custom_ctor, c.s.no_std, c.s.gen.decl),
        slot,
    }
}

/// All pieces of an expansion.
pub fn pieces(ts: TokenStream, c: &Cfg, norm: Norm, out: &mut Vec<(u16, u64)>) {
    let m = model(c, norm);
    let (b, target) = (c.builder(), c.s.name.clone());
    let err = c.error();
    let names: Vec<(String, String, Option<String>)> =
        (0..c.f.len()).map(|i| (c.setter_name(i), c.try_name(i), c.f[i].each.as_ref().map(|e| e.name.clone()))).collect();
    let lits: Vec<String> = c.f.iter().map(|f| format!("\"{}\"", unraw(&f.name))).collect();
    let words: Vec<String> = c.s.uses.iter().map(|u| u.1.clone()).collect();
    let (bn, ce) = (c.build_name(), c.create_empty());
    let ren = |i: Option<usize>| {
        let (b, target, err, names, lits, bn, ce, words) = (&b, &target, &err, &names, &lits, &bn, &ce, &words);
        move |s: &str| -> Option<&'static str> {
            if !words.is_empty() && words.iter().any(|w| w == s) {
                return Some("@ty");
            }
            if let Some(i) = i {
                if s == c.f[i].name {
                    return Some("@f");
                }
                if s == lits[i] {
                    return Some("@lit");
                }
                if s == names[i].0 {
                    return Some("@set");
                }
                if s == names[i].1 {
                    return Some("@try");
                }
                if names[i].2.as_deref() == Some(s) {
                    return Some("@each");
                }
            }
            if i.is_none() {
                if let Some(k) = c.f.iter().position(|f| f.name == s) {
                    return Some(["@0", "@1", "@2", "@3", "@4", "@5", "@6", "@7"][k.min(7)]);
                }
            }
            if s == b {
                Some("@B")
            } else if s == target {
                Some("@T")
            } else if err.as_deref() == Some(s) {
                Some("@E")
            } else if s == bn {
                Some("@b")
            } else if s == ce {
                Some("@c")
            } else {
                None
            }
        }
    };
    let mut piece = |kind: u16, model: &str, i: Option<usize>, toks: &[&[TokenTree]]| {
        let r = ren(i);
        let mut w = W { h: DefaultHasher::new(), norm, ren: &r };
        w.h.write_u16(kind);
        w.put(model);
        for t in toks {
            w.feed(t);
            w.put("@@");
        }
        out.push((kind, w.h.finish()));
    };
    let mut seen = vec![[false; 5]; c.f.len()];
    let (mut seen_build, mut seen_empty, mut seen_struct) = (false, false, false);
    for it in items(ts) {
        let body = match it.last() {
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => g.clone(),
            _ => {
                piece(OTHER, &m.other, None, &[&it]);
                continue;
            }
        };
        let head = &it[..it.len() - 1];
        let word = |w: &str| head.iter().position(|t| matches!(t, TokenTree::Ident(i) if i == w));
        let is_struct = word("struct").map_or(false, |k| ident(head.get(k + 1)).as_deref() == Some(b.as_str()));
        let for_ = head.iter().enumerate().any(|(k, t)| matches!(t, TokenTree::Ident(i) if i == "for") && !matches!(head.get(k + 1), Some(TokenTree::Punct(p)) if p.as_char() == '<'));
        let is_impl = word("impl").is_some() && !for_ && head.iter().any(|t| matches!(t, TokenTree::Ident(i) if *i == b));
        let inner: Vec<TokenTree> = body.stream().into_iter().collect();
        if is_struct {
            seen_struct = true;
            piece(HEAD, &m.head, None, &[head]);
            let fs = commas(&inner);
            for (k, f) in fs.iter().enumerate() {
                match entry_name(f).and_then(|n| c.f.iter().position(|x| x.name == n)) {
                    Some(i) => {
                        seen[i][0] = true;
                        piece(SLOT, &format!("{} {}", m.slot[i], i == k), Some(i), &[f]);
                    }
                    None => piece(EXTRA, "field", None, &[f]),
                }
            }
        } else if is_impl {
            piece(HEAD, &m.head, None, &[head]);
            for fun in items(body.stream()) {
                let k = fun.iter().position(|t| matches!(t, TokenTree::Ident(i) if i == "fn"));
                let name = k.and_then(|k| ident(fun.get(k + 1))).unwrap_or_default();
                let fb: Vec<TokenTree> = match fun.last() {
                    Some(TokenTree::Group(g)) => g.stream().into_iter().collect(),
                    _ => vec![],
                };
                let fh = &fun[..fun.len() - 1];
                if name == bn && c.has_build() || name == ce {
                    let build = name == bn && c.has_build();
                    if build {
                        seen_build = true;
                    } else {
                        seen_empty = true;
                    }
                    let (kind, col, lit) = if build { (SKEL, 1, take_literal(&fb, &[&target])) } else { (EMPTY, 2, take_literal(&fb, &["Self", &b])) };
                    let model = |i: usize| if build { &m.init[i] } else { &m.slot[i] };
                    match lit {
                        Some((lit, rest)) => {
                            let es = commas(&lit);
                            let mut order = String::new();
                            for e in &es {
                                match entry_name(e).and_then(|n| c.f.iter().position(|x| x.name == n)) {
                                    Some(i) => {
                                        seen[i][col] = true;
                                        order.push(if order.len() == i { '.' } else { '!' });
                                        piece(if build { INIT } else { EMPTY }, model(i), Some(i), &[e]);
                                    }
                                    None => piece(EXTRA, "entry", None, &[e]),
                                }
                            }
                            let ok = !order.contains('!') && order.len() == c.f.len();
                            let sk = if build { &m.skel } else { &m.head };
                            piece(kind, &format!("{} {}", sk, ok), None, &[fh, &rest]);
                        }
                        None => {
                            // of another form: all of it together
                            let all: Vec<&String> = (0..c.f.len()).map(model).collect();
                            for i in 0..c.f.len() {
                                seen[i][col] = true;
                            }
                            piece(kind, &format!("{:?} {}", all, m.skel), if c.f.len() == 1 { Some(0) } else { None }, &[&fun]);
                        }
                    }
                    continue;
                }
                let mut known = false;
                for i in 0..c.f.len() {
                    if !c.has_setter(i) {
                        continue;
                    }
                    if name == names[i].0 {
                        seen[i][3] = true;
                        known = true;
                        piece(SET, &m.set[i], Some(i), &[&fun]);
                    } else if c.has_try(i) && name == names[i].1 {
                        seen[i][4] = true;
                        known = true;
                        piece(TRY, &m.try_[i], Some(i), &[&fun]);
                    } else if names[i].2.as_ref() == Some(&name) {
                        known = true;
                        piece(EACH, &m.each[i], Some(i), &[&fun]);
                    }
                    if known {
                        break;
                    }
                }
                if !known {
                    // whose is it?
                    let i = (0..c.f.len()).find(|i| name == names[*i].0 || name == names[*i].1);
                    piece(EXTRA, "fn", i, &[&fun]);
                }
            }
        } else {
            piece(OTHER, &m.other, None, &[&it]);
        }
    }
    for i in 0..c.f.len() {
        let need = [true, c.has_build(), true, c.has_setter(i), c.has_try(i)];
        for k in 0..5 {
            if need[k] && !seen[i][k] {
                piece(EXTRA, &format!("missing {} {}", k, m.try_[i]), None, &[]);
            }
        }
    }
    if !seen_struct || !seen_empty || seen_build != c.has_build() {
        piece(EXTRA, "no builder", None, &[]);
    }
}

/// How the alphabet is used.
pub struct Plan {
    pub kinds: u16,
    pub size: usize,
    /// with a set of more than `size` settings, at least this many of these
    pub focus: &'static [&'static str],
    pub focus_size: usize,
    pub absent: bool,
    /// also expand those that are not sensible
    pub rest: bool,
    pub depth: usize,
    pub cap: u64,
}
impl Default for Plan {
    fn default() -> Self {
        Plan { kinds: ALL, size: 3, focus: &[], focus_size: 0, absent: true, rest: false, depth: 3, cap: 400 }
    }
}
pub fn alphabet() -> Vec<clean::Set> {
    let mut all = clean::struct_settings();
    for i in 0..2 {
        all.extend(clean::field_settings(i));
        all.extend(clean::more_settings(i));
    }
    all.extend(clean::shape_settings());
    all
}

/// Visits all sets of settings of a plan, in parallel; the states of the workers.
pub fn for_sets<S: Send>(cx: &Ctx, all: &[clean::Set], p: &Plan, init: impl Fn() -> S + Sync, visit: impl Fn(&mut S, &Vec<u16>) + Sync) -> Vec<S> {
    let n = all.len();
    // work items: the first two settings; the sets are completed in lexicographic order
    let mut work: Vec<Vec<u16>> = vec![vec![]];
    for a in 0..n as u16 {
        work.push(vec![a]);
        for b in a + 1..n as u16 {
            if all[a as usize].opt != all[b as usize].opt {
                work.push(vec![a, b]);
            }
        }
    }
    let is_focus: Vec<bool> = all.iter().map(|s| p.focus.iter().any(|f| s.opt == *f)).collect();
    let next = AtomicU64::new(0);
    let out = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..cx.jobs {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut st = init();
                    loop {
                        let k = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if k >= work.len() {
                            break;
                        }
                        let w = &work[k];
                        if w.len() <= p.size {
                            visit(&mut st, w);
                        }
                        if w.len() == 2 {
                            extend(all, &is_focus, p, w.clone(), p.size.max(p.focus_size), &mut |q| visit(&mut st, q));
                        }
                    }
                    out.lock().unwrap().push(st);
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap()
}
/// Are the values of type parameters used only as any type allows?
pub fn opaque(c: &Cfg) -> bool {
    c.s.gen.decl.is_empty() || !(0..c.f.len()).any(|i| c.f[i].ty.src.contains('X') && (c.hidden(i) || c.f[i].fty.is_some() || c.f[i].def != Def::No || c.f[i].fbuild.is_some()))
}
/// Can the configuration be compiled and observed?
pub fn observable(c: &Cfg) -> bool {
    // validation functions and defaults of generic structs cannot be observed by the harness
    let blind = !c.s.gen.decl.is_empty() && (c.s.validate || c.s.sdef == SD::Bare);
    !blind && opaque(c) && c.usable() && clean::sane(c)
}
/// `compile_error!` can only be at the top.
fn is_error(ts: &TokenStream) -> bool {
    ts.clone().into_iter().take(8).any(|t| matches!(t, TokenTree::Ident(i) if i == "compile_error"))
}

/// The first configurations with each distinct piece.
pub fn representatives(cx: &Ctx, name: &str, all: &[clean::Set], p: &Plan, norm: Norm, good: &(dyn Fn(&Cfg) -> bool + Sync), rep: &mut Report) -> Vec<Cfg> {
    let t0 = cx.elapsed();
    #[derive(Default)]
    struct St {
        own: HashMap<(u16, u64), Vec<u16>>,
        total: u64,
        usable: u64,
        bad: Vec<(Vec<u16>, String, String)>,
        buf: Vec<(u16, u64)>,
    }
    let less = |a: &Vec<u16>, b: &Vec<u16>| (a.len(), a) < (b.len(), b);
    let outs = for_sets(cx, all, p, St::default, |st, set| {
        st.total += 1;
        let c = clean::apply(all, set);
        let ok = good(&c);
        if !ok && !p.rest {
            return;
        }
        let text = c.render(PLAIN);
        let di: syn::DeriveInput = match syn::parse_str(&text) {
            Ok(d) => d,
            Err(e) => fail(&format!("generated source does not parse: {}\n{}", e, text)),
        };
        let ts = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| derive_builder_core::builder_for_struct(di))) {
            Ok(ts) => ts,
            Err(_) => {
                st.bad.push((set.clone(), "the macro panics".into(), text));
                return;
            }
        };
        if !ok {
            if syn::parse2::<syn::File>(ts.clone()).is_err() {
                st.bad.push((set.clone(), "the expansion does not parse".into(), text));
            }
            return;
        }
        st.usable += 1;
        if is_error(&ts) {
            st.bad.push((set.clone(), format!("a valid struct is rejected: {}", ts), text));
            return;
        }
        st.buf.clear();
        pieces(ts, &c, norm, &mut st.buf);
        for k in &st.buf {
            if k.0 & (p.kinds | EXTRA) == 0 {
                continue;
            }
            match st.own.get_mut(k) {
                Some(v) => {
                    if less(set, v) {
                        *v = set.clone();
                    }
                }
                None => {
                    st.own.insert(*k, set.clone());
                }
            }
        }
    });
    let mut merged: HashMap<(u16, u64), Vec<u16>> = HashMap::new();
    let (mut tot, mut us, mut bad) = (0, 0, vec![]);
    for st in outs {
        tot += st.total;
        us += st.usable;
        bad.extend(st.bad);
        for (k, v) in st.own {
            match merged.get_mut(&k) {
                Some(o) => {
                    if less(&v, o) {
                        *o = v;
                    }
                }
                None => {
                    merged.insert(k, v);
                }
            }
        }
    }
    bad.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    for (_, what, item) in bad.iter().take(3) {
        rep.violate(what.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", what.replace('\n', " "), item));
    }
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let mut sets: Vec<Vec<u16>> = vec![];
    for (k, v) in merged {
        *counts.entry(KINDS.iter().find(|x| x.0 == k.0).unwrap().1).or_default() += 1;
        sets.push(v);
    }
    sets.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
    sets.dedup();
    let exp = if p.rest { tot } else { us };
    rep.points += tot;
    rep.configs += exp;
    rep.expansions += exp;
    rep.distinct += sets.len() as u64;
    rep.spaces.push(json!({"space": name, "settings": all.len(), "sets": tot, "configurations": exp, "well_formed": us, "distinct_pieces": counts, "representatives": sets.len()}));
    eprintln!("  {}: {} settings, {} sets, {} usable, {:?}, {} representatives, {:.1}s", name, all.len(), tot, us, counts, sets.len(), cx.elapsed() - t0);
    sets.iter().map(|s| clean::apply(all, s)).collect()
}
fn extend(all: &[clean::Set], focus: &[bool], p: &Plan, set: Vec<u16>, max: usize, visit: &mut dyn FnMut(&Vec<u16>)) {
    if set.len() >= max {
        return;
    }
    let from = *set.last().unwrap() as usize + 1;
    for k in from..all.len() {
        if set.iter().any(|j| all[*j as usize].opt == all[k].opt) {
            continue;
        }
        let mut q = set.clone();
        q.push(k as u16);
        if q.len() <= p.size || q.iter().filter(|j| focus[**j as usize]).count() >= q.len() - p.size {
            visit(&q);
        }
        extend(all, focus, p, q, max, visit);
    }
}

const BEHAVE: Norm = Norm { vis: true, docs: true };

/// The exploration of interactions for a property: the pieces it is about; in the quick tier all sets of up to three
/// settings, or all pairs and all triples with a setting of the focus; in the thorough tier all triples and, with a
/// focus, all sets of four with a setting of the focus.
pub fn for_property(cx: &Ctx, rep: &mut Report) {
    const N: u16 = 0;
    let (kinds, focus): (u16, &'static [&'static str]) = match cx.prop.as_str() {
        "C01" | "C20" => (ALL, &[]),
        "C02" => (INIT | SKEL, &[]),
        "C03" => (INIT | SKEL, &["default", "f.default", "g.default", "setter.skip", "f.skip", "g.skip"]),
        "C04" => (SLOT | SET | TRY | EACH | HEAD | SKEL, &["pattern", "f.pattern", "g.pattern", "derive"]),
        "C05" => (SLOT | SET | TRY | EACH, &[]),
        "C06" => (SLOT | SET | TRY, &["try_setter", "f.try", "g.try"]),
        "C07" => (SLOT | SET | EACH, &["f.each", "g.each"]),
        "C08" => (SKEL | INIT, &["validate", "error"]),
        "C09" => (SLOT | SET | TRY | EACH, &["setter.skip", "f.skip", "g.skip", "f.custom", "g.custom", "f.setter", "g.setter"]),
        "C10" => (HEAD | SET | TRY | EACH | SKEL, &["name", "build_fn.name", "create_empty", "setter.prefix", "f.prefix", "g.prefix", "f.name", "g.name", "f.field", "g.field", "struct name"]),
        "C12" => (SLOT | SET | TRY | EACH | INIT, &[]),
        "C14" => (OTHER | SKEL | INIT, &["error", "validate", "no_std", "name"]),
        "C21" => (EMPTY | OTHER | HEAD, &["custom_constructor", "create_empty", "derive", "f.ty", "g.ty"]),
        _ => (N, &[]),
    };
    let t = cx.thorough;
    let p = Plan {
        kinds,
        size: if t || focus.is_empty() { 3 } else { 2 },
        focus,
        focus_size: if focus.is_empty() { 3 } else if t { 4 } else { 3 },
        absent: true,
        rest: false,
        depth: if t { 4 } else { 3 },
        cap: if t { 3_000 } else { 400 },
    };
    interactions(cx, &p, rep);
    if kinds != N {
        words(cx, kinds, rep);
        fragments(cx, kinds, rep);
    }
}

/// Words that might mean something to the implementation: those of its sources, and common names.
fn dictionary() -> Vec<String> {
    let mut all: std::collections::BTreeSet<String> = COMMON.split_whitespace().map(|s| s.to_string()).collect();
    let repo = std::env::var("MC_REPO").unwrap_or("/repo".into());
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        if let Ok(r) = std::fs::read_dir(d) {
            for e in r.flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, out);
                } else if p.extension().map_or(false, |e| e == "rs") {
                    out.push(p);
                }
            }
        }
    }
    let mut files = vec![];
    for d in ["derive_builder_core/src", "derive_builder_macro/src", "derive_builder/src"] {
        walk(&std::path::Path::new(&repo).join(d), &mut files);
    }
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        for line in text.lines() {
            // not the prose
            if line.trim_start().starts_with("//") {
                continue;
            }
            let mut cur = String::new();
            for ch in line.chars().chain([' ']) {
                if ch.is_ascii_alphanumeric() || ch == '_' {
                    cur.push(ch);
                } else {
                    if cur.len() <= 24 && cur.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && cur != "_" {
                        all.insert(cur.clone());
                    }
                    cur.clear();
                }
            }
        }
    }
    all.into_iter().collect()
}
const COMMON: &str = "a b x y i n id name names value values data kind ty typ tag key keys index idx len count size inner outer item items
    list map set path paths file url host port user email timeout enabled flag flags mode state status config options opts
    default error err result ok some none new build builder create make self_ this other clone from into try_from with
    bool char str u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 String Vec VecDeque HashMap HashSet BTreeMap
    BTreeSet Box Rc Arc Cow Cell RefCell Mutex RwLock PhantomData PhantomPinned Duration Instant PathBuf OsString CString
    Ordering Range NonZeroU8 Pin Weak Result Maybe Optional Wrapping Bytes Value Uuid DateTime Url Regex _hidden __private
    größe 名前 é x1 a_b_c X9 thisIsCamel SCREAMING_CASE trailing_ __double _1 o0 l1
    set_a with_a try_a get_a add_a push extend insert is_empty";
const KEYWORDS: &str = "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self
    static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof
    unsized virtual yield try gen";

/// Every word at every place of a name or a type, each with every single setting; many numbers of fields, likewise.
/// All words, keywords too.
pub fn all_words() -> Vec<String> {
    let mut v = dictionary();
    v.extend(KEYWORDS.split_whitespace().map(|w| w.to_string()));
    v.sort();
    v.dedup();
    v
}
pub struct Words {
    pub dict: Vec<String>,
    all: Vec<clean::Set>,
    /// of what the generated code consists itself: renaming cannot tell it from the word
    common: std::collections::BTreeSet<String>,
    /// is the code only read, and not explored?
    read: bool,
}
const PLACES: u64 = 12;
const LARGE: [usize; 11] = [50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200];
const COUNTS: u64 = 40 + LARGE.len() as u64;
impl Words {
    fn per(&self) -> u64 {
        self.dict.len() as u64 * PLACES + COUNTS * 2
    }
    pub fn total(&self) -> u64 {
        (self.all.len() as u64 + 1) * self.per()
    }
    /// Settings which leave names and types of field 0 alone.
    pub fn settings() -> Vec<clean::Set> {
        let mut all = clean::struct_settings();
        all.extend(clean::field_settings(0));
        all.retain(|s| !["f.field", "f.type", "generics", "struct name", "struct attrs", "f.attrs", "crate"].contains(&s.opt) && !VIS.contains(&s.opt));
        all
    }
    pub fn new(all: Vec<clean::Set>, read: bool) -> Words {
    let kw: Vec<&str> = KEYWORDS.split_whitespace().collect();
    let dict: Vec<String> = dictionary().into_iter().filter(|w| !kw.contains(&w.as_str())).collect();
    let mut common: std::collections::BTreeSet<String> = Default::default();
    for s in &all {
        let mut c = clean::base();
        (s.go)(&mut c);
        if let Ok(di) = syn::parse_str(&c.render(PLAIN)) {
            if let Ok(ts) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| derive_builder_core::builder_for_struct(di))) {
                idents(ts, &mut common);
            }
        }
    }
    Words { dict, all, common, read }
    }
    pub fn at(&self, k: u64) -> Option<Cfg> {
        let own = ::mc_rt::NAMES;
        let (all, dict, common) = (&self.all, &self.dict, &self.common);
        let (nw, counts) = (dict.len() as u64, COUNTS);
        let (set, k) = (k / self.per(), k % self.per());
        let mut c = clean::base();
        if set > 0 {
            (all[set as usize - 1].go)(&mut c);
        }
        let shift = |c: &mut Cfg, n: usize| {
            for f in &mut c.f {
                if let Def::Chk(j) = &mut f.def {
                    *j += n
                }
            }
            if let SD::Chk(j) = &mut c.s.sdef {
                *j += n;
            }
        };
        if k < counts * 2 {
            let n = (k / 2) as usize;
            let n = if n < 40 { n } else { LARGE[n - 40] };
            // where indices are part of the text
            if n > 5 && set > 0 && (["f.build", "f.ty"].contains(&all[set as usize - 1].opt) || all[set as usize - 1].opt.ends_with("default") && (c.f.iter().any(|f| !matches!(f.def, Def::No | Def::Bare)) || !matches!(c.s.sdef, SD::No | SD::Bare))) {
                return None;
            }
            if k % 2 == 0 {
                for k in 0..n {
                    c.f.push(FieldCfg::new(&format!("y{}", k), Ty::v()));
                }
            } else {
                shift(&mut c, n);
                for k in 0..n {
                    c.f.insert(0, FieldCfg::new(&format!("y{}", k), Ty::v()));
                }
            }
            return Some(c);
        }
        let k = k - counts * 2;
        let (w, place) = (&dict[(k % nw) as usize], k / nw);
        let few = self.read || set == 0 || ["pattern", "setter.into", "setter.strip_option", "try_setter", "f.each", "f.strip", "f.into", "f.default", "f.skip", "f.custom", "f.prefix", "setter.prefix", "name", "error"].contains(&all[set as usize - 1].opt);
        if self.read {
        } else if common.contains(w) && !few || common.contains(w) && set > 0 && !["setter.into", "setter.strip_option", "try_setter", "f.each", "f.default", "pattern", "f.skip"].contains(&all[set as usize - 1].opt) {
            return None;
        }
        let (opt, f) = (if set > 0 { all[set as usize - 1].opt } else { "" }, 0);
        let mut ty = |c: &mut Cfg, sh: &str, src: String, arity: usize| -> bool {
            if own.contains(&w.as_str()) || ["Option", "VALUE", "FROM_VALUE", "str"].contains(&w.as_str()) || w.starts_with("__") || opt == "f.ty" && arity == 9 {
                return false;
            }
            c.s.uses.push((sh.into(), w.clone()));
            c.f[f].ty = Ty { src, conc: "Coll".into(), m: mc_rt::T::C, inner: None };
            true
        };
        match place {
            0 => c.f[f].name = w.clone(),
            1 => {
                if !ty(&mut c, "Sh0", w.clone(), 0) {
                    return None;
                }
            }
            2 if few => {
                if !ty(&mut c, "Sh1", format!("{}<Coll>", w), 1) {
                    return None;
                }
            }
            3 if few => {
                if !ty(&mut c, "Sh2", format!("{}<Coll, V>", w), 2) {
                    return None;
                }
            }
            4 => {
                if !ty(&mut c, "Sh0", w.clone(), 0) {
                    return None;
                }
                c.f[f].ty = Ty::o(c.f[f].ty.clone());
            }
            5 if few => {
                // the type of the builder's field
                if c.f[f].fty.is_some() || !ty(&mut c, "Sh0", w.clone(), 0) {
                    return None;
                }
                c.f[f].fty = Some(c.f[f].ty.clone());
                c.f[f].ty = Ty::v();
                c.f[f].fbuild = Some(Bld::Std);
            }
            6 if few => c.s.name = w.clone(),
            7 if few && opt != "name" => c.s.bname = Some(w.clone()),
            8 if few => c.f[f].sname = Some(w.clone()),
            9 if few && opt != "f.prefix" => c.f[f].prefix = Some(w.clone()),
            10 if few && opt != "setter.prefix" => c.s.s_prefix = Some(w.clone()),
            11 if few && opt != "f.each" => c.f[f].each = Some(Each { name: w.clone(), into: None, long: false }),
            _ => return None,
        }
        // types and names of the harness
        if [6, 7].contains(&place) && (own.contains(&w.as_str()) || ::mc_rt::real::NAMES.contains(&w.as_str()) || !w.starts_with(|c: char| c.is_ascii_uppercase())) {
            return None;
        }
        Some(c)
    }
}

/// Every word at every place of a name or a type, each with every single setting; many numbers of fields, likewise.
/// The words are renamed, so that those which mean nothing to the implementation come to the same pieces.
pub fn words(cx: &Ctx, kinds: u16, rep: &mut Report) {
    let t0 = cx.elapsed();
    let w = Words::new(Words::settings(), false);
    let nw = w.dict.len();
    let reps = list(cx, "words and numbers of fields", w.total(), kinds, &|k| w.at(k), rep);
    let t1 = cx.elapsed();
    if std::env::var("MC_DUMP").is_ok() {
        for c in &reps {
            eprintln!("DUMP {:?} {}", c.s.uses, c.render(PLAIN).replace('\n', " "));
        }
    }
    explore(cx, "words", reps, true, 3, 400, rep);
    eprintln!("  words: {} words, {:.1}s + {:.1}s", nw, t1 - t0, cx.elapsed() - t1);
}

/// Settings of visibilities.
pub const VIS: [&str; 10] = ["vis", "build_fn.vis", "field.vis", "struct visibility", "f.vis", "f.field.vis", "f.own vis", "g.vis", "g.field.vis", "g.own vis"];

/// Compares the expansion of every configuration of a list with the model.
pub fn compare<X>(cx: &Ctx, name: &str, total: u64, mk: &(dyn Fn(u64) -> Option<(Cfg, X)> + Sync), judge: &(dyn Fn(&Cfg, &X, TokenStream) -> Result<u64, String> + Sync), rep: &mut Report) {
    let t0 = cx.elapsed();
    let next = AtomicU64::new(0);
    let out = Mutex::new((0u64, 0u64, vec![]));
    std::thread::scope(|s| {
        for _ in 0..cx.jobs {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let (mut n, mut items, mut bad) = (0, 0, vec![]);
                    loop {
                        let from = next.fetch_add(64, Ordering::Relaxed);
                        if from >= total {
                            break;
                        }
                        for k in from..total.min(from + 64) {
                            let (c, x) = match mk(k) {
                                Some(c) => c,
                                None => continue,
                            };
                            let text = c.render(spell(&c)).replace("$M", "m0");
                            n += 1;
                            let r = match input(&text, c.s.frag) {
                                Ok(di) => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| derive_builder_core::builder_for_struct(di))) {
                                    Ok(ts) if is_error(&ts) => Err(format!("a valid struct is rejected: {}", ts)),
                                    Ok(ts) => judge(&c, &x, if c.s.frag == K::No { ts } else { crate::frag::flat(ts) }),
                                    Err(_) => Err("the macro panics".into()),
                                },
                                Err(e) if c.s.frag == K::No => fail(&format!("generated source does not parse: {}\n{}", e, text)),
                                Err(e) => Err(format!("passed to a macro ({:?}), a valid struct is rejected: {}", c.s.frag, e)),
                            };
                            match r {
                                Ok(k) => items += k,
                                Err(e) => bad.push((k, e, text)),
                            }
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.0 += n;
                    o.1 += items;
                    o.2.extend(bad);
                })
                .unwrap();
        }
    });
    let (n, items, mut bad) = out.into_inner().unwrap();
    bad.sort();
    for (_, what, item) in bad.iter().take(3) {
        rep.violate(what.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", what.replace('\n', " "), item));
    }
    rep.points += total;
    rep.configs += n;
    rep.expansions += n;
    rep.states += n;
    rep.traces += n;
    rep.transitions += items;
    rep.spaces.push(json!({"space": name, "points": total, "configurations": n, "items_compared": items}));
    eprintln!("  {}: {} points, {} configurations, {:.1}s", name, total, n, cx.elapsed() - t0);
}

/// Every single setting (in the thorough tier: every pair of settings) in a struct defined by a macro which gets parts
/// of the definition as fragments.
pub fn fragment_list(cx: &Ctx, kinds: u16, rep: &mut Report) -> Vec<Cfg> {
    let all = alphabet();
    let mut sets: Vec<Vec<u16>> = vec![vec![]];
    for a in 0..all.len() as u16 {
        sets.push(vec![a]);
    }
    if cx.thorough {
        sets = clean::subsets(&all, 2).into_iter().map(|s| s.into_iter().map(|x| x as u16).collect()).collect();
    }
    let n = FRAGS.len() as u64;
    let mk = |k: u64| -> Option<Cfg> {
        let mut c = clean::apply(&all, &sets[(k / n) as usize]);
        let kind = FRAGS[(k % n) as usize];
        c.s.frag = kind;
        crate::frag::pass(&c.render(spell(&c)), kind)?;
        Some(c)
    };
    list(cx, "fragments of macros", sets.len() as u64 * n, kinds, &mk, rep)
}
pub fn fragments(cx: &Ctx, kinds: u16, rep: &mut Report) {
    let t0 = cx.elapsed();
    let reps = fragment_list(cx, kinds, rep);
    let t1 = cx.elapsed();
    explore(cx, "fragments", reps, true, 3, 400, rep);
    eprintln!("  fragments: {:.1}s + {:.1}s", t1 - t0, cx.elapsed() - t1);
}

fn idents(ts: TokenStream, out: &mut std::collections::BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
/// The first configurations of a list with each distinct piece.
pub fn list(cx: &Ctx, name: &str, total: u64, kinds: u16, mk: &(dyn Fn(u64) -> Option<Cfg> + Sync), rep: &mut Report) -> Vec<Cfg> {
    let next = AtomicU64::new(0);
    #[derive(Default)]
    struct St {
        own: HashMap<(u16, u64), u64>,
        usable: u64,
        bad: Vec<(u64, String, String)>,
    }
    let out = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..cx.jobs {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut st = St::default();
                    let mut buf = vec![];
                    loop {
                        let from = next.fetch_add(64, Ordering::Relaxed);
                        if from >= total {
                            break;
                        }
                        for k in from..total.min(from + 64) {
                            let c = match mk(k) {
                                Some(c) if observable(&c) => c,
                                _ => continue,
                            };
                            let text = c.render(spell(&c));
                            let k0 = c.s.frag;
                            let di = match input(&text, k0) {
                                Ok(d) => d,
                                Err(e) if k0 == K::No => fail(&format!("generated source does not parse: {}\n{}", e, text)),
                                Err(e) => {
                                    st.bad.push((k, format!("passed to a macro ({:?}), a valid struct is rejected: {}", k0, e), text));
                                    continue;
                                }
                            };
                            let ts = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| derive_builder_core::builder_for_struct(di))) {
                                Ok(ts) if k0 == K::No => ts,
                                Ok(ts) => crate::frag::flat(ts),
                                Err(_) => {
                                    st.bad.push((k, "the macro panics".into(), text));
                                    continue;
                                }
                            };
                            st.usable += 1;
                            if is_error(&ts) {
                                st.bad.push((k, format!("a valid struct is rejected: {}", ts), text));
                                continue;
                            }
                            buf.clear();
                            pieces(ts, &c, BEHAVE, &mut buf);
                            for p in &mut buf {
                                if k0 != K::No {
                                    p.1 = h64(p.1, k0);
                                }
                                if p.0 & (kinds | EXTRA) != 0 {
                                    let e = st.own.entry(*p).or_insert(k);
                                    *e = k.min(*e);
                                }
                            }
                        }
                    }
                    out.lock().unwrap().push(st);
                })
                .unwrap();
        }
    });
    let mut merged: HashMap<(u16, u64), u64> = HashMap::new();
    let (mut us, mut bad) = (0, vec![]);
    for st in out.into_inner().unwrap() {
        us += st.usable;
        bad.extend(st.bad);
        for (p, k) in st.own {
            let e = merged.entry(p).or_insert(k);
            *e = k.min(*e);
        }
    }
    bad.sort();
    for (_, what, item) in bad.iter().take(3) {
        rep.violate(what.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", what.replace('\n', " "), item));
    }
    let mut ks: Vec<u64> = merged.values().copied().collect();
    ks.sort();
    ks.dedup();
    rep.points += total;
    rep.configs += us;
    rep.expansions += us;
    rep.distinct += ks.len() as u64;
    rep.spaces.push(json!({"space": name, "points": total, "configurations": us, "distinct_pieces": merged.len(), "representatives": ks.len()}));
    eprintln!("  {}: {} points, {} usable, {} pieces, {} representatives", name, total, us, merged.len(), ks.len());
    ks.into_iter().map(|k| mk(k).unwrap()).collect()
}
/// Fragments of expressions and paths are not quoted.
pub fn spell(c: &Cfg) -> Spell {
    Spell { bare: matches!(c.s.frag, K::Expr | K::Path | K::Meta), ..PLAIN }
}
pub fn explore(cx: &Ctx, name: &str, reps: Vec<Cfg>, absent: bool, depth: usize, cap: u64, rep: &mut Report) {
    let mods: Vec<(u32, Cfg, String, crate::emit::Module)> = reps
        .into_iter()
        .enumerate()
        .map(|(k, mut c)| {
            c.s.absent = absent;
            let mut item = c.render(spell(&c));
            let m = crate::emit::module(k as u32, &c, &item);
            if c.s.frag != K::No {
                item = crate::frag::pass(&item, c.s.frag).unwrap().source("#[derive(Builder)]");
            }
            (k as u32, c, item, m)
        })
        .collect();
    explore_modules(cx, name, &mods, &Opts { depth, cap, ..Opts::default() }, rep);
}

pub fn interactions(cx: &Ctx, p: &Plan, rep: &mut Report) {
    let all = alphabet();
    let reps = representatives(cx, "interactions of settings", &all, p, BEHAVE, &observable, rep);
    let t0 = cx.elapsed();
    explore(cx, "interactions", reps, p.absent, p.depth, p.cap, rep);
    eprintln!("  interactions explored: {:.1}s", cx.elapsed() - t0);
}
