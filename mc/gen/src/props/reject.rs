//! C16: offences are rejected wherever they occur, and nothing else is.
use super::probes::*;
use super::*;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- the options, with valid and invalid values
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Bool,
    Ident,
    Path,
    Pattern,
    Flag,
    Vis,
    Def,
    Block,
    Type,
    Derive,
    Err,
    Each,
    List(&'static [(&'static str, K)]),
    /// a list that may also be a word
    WordList(&'static [(&'static str, K)]),
}
use K::*;
const VIS3: [(&str, K); 3] = [("public", Flag), ("private", Flag), ("vis", Vis_)];
const Vis_: K = K::Vis;
const BUILD_FN: &[(&str, K)] = &[("skip", Bool), ("name", Ident), ("validate", Path), ("public", Flag), ("private", Flag), ("vis", K::Vis), ("error", K::Err)];
const S_SETTER: &[(&str, K)] = &[("prefix", Ident), ("into", Bool), ("strip_option", Bool), ("skip", Bool)];
const F_SETTER: &[(&str, K)] = &[("prefix", Ident), ("name", Ident), ("into", Bool), ("strip_option", Bool), ("skip", Bool), ("custom", Bool), ("each", Each)];
const F_FIELD: &[(&str, K)] = &[("public", Flag), ("private", Flag), ("vis", K::Vis), ("ty", Type), ("build", Block)];
const STRUCT: &[(&str, K)] = &[
    ("name", Ident),
    ("crate", Path),
    ("pattern", Pattern),
    ("build_fn", List(BUILD_FN)),
    ("derive", Derive),
    ("custom_constructor", Flag),
    ("create_empty", Ident),
    ("setter", List(S_SETTER)),
    ("default", K::Def),
    ("public", Flag),
    ("private", Flag),
    ("vis", K::Vis),
    ("no_std", Flag),
    ("try_setter", Flag),
    ("field", List(&VIS3)),
];
const FIELD: &[(&str, K)] = &[
    ("pattern", Pattern),
    ("public", Flag),
    ("private", Flag),
    ("vis", K::Vis),
    ("setter", WordList(F_SETTER)),
    ("default", K::Def),
    ("try_setter", Flag),
    ("field", List(F_FIELD)),
];
/// What follows the option's name.
fn valid(k: K) -> &'static [&'static str] {
    match k {
        Bool => &["", " = true", " = false", " = \"true\"", " = \"false\""],
        Ident => &[" = \"x\"", " = x", " = \"r#fn\""],
        Path => &[" = \"a::b\"", " = a::b", " = \"x\"", " = \"::a\"", " = x"],
        Pattern => &[" = \"owned\"", " = \"mutable\"", " = \"immutable\""],
        Flag => &[""],
        K::Vis => &[" = \"pub\"", " = \"pub(crate)\"", " = \"\"", " = \"pub(in a::b)\""],
        K::Def => &["", " = \"1\"", " = 1", " = \"let x = 1; x\"", " = { 1 }", " = f(1)?", " = \"f(1)?\"", " = \"()\"", " = true"],
        Block => &[" = \"1\"", " = f(1)", " = \"let x = 1; x\"", " = { 1 }", " = \"self.a?\""],
        Type => &[" = \"V\"", " = \"Option<V>\"", " = \"[u8; 3]\"", " = \"()\""],
        Derive => &["(Debug)", "(Debug, a::B)", "()"],
        K::Err => &[" = \"E\"", " = a::E", "(validation_error = false)", "(validation_error = true)"],
        Each => &[" = \"x\"", " = x", "(name = \"x\")", "(name = \"x\", into)", "(name = x, into = false)"],
        List(_) => &["()"],
        WordList(_) => &["", "()"],
    }
}
fn invalid(k: K) -> &'static [&'static str] {
    match k {
        Bool => &[" = 1", " = \"yes\"", " = \"\"", " = 'c'", "(true)", "()", " = maybe", " = 1.5", " = \"True\"", " = !true"],
        Ident => &["", " = \"\"", " = \"a b\"", " = \"1a\"", " = 1", " = true", "(x)", " = \"a::b\"", " = a::b", " = 'c'", " = \"a-b\""],
        Path => &["", " = \"\"", " = 1", " = \"a b\"", "(x)", " = \"a::\"", " = \"1\"", " = f(x)"],
        Pattern => &["", " = \"\"", " = \"Owned\"", " = \"own\"", " = 1", " = true", "(foo)", " = \"owned mutable\"", " = \"owned \"", "(owned, mutable)", "()"],
        Flag => &[" = 1", " = \"x\"", "(x)", "()", " = x"],
        K::Vis => &["", " = 1", " = \"public\"", " = \"pub pub\"", " = \"pub(foo)\"", "(x)", " = \"priv\"", " = true", " = \"pub x\""],
        K::Def => &[" = \"\"", " = \" \"", " = \"/* no */\"", " = \"// no\"", " = \"a b\"", " = \"let\"", " = \")\"", " = \"}\"", " = \"} {\"", "(x)", "()", "(1)"],
        Block => &["", " = \"\"", " = \" \"", " = \"/* no */\"", " = \"a b\"", " = \"let\"", " = \")\"", " = \"} {\"", "(x)", "()"],
        Type => &["", " = \"\"", " = \"1\"", " = \"a b\"", " = 1", "(V)", " = \"Vec<\"", " = true", " = \"V, V\""],
        Derive => &["", " = \"Debug\"", " = 1", "(Debug = 1)", "(Debug(x))", "(1)", "(\"Debug\")"],
        K::Err => &["", " = \"\"", " = 1", "()", "(validation_error = \"x\")", "(validation_error = 1)", "(other)", "(other = false)", "(validation_error = false, other)", "(validation_error = true, validation_error = true)", "(\"E\")", " = \"a b\""],
        Each => &["", " = \"\"", " = 1", "()", "(into)", "(name)", "(name = \"\")", "(name = \"x\", other)", "(name = \"x\", name = \"x\")", "(name = \"x\", into, into)", "(name = \"x\", into = 1)", "(\"x\")", "(x)", " = \"a b\""],
        List(_) => &["", " = \"x\"", " = 1", "(1)", "(\"x\")", " = true"],
        WordList(_) => &[" = \"x\"", " = 1", "(1)", "(\"x\")", " = true"],
    }
}
const UNKNOWN: [&str; 10] = ["bogus", "bogus = 1", "bogus = \"x\"", "bogus(x)", "a::b", "a::b = 1", "1", "\"x\"", "true", "Public"];

/// What is wrong about an option list.
#[derive(Clone, Debug)]
pub struct Off {
    /// one or more options, to be put into builder attributes of the same item; or whole attributes
    pub opts: Vec<String>,
    pub raw: bool,
    pub why: &'static str,
}
fn off(why: &'static str, opts: &[String]) -> Off {
    Off { opts: opts.to_vec(), raw: false, why }
}
fn sub(k: K) -> Option<&'static [(&'static str, K)]> {
    match k {
        List(l) | WordList(l) => Some(l),
        _ => None,
    }
}
/// Flattened options: (spelling with `$` for the option itself, kind)
fn paths(top: &'static [(&'static str, K)]) -> Vec<(String, &'static str, K)> {
    let mut v = vec![];
    for (n, k) in top {
        v.push(("$".to_string(), *n, *k));
        if let Some(l) = sub(*k) {
            for (m, j) in l {
                v.push((format!("{}($)", n), *m, *j));
            }
        }
    }
    v
}
/// The catalogue for a level.
fn catalogue(top: &'static [(&'static str, K)], is_struct: bool) -> Vec<Off> {
    let mut v = vec![];
    for (ctx, n, k) in paths(top) {
        for x in invalid(k) {
            v.push(off("ill-typed value", &[ctx.replace('$', &format!("{}{}", n, x))]));
        }
        let vs = valid(k);
        for (i, a) in vs.iter().enumerate() {
            for (j, b) in vs.iter().enumerate() {
                if i != j && i != 0 && j != 0 {
                    continue;
                }
                let (a, b) = (format!("{}{}", n, a), format!("{}{}", n, b));
                if ctx == "$" {
                    v.push(off("repeated option", &[a, b]));
                } else {
                    v.push(off("repeated option", &[ctx.replace('$', &format!("{}, {}", a, b))]));
                    v.push(off("repeated option", &[ctx.replace('$', &a), ctx.replace('$', &b)]));
                }
            }
        }
    }
    let mut lists: Vec<(String, &[(&str, K)])> = vec![("$".into(), top)];
    for (n, k) in top {
        if let Some(l) = sub(*k) {
            lists.push((format!("{}($)", n), l));
        }
    }
    for (ctx, l) in &lists {
        for u in UNKNOWN {
            v.push(off("unknown option", &[ctx.replace('$', u)]));
            let (n, k) = l[0];
            let some = format!("{}{}", n, valid(k)[0]);
            v.push(off("unknown option", &[ctx.replace('$', &format!("{}, {}", some, u))]));
            v.push(off("unknown option", &[ctx.replace('$', &format!("{}, {}", u, some))]));
        }
        // options of other lists
        for other in [STRUCT, FIELD, BUILD_FN, S_SETTER, F_SETTER, F_FIELD] {
            for (n, k) in other {
                if !l.iter().any(|(m, _)| m == n) {
                    v.push(off("unknown option", &[ctx.replace('$', &format!("{}{}", n, valid(*k)[0]))]));
                }
            }
        }
        // conflicting visibilities
        if l.iter().any(|(n, _)| *n == "vis") {
            let vs = ["public", "private", "vis = \"pub\"", "vis = \"\"", "vis = \"pub(crate)\""];
            for a in 0..vs.len() {
                for b in 0..vs.len() {
                    if a == b || (a > 1 && b > 1) {
                        continue;
                    }
                    for c in std::iter::once(None).chain((0..vs.len()).map(Some)) {
                        if let Some(c) = c {
                            if c == a || c == b || (c > 1 && (a > 1 || b > 1)) {
                                continue;
                            }
                        }
                        let mut l: Vec<String> = vec![vs[a].into(), vs[b].into()];
                        l.extend(c.map(|c| vs[c].to_string()));
                        if ctx == "$" {
                            v.push(off("conflicting visibilities", &l));
                        } else {
                            v.push(off("conflicting visibilities", &[ctx.replace('$', &l.join(", "))]));
                        }
                    }
                }
            }
        }
    }
    if is_struct {
        for e in ["error(validation_error = false)", "error(validation_error = \"false\")"] {
            for val in ["validate = \"v\"", "validate = Self::v"] {
                for mid in ["", "name = \"x\", ", "skip, "] {
                    v.push(off("validate without validation_error", &[format!("build_fn({}, {}{})", e, mid, val)]));
                    v.push(off("validate without validation_error", &[format!("build_fn({}, {}{})", val, mid, e)]));
                }
            }
        }
    } else {
        for d in valid(K::Def) {
            for c in ["ty = \"V\"", "build = \"1\"", "build = { 1 }", "ty = \"V\", build = \"1\"", "public, ty = \"V\"", "build = \"1\", vis = \"pub\"", "ty = \"Option<V>\", private"] {
                let l = [format!("default{}", d), format!("field({})", c)];
                v.push(off("default with a custom field", &l));
                v.push(off("default with a custom field", &[l[1].clone(), l[0].clone()]));
                for extra in ["setter(skip)", "setter(custom)", "setter(into)"] {
                    v.push(off("default with a custom field", &[l[0].clone(), extra.into(), l[1].clone()]));
                }
            }
        }
    }
    let names: [&str; 2] = if is_struct { ["builder_struct_attr", "builder_impl_attr"] } else { ["builder_field_attr", "builder_setter_attr"] };
    for n in names {
        for x in ["", " = \"x\"", "()", "(123)", "(\"x\")", "(a, b)", "(doc = \"x\", allow(y))", "(a b)", "(= 1)", "(a = )", "{}", "[]", "(a::)", "(allow(x) , )", "(#[allow(x)])", "(a::<u8>(x))"] {
            v.push(Off { opts: vec![format!("#[{}{}]", n, x)], raw: true, why: "malformed forwarding attribute" });
        }
    }
    for x in ["builder = \"x\"", "builder = 1", "builder(,)", "builder(a b)", "builder(= 1)", "builder(pattern = )", "builder(pattern == \"owned\")", "builder(setter(into,,))", "builder(setter(into) public)"] {
        v.push(Off { opts: vec![format!("#[{}]", x)], raw: true, why: "malformed builder attribute" });
    }
    v
}

const SHAPES: [&str; 14] = [
    "pub enum T { A, B }",
    "pub enum T { A { a: V, b: V } }",
    "pub enum T { A(V) }",
    "pub enum T {}",
    "pub struct T;",
    "pub struct T(V);",
    "pub struct T(pub V, V);",
    "pub struct T();",
    "pub union T { a: u8, b: u16 }",
    "pub enum T<X> { A { x: X } }",
    "pub struct T<X>(X) where X: Clone;",
    "pub struct T(#[builder(default)] V);",
    "pub enum T { #[builder(setter(into))] A }",
    "enum T { A { #[builder(default)] a: V } }",
];
const S_CTX: [&[&str]; 6] = [
    &[],
    &["pattern = \"owned\""],
    &["setter(into, prefix = \"with\")", "default", "try_setter", "no_std"],
    &["build_fn(skip, name = \"mk\", private)", "name = \"B\"", "derive(Debug)", "public"],
    &["custom_constructor", "create_empty = \"e\"", "crate = \"::derive_builder\"", "vis = \"pub(crate)\"", "field(public)"],
    &["build_fn(validate = \"v\", error = \"E\")", "setter(skip)"],
];
const F_CTX: [&[&str]; 6] = [
    &[],
    &["default = \"1\"", "pattern = \"immutable\""],
    &["setter(into, strip_option, name = \"n\", each(name = \"e\", into))", "private", "try_setter"],
    &["field(ty = \"V\", build = \"1\", public)", "setter(skip = false)"],
    &["setter(skip)", "vis = \"pub\""],
    &["setter", "default"],
];

/// Writes attributes with an offence among context options.
fn attrs(ctx: &[&str], o: Option<&Off>, how: usize) -> String {
    let list = |l: &[String]| if l.is_empty() { String::new() } else { format!("#[builder({})] ", l.join(", ")) };
    let c: Vec<String> = ctx.iter().map(|s| s.to_string()).collect();
    let o = match o {
        None => return list(&c),
        Some(o) => o,
    };
    if o.raw {
        return match how % 2 {
            0 => format!("{} {}", o.opts.join(" "), list(&c)),
            _ => format!("{}{}", list(&c), o.opts.join(" ")),
        };
    }
    let l = &o.opts;
    match how {
        // one list, first
        0 => list(&[l.clone(), c].concat()),
        // one list, last
        1 => list(&[c, l.clone()].concat()),
        // attributes of their own, around
        2 => format!("{}{}{}", list(&l[..1].to_vec()), list(&c), list(&l[1..].to_vec())),
        // attributes of their own, after
        3 => format!("{}{}", list(&c), l.iter().map(|x| list(&[x.clone()])).collect::<String>()),
        // around in one list
        _ => list(&[l[..1].to_vec(), c, l[1..].to_vec()].concat()),
    }
}
fn strukt(s: &str, f: &[String]) -> String {
    const N: [&str; 3] = ["a", "b", "c"];
    let mut o = format!("{}\npub struct T {{\n", s);
    for (i, f) in f.iter().enumerate() {
        o.push_str(&format!("    {} pub {}: V,\n", f, N[i]));
    }
    o.push_str("}\n");
    o
}

type Mk<'a> = &'a (dyn Fn(u64) -> Option<(String, &'static str)> + Sync);
/// Expands item k for all k < n; `bad`: must be rejected (else: must be accepted).
fn sweep(cx: &Ctx, name: &str, n: u64, bad: bool, mk: Mk, rep: &mut Report) {
    sweep_as(cx, name, n, bad, &|_| crate::frag::K::No, mk, rep)
}
/// The definition is passed as fragments to a macro.
fn sweep_as(cx: &Ctx, name: &str, n: u64, bad: bool, kind: &(dyn Fn(u64) -> crate::frag::K + Sync), mk: Mk, rep: &mut Report) {
    let t0 = cx.elapsed();
    let next = AtomicU64::new(0);
    let cnt = AtomicU64::new(0);
    let out: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..cx.jobs {
            s.spawn(|| loop {
                let b = next.fetch_add(64, Ordering::Relaxed);
                if b >= n {
                    break;
                }
                for k in b..(b + 64).min(n) {
                    if let Some((item, why)) = mk(k) {
                        cnt.fetch_add(1, Ordering::Relaxed);
                        let w = match expand_as(&item, kind(k)) {
                            Exp::Ok(_) if bad => format!("not rejected: {}", why),
                            Exp::Rejected(t) if !bad => format!("valid, but rejected: {}", t),
                            Exp::Panic(p) => format!("the macro panics: {}", p),
                            // refused by the parser of attributes or of items
                            Exp::Syntax(e) if !bad => format!("valid, but not parsed: {}", e),
                            _ => continue,
                        };
                        out.lock().unwrap().push((k, w, item));
                    }
                }
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    let show = std::env::var("MC_ALL").is_ok();
    for (_, what, item) in v.iter().take(if show { 10_000 } else { 3 }) {
        if show {
            println!("{} :: {}", what.chars().take(200).collect::<String>(), item.replace('\n', " "));
        }
        rep.violate(what.clone(), item.clone(), format!("// kind: expand\n// {}\n{}", what.replace('\n', " "), item));
    }
    let c = cnt.load(Ordering::Relaxed);
    rep.points += n;
    rep.configs += c;
    rep.expansions += c;
    rep.states += c;
    rep.transitions += c;
    rep.traces += c;
    rep.spaces.push(json!({"space": name, "expansions": c}));
    eprintln!("  {}: {} expansions, {:.1}s", name, c, cx.elapsed() - t0);
}

pub fn c16(cx: &Ctx, rep: &mut Report) {
    let t = cx.thorough;
    let (os, of) = (catalogue(STRUCT, true), catalogue(FIELD, false));
    rep.extra.insert("offences".into(), json!({"struct_level": os.len(), "field_level": of.len(), "shapes": SHAPES.len()}));
    // contexts alone are fine
    sweep(cx, "contexts without an offence", 36 * 6, false, &|k| {
        let f = [F_CTX[(k % 6) as usize], F_CTX[(k / 6 % 6) as usize]];
        Some((strukt(&attrs(S_CTX[(k / 36) as usize], None, 0), &[attrs(f[0], None, 0), attrs(f[1], None, 0)]), ""))
    }, rep);
    let nc = 6u64;
    sweep(cx, "struct-level offence x arrangement x struct context x field context", os.len() as u64 * 5 * nc * 3, true, &|mut k| {
        let o = &os[(k % os.len() as u64) as usize];
        k /= os.len() as u64;
        let how = (k % 5) as usize;
        k /= 5;
        let c = S_CTX[(k % nc) as usize];
        let f = (k / nc * 2) as usize;
        Some((strukt(&attrs(c, Some(o), how), &[attrs(F_CTX[f], None, 0), attrs(F_CTX[5 - f], None, 0)]), o.why))
    }, rep);
    sweep(cx, "field-level offence x arrangement x field context x struct context x position among three fields", of.len() as u64 * 5 * nc * 3 * 3, true, &|mut k| {
        let o = &of[(k % of.len() as u64) as usize];
        k /= of.len() as u64;
        let how = (k % 5) as usize;
        k /= 5;
        let c = F_CTX[(k % nc) as usize];
        k /= nc;
        let pos = (k % 3) as usize;
        let s = S_CTX[(k / 3 * 2) as usize];
        let mut f: Vec<String> = (0..3).map(|i| attrs(F_CTX[(i + pos + how) % 6], None, 0)).collect();
        f[pos] = attrs(c, Some(o), how);
        Some((strukt(&attrs(s, None, 0), &f), o.why))
    }, rep);
    // pairs of offences: none may hide the other
    let (ls, lf) = (os.len() as u64, of.len() as u64);
    let hows = if t { 5 } else { 1 };
    sweep(cx, "pairs of offences, struct and field", ls * lf * hows, true, &|k| {
        let (a, b, h) = (&os[(k % ls) as usize], &of[(k / ls % lf) as usize], (k / ls / lf) as usize);
        Some((strukt(&attrs(S_CTX[h], Some(a), h), &[attrs(F_CTX[h], None, 0), attrs(&[], Some(b), 3)]), "two offences"))
    }, rep);
    sweep(cx, "pairs of offences, two fields", lf * lf * hows, true, &|k| {
        let (a, b, h) = (&of[(k % lf) as usize], &of[(k / lf % lf) as usize], (k / lf / lf) as usize);
        Some((strukt("", &[attrs(F_CTX[h], Some(a), h), attrs(&[], Some(b), h)]), "two offences"))
    }, rep);
    sweep(cx, "pairs of offences, one field", lf * lf * hows, true, &|k| {
        let (a, b, h) = (&of[(k % lf) as usize], &of[(k / lf % lf) as usize], (k / lf / lf) as usize);
        Some((strukt("", &["".into(), format!("{} {}", attrs(F_CTX[h], Some(a), h), attrs(&[], Some(b), h))]), "two offences"))
    }, rep);
    // shapes x every option
    let opts: Vec<String> = std::iter::once(String::new()).chain(paths(STRUCT).iter().flat_map(|(c, n, k)| valid(*k).iter().map(move |v| format!("#[builder({})]", c.replace('$', &format!("{}{}", n, v)))))).collect();
    let no = opts.len() as u64;
    sweep(cx, "shapes x struct-level options", SHAPES.len() as u64 * no, true, &|k| Some((format!("{}\n{}", opts[(k % no) as usize], SHAPES[(k / no) as usize]), "not a struct with named fields")), rep);
    // valid: pairs of options at each level
    for (name, top, is_struct) in [("pairs of valid struct-level options", STRUCT, true), ("pairs of valid field-level options", FIELD, false)] {
        let ps: Vec<(String, String, &'static str, K)> = paths(top)
            .iter()
            .flat_map(|(c, n, k)| valid(*k).iter().map(move |v| (c.clone(), format!("{}{}", n, v), *n, *k)))
            .collect();
        let n = ps.len() as u64;
        sweep(cx, name, n * n * 3, false, &|k| {
            let (a, b, how) = (&ps[(k % n) as usize], &ps[(k / n % n) as usize], (k / n / n) as usize);
            let isvis = |n: &str| ["public", "private", "vis"].contains(&n);
            let topname = |p: &(String, String, &'static str, K)| p.0.split('(').next().unwrap().replace('$', p.2);
            let mut opts = vec![];
            if a.0 == b.0 && a.0 != "$" {
                // the same inner list
                if a.2 == b.2 || (isvis(a.2) && isvis(b.2)) {
                    return None;
                }
                if [a.1.as_str(), b.1.as_str()].iter().any(|x| x.starts_with("validate")) && [a.1.as_str(), b.1.as_str()].iter().any(|x| x.contains("validation_error = false")) {
                    return None;
                }
                opts.push(a.0.replace('$', &format!("{}, {}", a.1, b.1)));
            } else {
                if topname(a) == topname(b) || (a.0 == "$" && b.0 == "$" && isvis(a.2) && isvis(b.2)) {
                    return None;
                }
                if !is_struct && [a, b].iter().any(|x| x.0 == "$" && x.2 == "default") && [a, b].iter().any(|x| x.2 == "ty" || x.2 == "build") {
                    return None;
                }
                opts.push(a.0.replace('$', &a.1));
                opts.push(b.0.replace('$', &b.1));
            }
            let l = match how {
                0 => format!("#[builder({})]", opts.join(", ")),
                1 => format!("#[builder({},)]", opts.join(", ")),
                _ => opts.iter().map(|o| format!("#[builder({})]", o)).collect(),
            };
            Some(if is_struct { (strukt(&l, &["".into(), "#[builder(default)]".into()]), "") } else { (strukt("", &["".into(), l]), "") })
        }, rep);
    }
    sweep(cx, "other valid input", 8, false, &|k| {
        Some((
            [
                "struct T {}",
                "#[builder()] pub struct T { #[builder()] a: V }",
                "#[other(1, 2)] #[serde] pub struct T { #[x = 1] a: V }",
                "#[builder] pub struct T { #[builder] a: V }",
                "pub struct T<'a, X: 'a + Clone, const N: usize> where X: Copy { a: &'a [X; N] }",
                "#[builder_struct_attr(doc = \"x\")] #[builder_impl_attr(allow(x))] pub struct T { #[builder_field_attr(x::y)] #[builder_setter_attr(x = 1)] a: V }",
                "#[builder_struct_attr(derive(A, B))] #[builder_struct_attr(x)] pub struct T { #[builder_field_attr(x{y})] #[builder_setter_attr(x(a b c))] a: V }",
                "#[builder(pattern = \"owned\")] #[builder(setter(into))] #[builder()] pub struct T { #[builder(default)] #[builder(setter(skip))] a: V }",
            ][k as usize]
                .to_string(),
            "",
        ))
    }, rep);
    surroundings(cx, &os, &of, rep);
    real(cx, &os, &of, rep);
}

/// Every word as the name of an option that there is not, and as a value; offences in all kinds of structs and fields.
fn surroundings(cx: &Ctx, os: &[Off], of: &[Off], rep: &mut Report) {
    let dict = inter::all_words();
    let nw = dict.len() as u64;
    // (before and after the word, is it on the struct?, what there is)
    let mut lists: Vec<(String, bool, Vec<&str>)> = vec![];
    for (top, is_struct) in [(STRUCT, true), (FIELD, false)] {
        lists.push(("$".into(), is_struct, top.iter().map(|o| o.0).collect()));
        for (n, k) in top {
            if let Some(l) = sub(*k) {
                lists.push((format!("{}($)", n), is_struct, l.iter().map(|o| o.0).collect()));
            }
        }
    }
    lists.push(("build_fn(error($))".into(), true, vec!["validation_error"]));
    lists.push(("build_fn(error(validation_error = true, $))".into(), true, vec![]));
    lists.push(("setter(each(name = \"x\", $))".into(), false, vec!["into"]));
    lists.push(("setter(each($, name = \"x\"))".into(), false, vec!["into"]));
    let forms = ["@", "@ = \"x\"", "@ = x", "@(x)", "@ = 1", "@ = true", "@()", "@::x", "x::@"];
    let (nl, nf) = (lists.len() as u64, forms.len() as u64);
    let at = |is_struct: bool, o: &str| if is_struct { strukt(&format!("#[builder({})]", o), &["".into()]) } else { strukt("", &["".into(), format!("#[builder({})]", o)]) };
    sweep(cx, "words as names of options", nw * nl * nf, true, &|k| {
        let (w, l, f) = (&dict[(k % nw) as usize], &lists[(k / nw % nl) as usize], forms[(k / nw / nl) as usize]);
        if l.2.contains(&w.as_str()) && !f.contains("::") {
            return None;
        }
        Some((at(l.1, &l.0.replace('$', &f.replace('@', w))), "unknown option"))
    }, rep);
    // values
    let mut vals: Vec<(String, bool, K)> = vec![];
    for (top, is_struct) in [(STRUCT, true), (FIELD, false)] {
        for (c, n, k) in paths(top) {
            if matches!(k, Bool | Pattern | Flag | K::Vis | List(_) | WordList(_) | Derive) {
                vals.push((c.replace('$', n), is_struct, k));
            }
        }
    }
    vals.push(("build_fn(error(validation_error))".into(), true, Bool));
    vals.push(("setter(each(name = \"x\", into))".into(), false, Bool));
    let forms = [" = \"@\"", " = @", " = b\"@\"", " = \"@ @\"", " = \" @\"", " = \"pub(@)\"", " = \"pub(in @::)\""];
    let (nv, nf) = (vals.len() as u64, forms.len() as u64);
    sweep(cx, "words as values", nw * nv * nf, true, &|k| {
        let (w, v, f) = (&dict[(k % nw) as usize], &vals[(k / nw % nv) as usize], forms[(k / nw / nv) as usize]);
        let good = match v.2 {
            Bool => ["true", "false"].contains(&w.as_str()),
            Pattern => ["owned", "mutable", "immutable"].contains(&w.as_str()),
            // `pub(in path)` may be any path
            K::Vis => ["pub", "crate", "self", "super"].contains(&w.as_str()),
            _ => false,
        };
        if good {
            return None;
        }
        // to the end of the innermost option
        let e = v.0.trim_end_matches(')');
        Some((at(v.1, &format!("{}{}{}", e, f.replace('@', w), &v.0[e.len()..])), "ill-typed value"))
    }, rep);
    // offences in structs and fields with every name and type
    let all: Vec<(bool, &Off)> = os.iter().map(|o| (true, o)).chain(of.iter().map(|o| (false, o))).collect();
    let no = all.len() as u64;
    let names: Vec<&String> = dict.iter().filter(|w| syn::parse_str::<syn::Ident>(w).is_ok()).collect();
    let nn = names.len() as u64;
    let step = if cx.thorough { 1 } else { 3 };
    sweep(cx, "offences x words as names and types", no * nn * 3 / step, true, &|k| {
        let k = k * step + k / (nn * 3) % step;
        let (w, place, (on_struct, o)) = (names[(k % nn) as usize], k / nn % 3, all[(k / nn / 3) as usize]);
        let (s, f) = if on_struct { (attrs(&[], Some(o), 0), String::new()) } else { (String::new(), attrs(&[], Some(o), 0)) };
        let n = ["T", w.as_str(), "a", "V"];
        let (st, fi, ty) = match place {
            0 => (w.as_str(), n[2], n[3]),
            1 => (n[0], w.as_str(), n[3]),
            _ => (n[0], n[2], w.as_str()),
        };
        Some((format!("{}\npub struct {} {{ pub first_: V, {} pub {}: {}, }}\n", s, st, f, fi, ty), o.why))
    }, rep);
    // in many fields, in all kinds of structs
    let kinds: [(&str, &str, &str); 14] = [
        ("", "pub struct T {", "}"),
        ("", "struct T {", "}"),
        ("", "pub(crate) struct T {", "}"),
        ("", "pub struct T<X: Clone> where X: Copy { x: X, ", "}"),
        ("", "pub struct T<'x, const N: usize = 3> { x: &'x [u8; N], ", "}"),
        ("/// Doc\n", "pub struct T {", "}"),
        ("#[derive(Debug)] #[allow(x)]", "pub struct T {", "}"),
        ("#[cfg(x)]", "pub struct T {", "}"),
        ("#[builder]", "pub struct T {", "}"),
        ("#[builder()]", "pub struct T {", "}"),
        ("#[builder_struct_attr(x)] #[builder_impl_attr(x)]", "pub struct T {", "}"),
        ("", "pub struct T { /// Doc\n", "}"),
        ("", "pub struct T { #[builder] pub", "}"),
        ("", "pub struct T { #[serde(x)] #[builder()] #[builder_field_attr(x)] pub(super)", "}"),
    ];
    let tys = ["V", "Option<V>", "Vec<V>", "&'static str", "[u8; 3]", "(V, V)", "fn(V) -> V", "::std::option::Option<V>", "Box<dyn Fn()>", "()", "PhantomData<V>", "<V as X>::Y", "!", "_"];
    let (nk, nt) = (kinds.len() as u64, tys.len() as u64);
    sweep(cx, "offences x kinds of structs x types", no * nk * nt, true, &|k| {
        let ((on_struct, o), kd, ty) = (all[(k % no) as usize], kinds[(k / no % nk) as usize], tys[(k / no / nk) as usize]);
        let (s, f) = if on_struct { (attrs(&[], Some(o), 0), String::new()) } else { (String::new(), attrs(&[], Some(o), 0)) };
        let (open, tail) = match kd.1.rfind("pub") {
            Some(i) if i > 0 => (&kd.1[..i], "pub"),
            _ => (kd.1, ""),
        };
        Some((format!("{} {} {}{} {} a: {}, b: V {}\n", kd.0, s, open, f, tail, ty, kd.2), o.why))
    }, rep);
    let fk = crate::frag::KINDS;
    let nf = fk.len() as u64;
    sweep_as(cx, "offences x fragments of macros", no * nf * 2, true, &|k| fk[(k % nf) as usize], &|k| {
        let (on_struct, o) = all[(k / nf % no) as usize];
        let c = k / nf / no * 4;
        let (s, f) = if on_struct { (attrs(S_CTX[c as usize], Some(o), 0), String::new()) } else { (String::new(), attrs(F_CTX[c as usize], Some(o), 0)) };
        let item = strukt(&s, &[f]);
        // passing single options drops empty ones
        if item.contains(",,") || item.contains("(,)") {
            return None;
        }
        crate::frag::pass(&item, fk[(k % nf) as usize])?;
        Some((item, o.why))
    }, rep);
    let counts: Vec<usize> = (1..41).chain([63, 64, 65, 100, 127, 128, 129, 200]).collect();
    let nc = counts.len() as u64;
    let step = if cx.thorough { 1 } else { 5 };
    sweep(cx, "offences x number of fields x position", no * nc * 3 / step, true, &|k| {
        let k = k * step + k / (nc * 3) % step;
        let (n, pos, (on_struct, o)) = (counts[(k % nc) as usize], (k / nc % 3) as usize, all[(k / nc / 3) as usize]);
        let pos = [0, n / 2, n - 1][pos];
        let (s, f) = if on_struct { (attrs(&[], Some(o), 0), String::new()) } else { (String::new(), attrs(&[], Some(o), 0)) };
        let fs: String = (0..n).map(|i| format!("{} x{}: V, ", if i == pos { f.as_str() } else { "" }, i)).collect();
        Some((format!("{} pub struct T {{ {} }}\n", s, fs), o.why))
    }, rep);
}

/// Offences through rustc: the crate must not compile.
fn real(cx: &Ctx, os: &[Off], of: &[Off], rep: &mut Report) {
    let mut groups = vec![];
    let mut add = |item: String, why: &'static str| {
        // what rustc's own parser refuses would end the compilation
        if matches!(expand(&item), Exp::Syntax(_)) {
            return;
        }
        let segs = vec![
            Seg::Code(format!("mod m{} {{ use mc_rt::*;", groups.len())),
            probe(format!("#[derive(::derive_builder::Builder)] {}", item.replace('\n', " ")), false, why.to_string()),
            Seg::Code("}".into()),
        ];
        groups.push(Group { input: item, segs });
    };
    for (i, o) in os.iter().enumerate() {
        add(strukt(&attrs(S_CTX[i % 6], Some(o), i % 5), &[attrs(F_CTX[i % 5], None, 0)]), o.why);
    }
    for (i, o) in of.iter().enumerate() {
        add(strukt(&attrs(S_CTX[i % 6], None, 0), &["".into(), attrs(F_CTX[i % 5], Some(o), i % 5)]), o.why);
    }
    for s in SHAPES {
        add(s.to_string(), "not a struct with named fields");
    }
    run_probes(cx, "offences through rustc", &groups, "#![allow(warnings)]\n", 400, &|_| cx.rustc_default(Kind::Meta), rep);
}
