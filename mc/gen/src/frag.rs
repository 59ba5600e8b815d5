//! Structs defined by a `macro_rules!` macro: parts of the definition are fragments passed to the macro, which arrive at
//! the derive in invisible groups (and with the hygiene of the place they come from).
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashMap;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    No,
    /// field types
    Ty,
    /// the type arguments of field types
    Arg,
    /// literals in the builder attributes
    Lit,
    /// values of options
    Expr,
    /// values of options that are paths
    Path,
    /// visibilities of the struct and its fields
    Vis,
    /// contents of attributes
    Meta,
    /// names of the struct and its fields
    Name,
    /// the names of generic parameters, lifetimes
    Param,
    /// everything as token trees
    Tt,
    /// options of the builder attributes
    Nest,
    /// options in lists within the builder attributes
    Inner,
    /// bounds of parameters
    Bound,
    /// the item
    Item,
    /// nothing: a macro without parameters
    Plain,
    /// types, visibilities, names, contents of attributes
    Most,
}
pub const KINDS: [K; 16] = [K::Ty, K::Arg, K::Lit, K::Expr, K::Path, K::Vis, K::Meta, K::Name, K::Param, K::Nest, K::Inner, K::Bound, K::Item, K::Tt, K::Plain, K::Most];

pub struct Passed {
    /// kind of fragment, text
    params: Vec<(&'static str, TokenStream)>,
    body: TokenStream,
}

fn mark(params: &mut Vec<(&'static str, TokenStream)>, kind: &'static str, t: TokenStream) -> TokenStream {
    let i = Ident::new(&format!("__p{}", params.len()), Span::call_site());
    params.push((kind, t));
    quote!(#i)
}
/// `self` would be hygienic: another one than the builder's
fn has_self(t: TokenStream) -> bool {
    t.to_string().contains("self")
}
fn commas(t: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut v = vec![vec![]];
    for x in t {
        match &x {
            TokenTree::Punct(p) if p.as_char() == ',' => v.push(vec![]),
            _ => v.last_mut().unwrap().push(x),
        }
    }
    v.retain(|x| !x.is_empty());
    v
}
fn literals(t: TokenStream, params: &mut Vec<(&'static str, TokenStream)>) -> TokenStream {
    t.into_iter()
        .map(|x| match x {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), literals(g.stream(), params))).into_token_stream(),
            TokenTree::Literal(l) if !has_self(quote!(#l)) => mark(params, "literal", quote!(#l)),
            TokenTree::Ident(i) if i == "true" || i == "false" => mark(params, "literal", quote!(#i)),
            x => x.into_token_stream(),
        })
        .collect()
}
/// The values of the options in a list.
fn values(t: TokenStream, kind: &'static str, params: &mut Vec<(&'static str, TokenStream)>) -> TokenStream {
    let mut out = TokenStream::new();
    for opt in commas(t) {
        let eq = opt.iter().position(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == '='));
        match (eq, opt.last()) {
            (Some(1), _) => {
                let v: TokenStream = opt[2..].iter().cloned().collect();
                let ok = match kind {
                    "expr" => syn::parse2::<syn::Expr>(v.clone()).is_ok(),
                    _ => syn::parse2::<syn::Path>(v.clone()).is_ok(),
                };
                let v = if ok && !has_self(v.clone()) { mark(params, kind, v) } else { v };
                let h = &opt[..2];
                out.extend(quote!(#(#h)* #v));
            }
            (None, Some(TokenTree::Group(g))) if opt.len() == 2 && g.delimiter() == Delimiter::Parenthesis && !matches!(opt[0].to_string().as_str(), "derive" | "vis") => {
                let h = &opt[0];
                let inner = values(g.stream(), kind, params);
                out.extend(quote!(#h (#inner)));
            }
            _ => out.extend(opt.iter().cloned()),
        }
        out.extend(quote!(,));
    }
    out
}
fn metas(t: TokenStream, deep: bool, params: &mut Vec<(&'static str, TokenStream)>) -> TokenStream {
    let mut out = TokenStream::new();
    for opt in commas(t) {
        let all: TokenStream = opt.iter().cloned().collect();
        match (deep, &opt[..]) {
            (true, [h, TokenTree::Group(g)]) if g.delimiter() == Delimiter::Parenthesis && !matches!(h.to_string().as_str(), "derive" | "vis") => {
                let inner = metas(g.stream(), false, params);
                out.extend(quote!(#h (#inner)));
            }
            (true, _) => out.extend(all),
            (false, _) => match syn::parse2::<syn::Meta>(all.clone()) {
                Ok(_) if !has_self(all.clone()) => out.extend(mark(params, "meta", all)),
                _ => out.extend(all),
            },
        }
        out.extend(quote!(,));
    }
    out
}
fn attr(a: &syn::Attribute, k: K, params: &mut Vec<(&'static str, TokenStream)>) -> TokenStream {
    let builder = a.path().is_ident("builder");
    match (&a.meta, k) {
        (m, K::Meta | K::Most) => {
            if builder && has_self(m.to_token_stream()) {
                return quote!(#a);
            }
            let m = mark(params, "meta", m.to_token_stream());
            quote!(#[#m])
        }
        (syn::Meta::List(l), K::Nest | K::Inner) if builder => {
            let t = metas(l.tokens.clone(), k == K::Inner, params);
            quote!(#[builder(#t)])
        }
        (syn::Meta::List(l), K::Lit | K::Expr | K::Path) if builder => {
            let t = match k {
                K::Lit => literals(l.tokens.clone(), params),
                K::Expr => values(l.tokens.clone(), "expr", params),
                _ => values(l.tokens.clone(), "path", params),
            };
            quote!(#[builder(#t)])
        }
        _ => quote!(#a),
    }
}
fn arguments(ty: &syn::Type, params: &mut Vec<(&'static str, TokenStream)>) -> TokenStream {
    if let syn::Type::Path(p) = ty {
        let last = p.path.segments.last().unwrap();
        if let (None, syn::PathArguments::AngleBracketed(a)) = (&p.qself, &last.arguments) {
            let mut head = p.path.clone();
            head.segments.last_mut().unwrap().arguments = syn::PathArguments::None;
            let args: Vec<TokenStream> = a
                .args
                .iter()
                .map(|x| match x {
                    syn::GenericArgument::Type(t) => mark(params, "ty", t.to_token_stream()),
                    x => x.to_token_stream(),
                })
                .collect();
            return quote!(#head<#(#args),*>);
        }
    }
    ty.to_token_stream()
}
/// All occurrences of parameters of the struct.
fn names(t: TokenStream, of: &HashMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = t.into_iter().peekable();
    while let Some(x) = it.next() {
        match x {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), names(g.stream(), of)))]),
            TokenTree::Ident(i) => match of.get(&i.to_string()) {
                Some(m) => out.extend(m.clone()),
                None => out.extend([TokenTree::Ident(i)]),
            },
            TokenTree::Punct(p) if p.as_char() == '\'' => match it.peek() {
                Some(TokenTree::Ident(i)) if of.contains_key(&format!("'{}", i)) => {
                    out.extend(of[&format!("'{}", i)].clone());
                    it.next();
                }
                _ => out.extend([TokenTree::Punct(p)]),
            },
            x => out.extend([x]),
        }
    }
    out
}

/// The definition with everything of a kind passed as fragments; none, if there is nothing to pass.
pub fn pass(item: &str, k: K) -> Option<Passed> {
    let di: syn::DeriveInput = syn::parse_str(item).ok()?;
    let mut ps = vec![];
    let fields = match &di.data {
        syn::Data::Struct(syn::DataStruct { fields: syn::Fields::Named(n), .. }) => &n.named,
        _ => return None,
    };
    if k == K::Item {
        return if di.to_token_stream().to_string().contains("self") { None } else { Some(Passed { params: vec![("item", di.to_token_stream())], body: quote!(__p0) }) };
    }
    if k == K::Tt && has_self(di.to_token_stream()) {
        return None;
    }
    if k == K::Tt {
        return Some(Passed { params: vec![("tt", di.to_token_stream())], body: quote!(__p0) });
    }
    let mut vis = |v: &syn::Visibility, ps: &mut Vec<_>| match k {
        K::Vis | K::Most => mark(ps, "vis", v.to_token_stream()),
        _ => v.to_token_stream(),
    };
    let mut name = |i: &Ident, ps: &mut Vec<_>| match k {
        K::Name | K::Most => mark(ps, "ident", i.to_token_stream()),
        _ => i.to_token_stream(),
    };
    let attrs: Vec<_> = di.attrs.iter().map(|a| attr(a, k, &mut ps)).collect();
    let svis = vis(&di.vis, &mut ps);
    let sname = name(&di.ident, &mut ps);
    let mut fs = vec![];
    for f in fields {
        let a: Vec<_> = f.attrs.iter().map(|a| attr(a, k, &mut ps)).collect();
        let v = vis(&f.vis, &mut ps);
        let n = name(f.ident.as_ref().unwrap(), &mut ps);
        let t = match k {
            K::Ty | K::Most => mark(&mut ps, "ty", f.ty.to_token_stream()),
            K::Arg => arguments(&f.ty, &mut ps),
            _ => f.ty.to_token_stream(),
        };
        fs.push(quote!(#(#a)* #v #n: #t));
    }
    let g = &di.generics;
    let wh = &g.where_clause;
    let mut g = g.clone();
    if k == K::Bound {
        for p in g.type_params_mut() {
            for b in &mut p.bounds {
                if let syn::TypeParamBound::Trait(t) = b {
                    let p = mark(&mut ps, "path", t.path.to_token_stream());
                    t.path = syn::parse2(p).unwrap();
                }
            }
        }
    }
    let mut body = quote!(#(#attrs)* #svis struct #sname #g #wh { #(#fs),* });
    if k == K::Param {
        let mut of = HashMap::new();
        for p in &g.params {
            let (n, kind) = match p {
                syn::GenericParam::Lifetime(l) => (l.lifetime.to_token_stream(), "lifetime"),
                syn::GenericParam::Type(t) => (t.ident.to_token_stream(), "ident"),
                syn::GenericParam::Const(c) => (c.ident.to_token_stream(), "ident"),
            };
            let key = n.to_string();
            let m = mark(&mut ps, kind, n);
            of.insert(key, m);
        }
        body = names(body, &of);
    }
    // names that are parts of literals stay what they are
    if ps.is_empty() && k != K::Plain {
        return None;
    }
    Some(Passed { params: ps, body })
}

impl Passed {
    /// What the derive gets.
    pub fn tokens(&self) -> TokenStream {
        self.subst(self.body.clone())
    }
    fn subst(&self, t: TokenStream) -> TokenStream {
        t.into_iter()
            .map(|x| match x {
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.subst(g.stream()))).into_token_stream(),
                TokenTree::Ident(i) => match i.to_string().strip_prefix("__p").and_then(|n| n.parse::<usize>().ok()) {
                    Some(n) => {
                        let (kind, t) = &self.params[n];
                        match *kind {
                            "ident" | "lifetime" | "tt" | "item" => t.clone(),
                            _ => TokenTree::Group(Group::new(Delimiter::None, t.clone())).into_token_stream(),
                        }
                    }
                    None => quote!(#i),
                },
                x => x.into_token_stream(),
            })
            .collect()
    }
    /// The macro and its use.
    pub fn source(&self, derive: &str) -> String {
        let mut o = String::from("macro_rules! pass_ { (");
        for (i, (kind, _)) in self.params.iter().enumerate() {
            if *kind == "tt" {
                let _ = write!(o, "$($p{}:tt)*", i);
            } else {
                let _ = write!(o, "$p{}:{}, ", i, kind);
            }
        }
        let mut body = self.body.to_string();
        for i in (0..self.params.len()).rev() {
            let to = if self.params[i].0 == "tt" { format!("$($p{})*", i) } else { format!("$p{}", i) };
            body = body.replace(&format!("__p{}", i), &to);
        }
        let _ = writeln!(o, ") => {{ {} {} }} }}", derive, body.replace('\n', " "));
        o.push_str("pass_! { ");
        for (kind, t) in &self.params {
            let _ = write!(o, "{}{}", t.to_string().replace('\n', " "), if *kind == "tt" { "" } else { ", " });
        }
        o.push_str(" }\n");
        o
    }
}

/// The tokens without invisible groups.
pub fn flat(t: TokenStream) -> TokenStream {
    t.into_iter()
        .map(|x| match x {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => flat(g.stream()),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), flat(g.stream()))).into_token_stream(),
            x => x.into_token_stream(),
        })
        .collect()
}
