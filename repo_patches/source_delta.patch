From 1104cdf691d4ce42a7c794a3707e0da69db18f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 01/14] fix: try_setter on a raw identifier field

Building the name with `Ident::new(&format!(..))` panicked with
"`try_r#type` is not a valid identifier"; format_ident! strips the r#.
---
 derive_builder_core/src/setter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 392221f..d8a399a 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -2,7 +2,7 @@
 use std::borrow::Cow;
 
 use proc_macro2::{Span, TokenStream};
-use quote::{ToTokens, TokenStreamExt};
+use quote::{format_ident, ToTokens, TokenStreamExt};
 
 use crate::{BuilderFieldType, BuilderPattern, Each};
 
@@ -149,7 +149,7 @@ impl<'a> ToTokens for Setter<'a> {
             if self.try_setter {
                 let try_ty_params =
                     quote!(<VALUE: #crate_root::export::core::convert::TryInto<#ty>>);
-                let try_ident = syn::Ident::new(&format!("try_{}", ident), Span::call_site());
+                let try_ident = format_ident!("try_{}", ident, span = Span::call_site());
 
                 let mut converted = quote! {converted};
                 if builder_field_is_option {
-- 
2.43.0


From 029d1e5695afb8d27b1b5ffef471bb96caa8b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 02/14] fix: custom = false on a skipped field

`setter(skip, custom = false)`, or `custom = false` on a field of a struct
with `setter(skip)`, enabled the setter of a disabled field, which panicked
with "phantom fields should never have setters".
---
 derive_builder_core/src/macro_options/darling_opts.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 3894b78..6db6eea 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -261,9 +261,12 @@ pub struct FieldLevelSetter {
 impl FieldLevelSetter {
     /// Get whether the setter should be emitted. The rules are the same as
     /// for `field_enabled`, except we only skip the setter if `setter(custom)` is present.
+    ///
+    /// `setter(custom = false)` is the same as not mentioning `custom`; in particular, it does
+    /// not enable the setter of a field which has been disabled.
     pub fn setter_enabled(&self) -> Option<bool> {
-        if self.custom.is_some() {
-            return self.custom.map(|x| !x);
+        if self.custom == Some(true) {
+            return Some(false);
         }
 
         self.field_enabled()
-- 
2.43.0


From 27cd68b4a23e42f6c065bd2d5c87259fa4bc9301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 03/14] fix: initialize fields according to the build method's
 pattern

A field with `pattern = "owned"` in a struct with another pattern moved its
value out of the borrowed builder in `build(&self)` (E0507).
---
 derive_builder_core/src/macro_options/darling_opts.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 6db6eea..aaa5fb4 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -886,7 +886,9 @@ impl<'a> FieldWithDefaults<'a> {
             crate_root: &self.parent.crate_root,
             field_enabled: self.field_enabled(),
             field_ident: self.field_ident(),
-            builder_pattern: self.pattern(),
+            // The build method always uses the struct's pattern, even if the field's
+            // setters use another one.
+            builder_pattern: self.parent.pattern,
             default_value: self.field.default.as_ref(),
             use_default_struct: self.use_parent_default(),
             conversion: self.conversion(),
-- 
2.43.0


From 2ca6f85273832973433b4e28331c3701c540b04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 04/14] fix: immutable setters of an owned generic builder

The builder's impl block lacked the `Clone` bounds on type parameters which a
field with `pattern = "immutable"` needs to clone the builder.
---
 derive_builder_core/src/builder.rs               |  2 +-
 .../src/macro_options/darling_opts.rs            | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/builder.rs b/derive_builder_core/src/builder.rs
index 72824f2..e9697b4 100644
--- a/derive_builder_core/src/builder.rs
+++ b/derive_builder_core/src/builder.rs
@@ -92,7 +92,7 @@ pub struct Builder<'a> {
     pub enabled: bool,
     /// Name of this builder struct.
     pub ident: syn::Ident,
-    /// Pattern of this builder struct.
+    /// Pattern of this builder struct, which decides whether its type parameters need `Clone`.
     pub pattern: BuilderPattern,
     /// Traits to automatically derive on the builder type.
     pub derives: &'a [Path],
diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index aaa5fb4..76f671d 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -644,6 +644,20 @@ impl Options {
         self.pattern.requires_clone() || self.fields().any(|f| f.pattern().requires_clone())
     }
 
+    /// The pattern which decides whether the builder's impl blocks need `Clone` for the
+    /// struct's type parameters: immutable setters clone the builder, even if the struct
+    /// itself uses another pattern.
+    fn impl_pattern(&self) -> BuilderPattern {
+        if self
+            .fields()
+            .any(|f| f.setter_enabled() && f.pattern() == BuilderPattern::Immutable)
+        {
+            BuilderPattern::Immutable
+        } else {
+            self.pattern
+        }
+    }
+
     /// Get an iterator over the input struct's fields which pulls fallback
     /// values from struct-level settings.
     pub fn fields(&self) -> FieldIter {
@@ -662,7 +676,7 @@ impl Options {
             crate_root: &self.crate_root,
             enabled: true,
             ident: self.builder_ident(),
-            pattern: self.pattern,
+            pattern: self.impl_pattern(),
             derives: &self.derive,
             struct_attrs: &self.attrs.struct_attrs,
             impl_attrs: &self.attrs.impl_attrs,
-- 
2.43.0


From 66cc17efeddd269960abb5371d88694943700f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 05/14] fix: each setter of a field with a custom builder type

The generated code called `get_or_insert_with` on the collection itself.
---
 derive_builder_core/src/setter.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index d8a399a..149ef45 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -176,17 +176,19 @@ impl<'a> ToTokens for Setter<'a> {
                 let ident_each = &each.name;
 
                 // Access the collection to extend, initialising with default value if necessary.
-                let get_initialized_collection = if stripped_option {
+                let get_initialized_collection = match (builder_field_is_option, stripped_option) {
                     // Outer (builder) Option -> Inner (field) Option -> collection.
-                    quote!(get_or_insert_with(|| Some(
+                    (true, true) => quote!(.get_or_insert_with(|| Some(
                         #crate_root::export::core::default::Default::default()
                     ))
-                    .get_or_insert_with(#crate_root::export::core::default::Default::default))
-                } else {
-                    // Outer (builder) Option -> collection.
-                    quote!(get_or_insert_with(
+                    .get_or_insert_with(#crate_root::export::core::default::Default::default)),
+                    // Outer (builder) Option -> collection, or
+                    // Option (custom builder field type) -> collection.
+                    (true, false) | (false, true) => quote!(.get_or_insert_with(
                         #crate_root::export::core::default::Default::default
-                    ))
+                    )),
+                    // The builder field is the collection.
+                    (false, false) => quote!(),
                 };
 
                 let ty_params: TokenStream;
@@ -212,7 +214,7 @@ impl<'a> ToTokens for Setter<'a> {
                     {
                         let mut new = #self_into_return_ty;
                         new.#field_ident
-                            .#get_initialized_collection
+                            #get_initialized_collection
                             .extend(#crate_root::export::core::option::Option::Some(#into_item));
                         new
                     }
-- 
2.43.0


From 8f0ec64c7a0edcbbf654d83a2d7cab7b45d9e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 06/14] fix: derive(Clone) on a builder which derives Clone
 anyway

---
 derive_builder_core/src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/builder.rs b/derive_builder_core/src/builder.rs
index e9697b4..7c3667c 100644
--- a/derive_builder_core/src/builder.rs
+++ b/derive_builder_core/src/builder.rs
@@ -172,7 +172,12 @@ impl<'a> ToTokens for Builder<'a> {
                 let clone_trait: Path = parse_quote!(Clone);
 
                 let mut traits: Punctuated<&Path, Token![,]> = Default::default();
-                if self.must_derive_clone {
+                // The caller may already have asked for `Clone`; deriving it twice would conflict.
+                let clone_requested = self
+                    .derives
+                    .iter()
+                    .any(|p| p.segments.last().map_or(false, |s| s.ident == "Clone"));
+                if self.must_derive_clone && !clone_requested {
                     traits.push(&clone_trait);
                 }
                 traits.extend(self.derives);
-- 
2.43.0


From 763c1478d1a557cd0a1b0ee5d18087b0a78aee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 07/14] fix: report malformed forwarding attributes instead of
 panicking

---
 derive_builder_core/src/macro_options/darling_opts.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 76f671d..c3fb96f 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -6,7 +6,7 @@ use crate::BuildMethod;
 use darling::util::{Flag, PathList, SpannedValue};
 use darling::{Error, FromMeta};
 use proc_macro2::Span;
-use syn::{spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
+use syn::{parse::Parser, spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
 
 use crate::{
     BlockContents, Builder, BuilderField, BuilderFieldType, BuilderPattern, DefaultExpression,
@@ -487,7 +487,13 @@ fn unnest_from_one_attribute(attr: syn::Attribute) -> darling::Result<Attribute>
         Meta::NameValue(_) => Err(Error::unsupported_format("name-value").with_span(&meta)),
         Meta::List(list) => {
             let inner = list.tokens;
-            Ok(parse_quote_spanned!(original_span=> #pound [ #inner ]))
+            let attrs = Attribute::parse_outer
+                .parse2(quote_spanned!(original_span=> #pound [ #inner ]))
+                .map_err(Error::from)?;
+            attrs
+                .into_iter()
+                .next()
+                .ok_or_else(|| Error::unsupported_format("empty").with_span(&original_span))
         }
     }
 }
-- 
2.43.0


From 6d2fc8712a8e99ea36ca523f011c969e1b8edc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 08/14] fix: reject unions with an error instead of panicking

---
 derive_builder_core/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index 6d2e71e..1b8c5a3 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -55,6 +55,16 @@ const DEFAULT_STRUCT_NAME: &str = "__default";
 
 /// Derive a builder for a struct
 pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
+    // `darling` panics on unions, so they must be rejected before parsing any options.
+    if let syn::Data::Union(_) = ast.data {
+        return darling::Error::unsupported_shape_with_expected(
+            "union",
+            &"struct with named fields",
+        )
+        .with_span(&ast.ident)
+        .write_errors();
+    }
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
-- 
2.43.0


From e40714c70c8352976846ff27526524c6253c309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 09/14] fix: explain disabled alloc in the 2015 edition, too

---
 derive_builder_core/src/builder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/builder.rs b/derive_builder_core/src/builder.rs
index 7c3667c..0f23ad1 100644
--- a/derive_builder_core/src/builder.rs
+++ b/derive_builder_core/src/builder.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, ToTokens, TokenStreamExt};
 use syn::punctuated::Punctuated;
 use syn::{Path, TraitBound, TraitBoundModifier, TypeParamBound};
@@ -238,7 +238,10 @@ impl<'a> ToTokens for Builder<'a> {
             }
 
             if self.no_alloc && self.generate_error && self.generate_validation_error {
-                let err = syn::Error::new_spanned(&self.ident, ALLOC_NOT_ENABLED_ERROR);
+                // `::core::compile_error!` must resolve as in this crate: in the 2015 edition, users
+                // would see an unresolved import instead of the explanation.
+                let span = Span::mixed_site().located_at(self.ident.span());
+                let err = syn::Error::new(span, ALLOC_NOT_ENABLED_ERROR);
                 tokens.append_all(err.to_compile_error());
             } else if self.generate_error {
                 let builder_error_ident = format_ident!("{}Error", builder_ident);
-- 
2.43.0


From 6c5a4c910999fd483ee38d34600fd0e65dc189d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 10/14] fix: look through macro fragments for the Option to
 strip

---
 derive_builder_core/src/setter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 149ef45..eff1ad1 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -242,6 +242,8 @@ fn extract_type_from_option(ty: &syn::Type) -> Option<&syn::Type> {
     fn extract_type_path(ty: &syn::Type) -> Option<&Path> {
         match *ty {
             syn::Type::Path(ref typepath) if typepath.qself.is_none() => Some(&typepath.path),
+            // a `$t:ty` fragment of a `macro_rules!` macro arrives in an invisible group
+            syn::Type::Group(ref group) => extract_type_path(&group.elem),
             _ => None,
         }
     }
-- 
2.43.0


From 0fe39ff80eb761a83a782c9a0dd3ae29bff1d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 11/14] fix: validate with the builder's self when a macro
 passes the path

---
 derive_builder_core/src/build_method.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive_builder_core/src/build_method.rs b/derive_builder_core/src/build_method.rs
index 55150b4..8cbf481 100644
--- a/derive_builder_core/src/build_method.rs
+++ b/derive_builder_core/src/build_method.rs
@@ -85,10 +85,12 @@ impl<'a> ToTokens for BuildMethod<'a> {
             let ident = syn::Ident::new(DEFAULT_STRUCT_NAME, Span::call_site());
             quote!(let #ident: #target_ty #target_ty_generics = #default_expr;)
         });
-        let validate_fn = self
-            .validate_fn
-            .as_ref()
-            .map(|vfn| quote_spanned!(vfn.span() => #vfn(&self)?;));
+        let validate_fn = self.validate_fn.as_ref().map(|vfn| {
+            // Point at the path in errors, but keep the hygiene of the surrounding `self`
+            // when the path comes from somewhere else, e.g. a `macro_rules!` fragment.
+            let span = Span::call_site().located_at(vfn.span());
+            quote_spanned!(span => #vfn(&self)?;)
+        });
         let error_ty = &self.error_ty;
 
         if self.enabled {
-- 
2.43.0


From 3ea15b16b45a80e8288994092c6a87e87c087102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 12/14] fix: let Self in a struct's types and bounds mean the
 struct

---
 derive_builder_core/src/lib.rs          |  4 ++
 derive_builder_core/src/resolve_self.rs | 55 +++++++++++++++++++++++++
 2 files changed, 59 insertions(+)
 create mode 100644 derive_builder_core/src/resolve_self.rs

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index 1b8c5a3..063a99a 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -37,6 +37,7 @@ mod doc_comment;
 mod initializer;
 mod macro_options;
 mod options;
+mod resolve_self;
 mod setter;
 
 pub(crate) use block::BlockContents;
@@ -49,6 +50,7 @@ pub(crate) use default_expression::DefaultExpression;
 pub(crate) use doc_comment::doc_comment_from;
 pub(crate) use initializer::{FieldConversion, Initializer};
 pub(crate) use options::{BuilderPattern, Each};
+pub(crate) use resolve_self::resolve_self;
 pub(crate) use setter::Setter;
 
 const DEFAULT_STRUCT_NAME: &str = "__default";
@@ -65,6 +67,8 @@ pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
         .write_errors();
     }
 
+    let ast = resolve_self(ast);
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
diff --git a/derive_builder_core/src/resolve_self.rs b/derive_builder_core/src/resolve_self.rs
new file mode 100644
index 0000000..232a993
--- /dev/null
+++ b/derive_builder_core/src/resolve_self.rs
@@ -0,0 +1,55 @@
+use proc_macro2::{Group, Spacing, TokenStream, TokenTree};
+use quote::ToTokens;
+use syn::DeriveInput;
+
+/// Spell out `Self` in the types and bounds of a struct.
+///
+/// They are copied into the builder, where `Self` would mean the builder instead of the struct.
+/// Attributes stay as they are: the expressions in there are about the builder.
+pub(crate) fn resolve_self(ast: DeriveInput) -> DeriveInput {
+    let (_, ty_generics, _) = ast.generics.split_for_impl();
+    let ident = &ast.ident;
+    let mut found = false;
+    let resolved = replace_self(
+        ast.to_token_stream(),
+        &quote!(#ident #ty_generics),
+        &mut found,
+    );
+
+    match syn::parse2(resolved) {
+        Ok(resolved) if found => resolved,
+        _ => ast,
+    }
+}
+
+fn replace_self(tokens: TokenStream, target_ty: &TokenStream, found: &mut bool) -> TokenStream {
+    let mut result = TokenStream::new();
+    let mut tokens = tokens.into_iter().peekable();
+    while let Some(token) = tokens.next() {
+        match token {
+            TokenTree::Ident(ref ident) if ident == "Self" => {
+                *found = true;
+                result.extend(match tokens.peek() {
+                    Some(TokenTree::Punct(p))
+                        if p.as_char() == ':' && p.spacing() == Spacing::Joint =>
+                    {
+                        quote!(<#target_ty>)
+                    }
+                    _ => target_ty.clone(),
+                });
+            }
+            TokenTree::Punct(ref punct) if punct.as_char() == '#' => {
+                result.extend(Some(token));
+                result.extend(tokens.next());
+            }
+            TokenTree::Group(ref group) => {
+                let content = replace_self(group.stream(), target_ty, found);
+                let mut new_group = Group::new(group.delimiter(), content);
+                new_group.set_span(group.span());
+                result.extend(Some(TokenTree::Group(new_group)));
+            }
+            _ => result.extend(Some(token)),
+        }
+    }
+    result
+}
-- 
2.43.0


From 38f718ee91d8cbc941a81662aece46a22e7a1766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 13/14] fix: accept a line comment at the end of a quoted
 expression

---
 derive_builder_core/src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 0d53cba..34d890a 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -34,7 +34,8 @@ impl TryFrom<&'_ LitStr> for BlockContents {
     fn try_from(s: &LitStr) -> Result<Self, Self::Error> {
         let mut block_str = s.value();
         block_str.insert(0, '{');
-        block_str.push('}');
+        // a line comment at the end of the contents must not swallow the brace
+        block_str.push_str("\n}");
         LitStr::new(&block_str, s.span()).parse().map(Self)
     }
 }
-- 
2.43.0


From e6cc95134b69cc44cf8caf87891d6ba1e6f14d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 14/14] fix: unquote expressions that a macro passes as
 fragments

---
 derive_builder_core/src/block.rs              | 9 +++++----
 derive_builder_core/src/default_expression.rs | 5 +++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 34d890a..af67a72 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -64,10 +64,11 @@ impl darling::FromMeta for BlockContents {
     }
 
     fn from_expr(expr: &syn::Expr) -> darling::Result<Self> {
-        if let syn::Expr::Lit(lit) = expr {
-            Self::from_value(&lit.lit)
-        } else {
-            Ok(Self::from(expr.clone()))
+        match expr {
+            // a fragment of a `macro_rules!` macro arrives in an invisible group
+            syn::Expr::Group(group) => Self::from_expr(&group.expr),
+            syn::Expr::Lit(lit) => Self::from_value(&lit.lit),
+            _ => Ok(Self::from(expr.clone())),
         }
     }
 }
diff --git a/derive_builder_core/src/default_expression.rs b/derive_builder_core/src/default_expression.rs
index 44dd304..03597b6 100644
--- a/derive_builder_core/src/default_expression.rs
+++ b/derive_builder_core/src/default_expression.rs
@@ -42,6 +42,11 @@ impl darling::FromMeta for DefaultExpression {
     }
 
     fn from_expr(expr: &syn::Expr) -> darling::Result<Self> {
+        // a fragment of a `macro_rules!` macro arrives in an invisible group
+        if let syn::Expr::Group(group) = expr {
+            return Self::from_expr(&group.expr);
+        }
+
         if let syn::Expr::Lit(el) = expr {
             if let syn::Lit::Str(_) = el.lit {
                 return Self::from_value(&el.lit);
-- 
2.43.0

