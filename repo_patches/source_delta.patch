From 5a84931a7855ce4d214b853fb902adf87bd1cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 1/7] fix: emit try setters for fields with raw identifiers

`Ident::new(&format!("try_{}", ident))` panicked with `"try_r#type" is not a valid Ident`
when the setter was named by a raw identifier. `format_ident!` drops the `r#`.
---
 derive_builder_core/src/setter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 392221f..c781f1d 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -149,7 +149,7 @@ impl<'a> ToTokens for Setter<'a> {
             if self.try_setter {
                 let try_ty_params =
                     quote!(<VALUE: #crate_root::export::core::convert::TryInto<#ty>>);
-                let try_ident = syn::Ident::new(&format!("try_{}", ident), Span::call_site());
+                let try_ident = format_ident!("try_{}", ident, span = Span::call_site());
 
                 let mut converted = quote! {converted};
                 if builder_field_is_option {
-- 
2.43.0


From 281e2058a3da0d97337fb099c9dd538e2a20a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 2/7] fix: do not panic on setter(custom = false) for a skipped
 field

`setter(custom = false)` enabled the setter but not the field it sets, so with the field
skipped (by `setter(skip)` on the struct or on the field) the macro panicked with
"phantom fields should never have setters". Like every other setter property it now
enables field and setter together, unless the field itself says `skip`.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 3894b78..e3d9129 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -262,8 +262,8 @@ impl FieldLevelSetter {
     /// Get whether the setter should be emitted. The rules are the same as
     /// for `field_enabled`, except we only skip the setter if `setter(custom)` is present.
     pub fn setter_enabled(&self) -> Option<bool> {
-        if self.custom.is_some() {
-            return self.custom.map(|x| !x);
+        if self.custom == Some(true) {
+            return Some(false);
         }
 
         self.field_enabled()
@@ -283,6 +283,7 @@ impl FieldLevelSetter {
             || self.into.is_some()
             || self.strip_option.is_some()
             || self.each.is_some()
+            || self.custom == Some(false)
         {
             return Some(true);
         }
-- 
2.43.0


From 8ed93b5840123ac858c9f2f66212571376430ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 3/7] fix: let the build method follow the struct's pattern for
 every field

A field with its own pattern had its initializer moved out of or cloned
from the builder according to the field's setter instead of the build
method, which takes the builder by the struct's pattern. An owned field
in a mutable builder therefore only compiled for Copy types.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index e3d9129..03e3ee2 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -884,7 +884,8 @@ impl<'a> FieldWithDefaults<'a> {
             crate_root: &self.parent.crate_root,
             field_enabled: self.field_enabled(),
             field_ident: self.field_ident(),
-            builder_pattern: self.pattern(),
+            // The build method follows the struct's pattern, whatever the field's setter does.
+            builder_pattern: self.parent.pattern,
             default_value: self.field.default.as_ref(),
             use_default_struct: self.use_parent_default(),
             conversion: self.conversion(),
-- 
2.43.0


From c6ed5e0ba1afe8fd6ef5715b61fa749d44845a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 4/7] fix: report an unusable attribute wrapper instead of
 panicking

The content of builder_field_attr, builder_setter_attr, builder_struct_attr
and builder_impl_attr was re-parsed with parse_quote, so a wrapper that was
empty, held several attributes or no attribute made the macro panic without
pointing at the attribute.
---
 derive_builder_core/src/macro_options/darling_opts.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 03e3ee2..890d6a3 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -484,8 +484,13 @@ fn unnest_from_one_attribute(attr: syn::Attribute) -> darling::Result<Attribute>
         Meta::Path(_) => Err(Error::unsupported_format("word").with_span(&meta)),
         Meta::NameValue(_) => Err(Error::unsupported_format("name-value").with_span(&meta)),
         Meta::List(list) => {
-            let inner = list.tokens;
-            Ok(parse_quote_spanned!(original_span=> #pound [ #inner ]))
+            let meta = list.parse_args::<Meta>()?;
+            Ok(Attribute {
+                pound_token: pound,
+                style: syn::AttrStyle::Outer,
+                bracket_token: syn::token::Bracket(original_span),
+                meta,
+            })
         }
     }
 }
-- 
2.43.0


From a7f1ea8f3036dcfedb04d8c2980946d7f13417c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:00 +0000
Subject: [PATCH 5/7] fix: code in a string literal may end with a line comment

The closing brace the literal is wrapped in became part of the comment, so
`default = "x // why"` was rejected as unparsable.
---
 derive_builder_core/src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 0d53cba..3347672 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -34,7 +34,8 @@ impl TryFrom<&'_ LitStr> for BlockContents {
     fn try_from(s: &LitStr) -> Result<Self, Self::Error> {
         let mut block_str = s.value();
         block_str.insert(0, '{');
-        block_str.push('}');
+        // On a line of its own: the code may end with a line comment.
+        block_str.push_str("\n}");
         LitStr::new(&block_str, s.span()).parse().map(Self)
     }
 }
-- 
2.43.0


From b473290d07fe543e294be714af7dcbee36a21eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:47 +0000
Subject: [PATCH 6/7] fix: bound the type parameters by Clone for a setter that
 clones the builder

An owned builder with a field whose setter uses the immutable pattern did not
compile for a struct with type parameters.
---
 derive_builder_core/src/builder.rs                  | 13 +++++++++++--
 .../src/macro_options/darling_opts.rs               |  7 +++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/builder.rs b/derive_builder_core/src/builder.rs
index 72824f2..0947a26 100644
--- a/derive_builder_core/src/builder.rs
+++ b/derive_builder_core/src/builder.rs
@@ -142,6 +142,11 @@ pub struct Builder<'a> {
     /// This is true even for a builder using the `owned` pattern if there is a field whose setter
     /// uses a different pattern.
     pub must_derive_clone: bool,
+    /// Whether or not a setter clones the builder.
+    ///
+    /// Such a setter needs the type parameters to be `Clone`, even for a builder using the `owned`
+    /// pattern.
+    pub setter_clones_builder: bool,
     /// Doc-comment of the builder struct.
     pub doc_comment: Option<syn::Attribute>,
     /// Whether or not a libstd is used.
@@ -330,7 +335,8 @@ impl<'a> Builder<'a> {
         self
     }
 
-    /// Add `Clone` trait bound to generic types for non-owned builders.
+    /// Add `Clone` trait bound to generic types for non-owned builders, and for builders with a
+    /// setter that clones the builder.
     /// This enables target types to declare generics without requiring a
     /// `Clone` impl. This is the same as how the built-in derives for
     /// `Clone`, `Default`, `PartialEq`, and other traits work.
@@ -338,7 +344,9 @@ impl<'a> Builder<'a> {
         if let Some(type_gen) = self.generics {
             let mut generics = type_gen.clone();
 
-            if !self.pattern.requires_clone() || type_gen.type_params().next().is_none() {
+            let requires_clone = self.pattern.requires_clone() || self.setter_clones_builder;
+
+            if !requires_clone || type_gen.type_params().next().is_none() {
                 return generics;
             }
 
@@ -389,6 +397,7 @@ macro_rules! default_builder {
             generate_validation_error: true,
             no_alloc: false,
             must_derive_clone: true,
+            setter_clones_builder: false,
             doc_comment: None,
             std: true,
         }
diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 890d6a3..38ccb01 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -647,6 +647,12 @@ impl Options {
         self.pattern.requires_clone() || self.fields().any(|f| f.pattern().requires_clone())
     }
 
+    /// A setter using the immutable pattern clones the builder, whatever the builder's pattern is.
+    pub fn setter_clones_builder(&self) -> bool {
+        self.fields()
+            .any(|f| f.setter_enabled() && f.pattern() == BuilderPattern::Immutable)
+    }
+
     /// Get an iterator over the input struct's fields which pulls fallback
     /// values from struct-level settings.
     pub fn fields(&self) -> FieldIter {
@@ -691,6 +697,7 @@ impl Options {
                 .unwrap_or(true),
             no_alloc: cfg!(not(any(feature = "alloc", feature = "lib_has_std"))),
             must_derive_clone: self.requires_clone(),
+            setter_clones_builder: self.setter_clones_builder(),
             doc_comment: None,
             std: !self.no_std.is_present(),
         }
-- 
2.43.0


From d8df587aac564432b2c0c63304e72cff02a353e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 7/7] fix: accept a literal that is not a string as a build
 expression

field(build = 42) was rejected although default = 42 and field(build = 40 + 2)
are accepted.
---
 derive_builder_core/src/block.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 3347672..8bbd0da 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -65,10 +65,13 @@ impl darling::FromMeta for BlockContents {
 
     fn from_expr(expr: &syn::Expr) -> darling::Result<Self> {
         if let syn::Expr::Lit(lit) = expr {
-            Self::from_value(&lit.lit)
-        } else {
-            Ok(Self::from(expr.clone()))
+            // Only a string literal holds code, any other literal is the code.
+            if let syn::Lit::Str(_) = lit.lit {
+                return Self::from_value(&lit.lit);
+            }
         }
+
+        Ok(Self::from(expr.clone()))
     }
 }
 
-- 
2.43.0

