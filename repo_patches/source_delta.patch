From dd57a191c22dc60537a7ffe44beaf387ee09072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:27 +0000
Subject: [PATCH 01/33] fix: derive virtual type names without slicing inside a
 multi-byte character

---
 xsd-internal/src/xsd/parse/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 694107a..35e92a7 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -47,9 +47,10 @@ where
 
     let mut virtual_name = String::new();
     for name in names.into_iter() {
-        if !name.name.is_empty() {
-            virtual_name += name.name[0..1].to_ascii_uppercase().as_str();
-            virtual_name += &name.name[1..];
+        let mut chars = name.name.chars();
+        if let Some(first) = chars.next() {
+            virtual_name.push(first.to_ascii_uppercase());
+            virtual_name.push_str(chars.as_str());
         }
     }
 
-- 
2.43.0


From 179535e90820db65e4d5a4584db710a4416ee547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:32 +0000
Subject: [PATCH 02/33] fix: escape every Rust keyword and leading digits in
 generated identifiers

---
 xsd-internal/src/utils.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 656910f..b40dcb7 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -2,12 +2,20 @@ use quote::format_ident;
 
 pub fn escape_ident(name: &str) -> syn::Ident {
     match name {
-        " break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn"
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
         | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
-        | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super" | "trait"
-        | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await" | "dyn" => {
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
+        | "use" | "where" | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box"
+        | "do" | "final" | "gen" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+        | "virtual" | "yield" => {
             format_ident!("r#{}", name)
         }
+        // those keywords cannot be raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        // identifiers must not be empty and must not start with a digit
+        _ if !name.starts_with(|c: char| c.is_alphabetic() || c == '_') => {
+            format_ident!("_{}", name)
+        }
         _ => format_ident!("{}", name),
     }
 }
-- 
2.43.0


From 555dd956285611cb435c336f9606f35ae8155401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 03/33] fix: escape the identifiers of enum and choice variants

---
 xsd-internal/src/ast/leaf.rs |  6 +++---
 xsd-internal/src/ast/root.rs | 21 +++++++++++----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c565ff9..c388ad3 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -4,7 +4,7 @@ use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 
 #[derive(Debug, Clone)]
 pub struct Leaf {
@@ -155,7 +155,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     {
                         let mut vec = Vec::new();
@@ -185,7 +185,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     if #first_name::lookahead(node) {
                         Some(#value)
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3b4944b..b46b434 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,11 +1,12 @@
 use std::collections::HashMap;
 
+use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 use syn::Ident;
 
 #[derive(Debug, Clone)]
@@ -84,17 +85,17 @@ impl Root {
             }
             Root::Enum(names) => {
                 let names = escape_enum_names(names.clone());
-                let variants = names.keys().map(|k| format_ident!("{}", k));
+                let variants = names.keys().map(|k| escape_ident(k));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #name_xml => #root_name::#variant
                     }
                 });
                 let as_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #root_name::#variant => #name_xml
                     }
@@ -144,7 +145,7 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let mut type_ident = variant.definition.to_impl(ctx);
                     if variant.is_vec() {
                         type_ident = quote! { Vec<#type_ident> }
@@ -206,7 +207,7 @@ impl Root {
             }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
                     let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
@@ -282,13 +283,13 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let inner = variant.definition.from_xml_impl(ctx);
                     let name_xml = &variant.name.name;
                     let namespace_xml = ctx.quote_xml_namespace(&variant.name);
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
-                            let first_name = format_ident!("{}", name.name.to_pascal_case());
+                            let first_name = escape_ident(&name.name.to_pascal_case());
                             quote! {
                                 if #first_name::lookahead(node) {
                                     Self::#variant_name(#inner)
@@ -365,7 +366,7 @@ impl Root {
                                 // TODO: reflect that in the type?
                                 unreachable!()
                             };
-                            let name = format_ident!("{}", name.name.to_pascal_case());
+                            let name = escape_ident(&name.name.to_pascal_case());
                             Some(quote! {
                                 #name::lookahead(node)
                             })
@@ -397,7 +398,7 @@ impl Root {
                             // TODO: reflect that in the type?
                             unreachable!()
                         };
-                        let name = format_ident!("{}", name.name.to_pascal_case());
+                        let name = escape_ident(&name.name.to_pascal_case());
                         quote! {
                             #name::lookahead(node)
                         }
-- 
2.43.0


From 692c13ed7804d9b58fef761ea5f179f2d4f206d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:10 +0000
Subject: [PATCH 04/33] fix: find optional members of xs:all in any order

---
 xsd-internal/src/ast/leaf.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c388ad3..e10105a 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -195,11 +195,17 @@ impl Leaf {
                 };
             }
         } else {
+            // members of an `xs:all` can appear in any order, also when they are optional
+            let find = if self.is_unordered {
+                quote!(child)
+            } else {
+                quote!(next_child)
+            };
             value = if self.is_vec() {
                 let mut from_vec = quote! {
                     {
                         let mut vec = Vec::new();
-                        while let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                        while let Some(node) = node.#find(#name_xml, #namespace_xml) {
                             vec.push(#value);
                         }
                         vec
@@ -220,7 +226,7 @@ impl Leaf {
                 from_vec
             } else if self.is_optional() {
                 quote! {
-                    if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                    if let Some(node) = node.#find(#name_xml, #namespace_xml) {
                         Some(#value)
                     } else {
                         None
-- 
2.43.0


From 308ddc8f4048708a960a28a1d68710249108eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:14 +0000
Subject: [PATCH 05/33] fix: write the element around every flattened simple or
 fixed value

---
 xsd-internal/src/ast/element_definition.rs | 11 ++---------
 xsd-internal/src/ast/leaf.rs               | 18 +-----------------
 xsd-internal/src/ast/leaf_content.rs       | 12 ++++++++++++
 xsd-internal/src/ast/root.rs               | 14 ++++----------
 4 files changed, 19 insertions(+), 36 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 8504397..8ad27eb 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,4 +1,3 @@
-use crate::ast::{LeafContent, LeafDefinition};
 use crate::xsd::context::SchemaContext;
 
 use super::{Attribute, ElementContent};
@@ -42,14 +41,8 @@ impl ElementDefinition {
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
         // is still able to add attributes to the XML element
         let is_named_leaf = matches!(
-            self.content,
-            Some(ElementContent::Leaf(
-                _,
-                LeafDefinition {
-                    content: LeafContent::Named(_),
-                    ..
-                },
-            ))
+            &self.content,
+            Some(ElementContent::Leaf(_, def)) if def.content.writes_element(ctx)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
         if wrap {
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index e10105a..0a55d24 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,5 +1,4 @@
 use super::{LeafContent, LeafDefinition, Name};
-use crate::ast::Root;
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -85,22 +84,7 @@ impl Leaf {
             });
         }
 
-        let wrap = !self.is_virtual
-            && match &self.definition {
-                LeafDefinition {
-                    content: LeafContent::Named(name),
-                    ..
-                } => {
-                    matches!(
-                        ctx.resolve(name),
-                        Some(Root::Leaf(LeafDefinition {
-                            content: LeafContent::Literal(_),
-                            ..
-                        }))
-                    )
-                }
-                _ => true,
-            };
+        let wrap = !self.is_virtual && !self.definition.content.writes_element(ctx);
 
         if wrap {
             tn.append_all(quote! {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1c2733a..09061ae 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -75,6 +75,18 @@ impl LeafContent {
         }
     }
 
+    /// Whether the `to_xml_writer` of the type writes the start and end of the XML element. That is
+    /// not the case for types that are flattened into their literal or fixed value.
+    pub fn writes_element(&self, ctx: &SchemaContext) -> bool {
+        match self {
+            LeafContent::Literal(_) | LeafContent::Fixed(_) => false,
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.writes_element(ctx),
+                _ => true,
+            },
+        }
+    }
+
     pub fn from_str_impl(&self) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index b46b434..60bed7c 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -172,14 +172,7 @@ impl Root {
                     let val = &self.0;
                     #inner
                 };
-                // TODO: improve those cases to make them easier to understand
-                if !matches!(
-                    def,
-                    LeafDefinition {
-                        content: LeafContent::Named(_),
-                        ..
-                    }
-                ) {
+                if !def.content.writes_element(ctx) {
                     quote! {
                         ctx.write_start_element(writer)?;
                         #tn
@@ -210,8 +203,9 @@ impl Root {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
-                    let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
-                    let mut inner = if is_literal {
+                    let wrap =
+                        !variant.is_virtual && !variant.definition.content.writes_element(ctx);
+                    let mut inner = if wrap {
                         quote! {
                             let mut ctx = ::xsd::Context::new(#name_xml);
                             ctx.write_start_element(writer)?;
-- 
2.43.0


From 4b63ceb84a013d65f8b5ddd232af4c6683f939ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:45 +0000
Subject: [PATCH 06/33] fix: write choice elements with the prefix of their
 namespace

---
 xsd-internal/src/ast/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 60bed7c..20efec8 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -201,7 +201,7 @@ impl Root {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
-                    let name_xml = &variant.name.name;
+                    let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
                     let wrap =
                         !variant.is_virtual && !variant.definition.content.writes_element(ctx);
-- 
2.43.0


From 909d847c4099ca2989402a167d2dd701f3795259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:50 +0000
Subject: [PATCH 07/33] fix: parse attributes whose type is a named simple type

---
 xsd-internal/src/ast/attribute.rs          | 4 ++--
 xsd-internal/src/ast/element_definition.rs | 2 +-
 xsd-internal/src/ast/leaf_content.rs       | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b03c06..eb1b58a 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -59,10 +59,10 @@ impl Attribute {
         }
     }
 
-    pub fn from_xml_impl(&self) -> TokenStream {
+    pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = &self.name.name;
-        let inner = self.content.from_str_impl();
+        let inner = self.content.from_str_impl(ctx);
 
         if self.is_optional {
             quote! {
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 8ad27eb..a84d001 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -63,7 +63,7 @@ impl ElementDefinition {
             ts.append_all(content.from_xml_impl(ctx));
         }
         for attr in &self.attributes {
-            ts.append_all(attr.from_xml_impl());
+            ts.append_all(attr.from_xml_impl(ctx));
         }
         quote! {
             {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 09061ae..1c5fe8a 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -87,10 +87,13 @@ impl LeafContent {
         }
     }
 
-    pub fn from_str_impl(&self) -> TokenStream {
+    pub fn from_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
-            LeafContent::Named(name) => name.from_str_impl(),
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
+                _ => name.from_str_impl(),
+            },
             LeafContent::Fixed(_) => quote! { () },
         }
     }
-- 
2.43.0


From e029ebee96c3d44b4df46639a3184ff388048938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:54 +0000
Subject: [PATCH 08/33] fix: reject attributes that differ from their fixed
 value

---
 xsd-internal/src/ast/leaf_content.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1c5fe8a..a10529f 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -59,16 +59,12 @@ impl LeafContent {
                 Some(Root::Leaf(def)) => def.from_xml_impl(ctx),
                 _ => name.from_xml_impl(),
             },
-            LeafContent::Fixed(fixed) => {
+            LeafContent::Fixed(_) => {
+                let inner = self.from_str_impl(ctx);
                 quote! {
                     {
                         let val = node.text()?;
-                        if val != #fixed {
-                            return Err(::xsd::decode::FromXmlError::FixedMismatch {
-                                expected: #fixed,
-                                received: val.to_string(),
-                            }.into());
-                        }
+                        #inner
                     }
                 }
             }
@@ -94,7 +90,14 @@ impl LeafContent {
                 Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
                 _ => name.from_str_impl(),
             },
-            LeafContent::Fixed(_) => quote! { () },
+            LeafContent::Fixed(fixed) => quote! {
+                if val != #fixed {
+                    return Err(::xsd::decode::FromXmlError::FixedMismatch {
+                        expected: #fixed,
+                        received: val.to_string(),
+                    }.into());
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 2efaadc4e5e5f88a175b81eb977ca1effb019b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 09/33] fix: ignore namespaced attributes instead of letting
 them shadow XSD attributes

---
 xsd-internal/src/xsd/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 211ed72..9ef9b8d 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -66,9 +66,9 @@ impl<'a, 'input> From<roxmltree::Node<'a, 'input>> for Node<'a, 'input> {
         // TODO: throw on non XSD namespace children/attributes instead of ignoring them?
         let attributes = node
             .attributes()
+            // custom (aka namespaced) attributes must not shadow the ones of the XSD element
+            .filter(|attr| attr.namespace().is_none())
             .map(|attr| {
-                // let ns = attr.namespace();
-                // TODO: filter by XSD attributes?
                 (
                     attr.name(),
                     Attribute {
-- 
2.43.0


From 0fcb0ff2d4c2e1d695e572209d46ff22570f8b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:20 +0000
Subject: [PATCH 10/33] fix: resolve unprefixed type references in the default
 namespace

---
 xsd-internal/src/xsd/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f676c72..d76526d 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -139,7 +139,11 @@ impl<'input> Context<'input> {
                 },
             )?))
         } else {
-            Ok(LeafContent::Named(Name::new(name, Namespace::None)))
+            let namespace = match self.default_namespace {
+                Some(ns) if !ns.is_empty() => self.shared.namespaces.get_or_insert(ns),
+                _ => Namespace::None,
+            };
+            Ok(LeafContent::Named(Name::new(name, namespace)))
         }
     }
 
-- 
2.43.0


From ff2f83361b572b8a5064e418ee83d6e7ea5d30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:08 +0000
Subject: [PATCH 11/33] fix: keep the attributes of an extended base type when
 writing

---
 xsd-internal/src/ast/element_definition.rs |  8 ++++-
 xsd-internal/src/ast/leaf.rs               | 12 +++++++
 xsd/src/lib.rs                             | 39 ++++++++++++----------
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index a84d001..62ba1ed 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -45,7 +45,13 @@ impl ElementDefinition {
             Some(ElementContent::Leaf(_, def)) if def.content.writes_element(ctx)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
-        if wrap {
+        // same for the base element of an extension that adds further elements, which starts the XML
+        // element after it added its attributes, but leaves it open for the further elements
+        let is_started_by_base = matches!(
+            &self.content,
+            Some(ElementContent::Leaves(leaves)) if leaves.first().is_some_and(|l| l.is_base(ctx))
+        );
+        if wrap && !is_started_by_base {
             ts.append_all(quote! { ctx.write_start_element(writer)?; });
         }
         if let Some(content) = &self.content {
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 0a55d24..35dded4 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,4 +1,5 @@
 use super::{LeafContent, LeafDefinition, Name};
+use crate::ast::Root;
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -46,6 +47,17 @@ impl Leaf {
         }
     }
 
+    /// Whether it is the base type of an extension.
+    pub fn is_base(&self, ctx: &SchemaContext) -> bool {
+        match &self.definition.content {
+            LeafContent::Named(name) if self.is_virtual => matches!(
+                ctx.resolve(name),
+                Some(Root::Element(def)) if !def.is_virtual
+            ),
+            _ => false,
+        }
+    }
+
     pub fn to_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let mut type_ident = self.definition.to_impl(ctx);
diff --git a/xsd/src/lib.rs b/xsd/src/lib.rs
index 6ad4798..e9b8d24 100644
--- a/xsd/src/lib.rs
+++ b/xsd/src/lib.rs
@@ -21,6 +21,7 @@ pub struct ContextInner<'a> {
     name: Name<'a>,
     attributes: Vec<(Name<'a>, Cow<'a, str>)>,
     namespace: Namespace,
+    is_started: bool,
 }
 
 impl<'a, 'b> Context<'a, 'b> {
@@ -29,6 +30,7 @@ impl<'a, 'b> Context<'a, 'b> {
             name: name.into(),
             attributes: Vec::new(),
             namespace: Namespace::empty(),
+            is_started: false,
         })
     }
 
@@ -72,25 +74,26 @@ impl<'a, 'b> Context<'a, 'b> {
         &mut self,
         writer: &mut ::xml::writer::EventWriter<W>,
     ) -> Result<(), xml::writer::Error> {
-        match self {
-            Context::Virtual(_) => {}
-            Context::Context(inner) => {
-                let attributes = mem::take(&mut inner.attributes);
-                let namespace = mem::replace(&mut inner.namespace, Namespace::empty());
-                writer.write(XmlEvent::StartElement {
-                    name: inner.name,
-                    attributes: Cow::Owned(
-                        attributes
-                            .iter()
-                            .map(|(k, v)| Attribute::new(*k, v))
-                            .collect(),
-                    ),
-                    namespace: Cow::Owned(namespace),
-                })?
-            }
-        }
+        let inner = match self {
+            // already written by the element the context belongs to
+            Context::Virtual(inner) if inner.is_started => return Ok(()),
+            Context::Virtual(inner) => inner,
+            Context::Context(inner) => inner,
+        };
+        inner.is_started = true;
 
-        Ok(())
+        let attributes = mem::take(&mut inner.attributes);
+        let namespace = mem::replace(&mut inner.namespace, Namespace::empty());
+        writer.write(XmlEvent::StartElement {
+            name: inner.name,
+            attributes: Cow::Owned(
+                attributes
+                    .iter()
+                    .map(|(k, v)| Attribute::new(*k, v))
+                    .collect(),
+            ),
+            namespace: Cow::Owned(namespace),
+        })
     }
 
     pub fn write_end_element<W: std::io::Write>(
-- 
2.43.0


From 699d8f257b65d82488eb67097b42d58e1cd6df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:13 +0000
Subject: [PATCH 12/33] fix: read repeated sequences inside of a choice

---
 xsd-internal/src/ast/root.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 20efec8..cbfb58c 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -284,9 +284,21 @@ impl Root {
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
                             let first_name = escape_ident(&name.name.to_pascal_case());
-                            quote! {
-                                if #first_name::lookahead(node) {
-                                    Self::#variant_name(#inner)
+                            if variant.is_vec() {
+                                quote! {
+                                    if #first_name::lookahead(node) {
+                                        let mut vec = Vec::new();
+                                        while #first_name::lookahead(node) {
+                                            vec.push(#inner);
+                                        }
+                                        Self::#variant_name(vec)
+                                    }
+                                }
+                            } else {
+                                quote! {
+                                    if #first_name::lookahead(node) {
+                                        Self::#variant_name(#inner)
+                                    }
                                 }
                             }
                         } else {
-- 
2.43.0


From 9a771f9094bacd6b18f0f6b7ae2b0d92135ccd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:43 +0000
Subject: [PATCH 13/33] fix: do not overflow the stack on circular includes

---
 xsd-internal/src/xsd/context.rs | 9 +++++++++
 xsd-internal/src/xsd/schema.rs  | 9 ++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index d76526d..db616eb 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use std::path::PathBuf;
 
 use super::error::XsdError;
 use super::node::Attribute;
@@ -24,6 +25,8 @@ pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
     pub dependencies: HashMap<Name, HashSet<Name>>,
+    /// Files that are already included.
+    pub included: HashSet<PathBuf>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -68,6 +71,11 @@ impl<'input> Context<'input> {
         self.shared = shared
     }
 
+    /// Marks the file as being included. Returns `false` if it already is.
+    pub fn include(&mut self, file: PathBuf) -> bool {
+        self.shared.included.insert(file)
+    }
+
     pub fn add_root(&mut self, name: Name, root: Root) {
         self.roots.insert(name, root);
     }
@@ -81,6 +89,7 @@ impl<'input> Context<'input> {
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
+            included: self.shared.included,
         }
     }
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cc1a1b2..eee5386 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
+use std::path::PathBuf;
 use std::{collections::HashMap, path::Path};
 
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
@@ -18,6 +19,7 @@ use roxmltree::{Document, TextPos};
 pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
     pub(crate) context: SchemaContext,
+    pub(crate) included: HashSet<PathBuf>,
 }
 
 impl Schema {
@@ -112,13 +114,17 @@ impl Schema {
         );
 
         for child in root.children().namespace(NS_XSD).iter() {
-            // TODO: prevent circular includes
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
                 let location: &str = &child.try_attribute("schemaLocation")?.value();
                 let mut path = base_path.to_path_buf();
                 path.push(location);
 
+                // every file is only included once, which also prevents circular includes
+                if !ctx.include(path.canonicalize().unwrap_or_else(|_| path.clone())) {
+                    continue;
+                }
+
                 // merge imports
                 let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
@@ -142,6 +148,7 @@ impl Schema {
         SharedContext {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
+            included: self.included,
         }
     }
 
-- 
2.43.0


From f6148461b7ce42ec0fdfb47ed2091afd257459f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:13 +0000
Subject: [PATCH 14/33] fix: generate the same code for the same schema on
 every run

---
 xsd-internal/src/ast/name.rs       |  4 ++--
 xsd-internal/src/ast/namespaces.rs |  4 ++--
 xsd-internal/src/ast/root.rs       | 12 +++++-------
 xsd-internal/src/xsd/node.rs       |  4 ++--
 xsd-internal/src/xsd/schema.rs     |  9 ++++++---
 5 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/xsd-internal/src/ast/name.rs b/xsd-internal/src/ast/name.rs
index 4a9ac6a..b2021db 100644
--- a/xsd-internal/src/ast/name.rs
+++ b/xsd-internal/src/ast/name.rs
@@ -4,14 +4,14 @@ use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
 pub enum Namespace {
     #[default]
     None,
     Id(usize),
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct Name {
     pub name: String,
     pub namespace: Namespace,
diff --git a/xsd-internal/src/ast/namespaces.rs b/xsd-internal/src/ast/namespaces.rs
index c95fed4..996c235 100644
--- a/xsd-internal/src/ast/namespaces.rs
+++ b/xsd-internal/src/ast/namespaces.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use super::Namespace;
 
@@ -11,7 +11,7 @@ pub struct NamespaceDefinition {
 #[derive(Debug, Default)]
 pub struct Namespaces {
     by_namespace: HashMap<String, usize>,
-    by_id: HashMap<usize, NamespaceDefinition>,
+    by_id: BTreeMap<usize, NamespaceDefinition>,
 }
 
 impl Namespaces {
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index cbfb58c..c31f9d8 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,5 +1,3 @@
-use std::collections::HashMap;
-
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
@@ -85,7 +83,7 @@ impl Root {
             }
             Root::Enum(names) => {
                 let names = escape_enum_names(names.clone());
-                let variants = names.keys().map(|k| escape_ident(k));
+                let variants = names.iter().map(|(variant, _)| escape_ident(variant));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
                     let variant = escape_ident(variant);
@@ -425,9 +423,9 @@ impl Root {
     }
 }
 
-fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
+fn escape_enum_names(names: Vec<Name>) -> Vec<(String, Name)> {
     let mut unknown_count = 0;
-    let mut enum_names = HashMap::with_capacity(names.len());
+    let mut enum_names: Vec<(String, Name)> = Vec::with_capacity(names.len());
 
     for name in names.into_iter() {
         let mut variant_name = name
@@ -456,7 +454,7 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
         }
 
         loop {
-            if variant_name.is_empty() || enum_names.contains_key(&variant_name) {
+            if variant_name.is_empty() || enum_names.iter().any(|(v, _)| *v == variant_name) {
                 unknown_count += 1;
                 variant_name = format!("Variant{}", unknown_count);
             } else {
@@ -464,7 +462,7 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
             }
         }
 
-        enum_names.insert(variant_name, name);
+        enum_names.push((variant_name, name));
     }
 
     enum_names
diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 9ef9b8d..05815fd 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -2,7 +2,7 @@
 #![allow(unused)]
 
 use std::cell::Cell;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::ops::Range;
 use std::{borrow::Cow, ops::Deref};
 
@@ -52,7 +52,7 @@ pub enum NodeError {
 pub struct Node<'a, 'input> {
     name: &'input str,
     inner: roxmltree::Node<'a, 'input>,
-    attributes: HashMap<&'a str, Attribute<'a, 'input>>,
+    attributes: BTreeMap<&'a str, Attribute<'a, 'input>>,
 }
 
 #[derive(Clone)]
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index eee5386..12167b1 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{BTreeSet, HashSet};
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
@@ -159,7 +159,10 @@ impl Schema {
     pub fn generate_all(&self) -> Result<TokenStream, SchemaError> {
         let mut result = TokenStream::new();
 
-        for name in self.context.elements.keys() {
+        // the order of the generated code must not depend on the one of the hash map
+        let mut names = self.context.elements.keys().collect::<Vec<_>>();
+        names.sort();
+        for name in names {
             result.append_all(self.generate_element(name)?);
         }
 
@@ -173,7 +176,7 @@ impl Schema {
     ) -> Result<TokenStream, SchemaError> {
         let mut result = TokenStream::new();
 
-        let mut names = HashSet::with_capacity(1);
+        let mut names = BTreeSet::new();
         let mut new_names = HashSet::with_capacity(1);
         new_names.insert(name);
 
-- 
2.43.0


From 5524d6610ae29a64258288831e10c6f952440591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:43 +0000
Subject: [PATCH 15/33] fix: read the whole text of an element that contains
 comments

---
 xsd-internal/src/ast/leaf_content.rs |  4 ++--
 xsd-internal/src/ast/root.rs         |  2 +-
 xsd/src/decode.rs                    | 26 +++++++++++++++++++-------
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index a10529f..a64fa06 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -50,7 +50,7 @@ impl LeafContent {
                 let inner = literal.from_str_impl();
                 quote! {
                     {
-                        let val = node.text()?;
+                        let val = &*node.text()?;
                         #inner
                     }
                 }
@@ -63,7 +63,7 @@ impl LeafContent {
                 let inner = self.from_str_impl(ctx);
                 quote! {
                     {
-                        let val = node.text()?;
+                        let val = &*node.text()?;
                         #inner
                     }
                 }
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index c31f9d8..3f99705 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -261,7 +261,7 @@ impl Root {
             Root::Enum(_) => {
                 quote! {
                     {
-                        let val = node.text()?;
+                        let val = &*node.text()?;
                         ::std::str::FromStr::from_str(val)?
                     }
                 }
diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index a627f2b..ed63eea 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::cell::RefCell;
 use std::collections::VecDeque;
 use std::ops::Range;
@@ -177,13 +178,24 @@ impl<'a> Node<'a> {
             })
     }
 
-    pub fn text(&self) -> Result<&str, FromXmlError> {
-        if self.node.first_child().is_none() {
-            Ok("")
-        } else {
-            self.node.text().ok_or_else(|| FromXmlError::TextExpected {
-                name: self.node.tag_name().name().to_string(),
-            })
+    pub fn text(&self) -> Result<Cow<'a, str>, FromXmlError> {
+        let mut text: Option<Cow<'a, str>> = None;
+        // the text consists of several nodes if it is interrupted by, e.g., a comment
+        for child in self.node.children().filter(|c| c.is_text()) {
+            let part = child.text().unwrap_or_default();
+            match &mut text {
+                Some(text) => text.to_mut().push_str(part),
+                None => text = Some(Cow::Borrowed(part)),
+            }
+        }
+        match text {
+            Some(text) => Ok(text),
+            None if self.node.children().any(|c| c.is_element()) => {
+                Err(FromXmlError::TextExpected {
+                    name: self.node.tag_name().name().to_string(),
+                })
+            }
+            None => Ok(Cow::Borrowed("")),
         }
     }
 
-- 
2.43.0


From 77b10ddfa76e941733135eb65afed3c70b5ce91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:17 +0000
Subject: [PATCH 16/33] fix: do not overflow the stack on elements named like
 their type

---
 xsd-internal/src/xsd/schema.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 12167b1..4f2537c 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -8,7 +8,7 @@ use std::{collections::HashMap, path::Path};
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
 use super::node::Node;
-use crate::ast::{Name, Namespace, Root};
+use crate::ast::{LeafContent, LeafDefinition, Name, Namespace, Root};
 use crate::utils::escape_ident;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
@@ -138,6 +138,14 @@ impl Schema {
             let name = Name::new(child.try_attribute("name")?.value(), ctx.target_namespace());
 
             let root = crate::xsd::parse::root::parse(child, &name, &mut ctx)?;
+            // an element that has the same name as its type is already represented by the type
+            if matches!(
+                &root,
+                Root::Leaf(LeafDefinition { content: LeafContent::Named(type_name), .. })
+                    if *type_name == name
+            ) {
+                continue;
+            }
             ctx.add_root(name, root);
         }
 
-- 
2.43.0


From 919d61e5fb95331c450c441483eab69daca5c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:08 +0000
Subject: [PATCH 17/33] fix: enter optional and repeated xs:all groups with any
 of their members

---
 xsd-internal/src/ast/root.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3f99705..1fe8ded 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -360,7 +360,8 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional();
+                        // members of an `xs:all` can appear in any order, so each of them can be first
+                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From 0de7cc03cdb477b3f768cfbaf37898fb9f5097de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 18/33] fix: escape names that consist of underscores only

A name like `_` was turned into the empty string or the reserved identifier
`_`, neither of which is a legal identifier.
---
 xsd-internal/src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index b40dcb7..071a2c8 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -12,7 +12,9 @@ pub fn escape_ident(name: &str) -> syn::Ident {
         }
         // those keywords cannot be raw identifiers
         "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
-        // identifiers must not be empty and must not start with a digit
+        // neither are those identifiers
+        "" | "_" => format_ident!("__"),
+        // identifiers must not start with a digit
         _ if !name.starts_with(|c: char| c.is_alphabetic() || c == '_') => {
             format_ident!("_{}", name)
         }
-- 
2.43.0


From 2d6ad1a20e2805af5ef57f7790541f2fe8ade828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:04 +0000
Subject: [PATCH 19/33] fix: reject unsupported children of local elements

Children (e.g. xs:key or xs:unique) of local elements that have a type, a ref or
no type at all were silently skipped, unlike the ones of top-level elements.
---
 xsd-internal/src/xsd/parse/element.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 3f8fbf4..e5d927c 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -71,9 +71,13 @@ where
     let min_occurs = parse_min_occurs(node.attribute("minOccurs"))?;
     let max_occurs = parse_max_occurs(node.attribute("maxOccurs"))?;
 
+    let mut children = node.children().namespace(NS_XSD).collect();
+    let docs = super::parse_annotation(children.remove("annotation", Some(NS_XSD)))?;
+
     // <element ref="other:Type" />
     if let Some(attr) = node.attribute("ref") {
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
         if let LeafContent::Named(name) = ctx.get_type_name(attr)? {
             ctx.discover_type(&name, Some(parent));
 
@@ -107,8 +111,6 @@ where
     // TODO: implement attribute?
     node.attribute("form");
 
-    let docs = super::parse_annotation(node.child("annotation", Some(NS_XSD)))?;
-
     // <element type="xs:string" /> | <element type="MyCustomType" />
     if let Some(attr) = node.attribute("type") {
         let mut content = ctx.get_type_name(attr)?;
@@ -123,6 +125,7 @@ where
         }
 
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         Ok(Leaf {
             name,
@@ -140,6 +143,7 @@ where
         && node.child("complexType", Some(NS_XSD)).is_none()
     {
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         // TODO: add test for that case
         Ok(Leaf {
-- 
2.43.0


From 93214bc16213ceedba6bcee251ce999aafb95afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:32 +0000
Subject: [PATCH 20/33] fix: reject elements and types that refer to themselves

---
 xsd-internal/src/xsd/context.rs | 17 +++++++++++++++++
 xsd-internal/src/xsd/error.rs   |  3 +++
 xsd-internal/src/xsd/schema.rs  | 23 ++++++++++++++++++++++-
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index db616eb..466c45c 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -80,6 +80,23 @@ impl<'input> Context<'input> {
         self.roots.insert(name, root);
     }
 
+    /// Whether the definition with that name is an alias that (transitively) refers to itself.
+    pub fn is_circular(&self, name: &Name) -> bool {
+        let mut visited = HashSet::new();
+        let mut next = name;
+        while let Some(Root::Leaf(LeafDefinition {
+            content: LeafContent::Named(alias),
+            ..
+        })) = self.roots.get(next)
+        {
+            if !visited.insert(next) {
+                return true;
+            }
+            next = alias;
+        }
+        false
+    }
+
     pub fn into_schema(self) -> Schema {
         Schema {
             context: SchemaContext {
diff --git a/xsd-internal/src/xsd/error.rs b/xsd-internal/src/xsd/error.rs
index 786cbe5..7b59bb9 100644
--- a/xsd-internal/src/xsd/error.rs
+++ b/xsd-internal/src/xsd/error.rs
@@ -51,6 +51,8 @@ pub enum XsdError {
     },
     #[error("Unsupported XSD type {name}")]
     UnsupportedType { name: String, range: Range<usize> },
+    #[error("The definition of `{name}` refers to itself")]
+    CircularType { name: String, range: Range<usize> },
 }
 
 impl XsdError {
@@ -69,6 +71,7 @@ impl XsdError {
             XsdError::ParseInt { range, .. } => Some(range),
             XsdError::ParseDecimal { range, .. } => Some(range),
             XsdError::UnsupportedType { range, .. } => Some(range),
+            XsdError::CircularType { range, .. } => Some(range),
         }
     }
 }
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 4f2537c..9d5854d 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -127,9 +127,12 @@ impl Schema {
 
                 // merge imports
                 let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
+                let mut names = schema.context.elements.keys().cloned().collect::<Vec<_>>();
+                names.sort();
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
                     ctx.add_root(name, root);
                 }
+                prevent_circular_types(&names, child.range(), &ctx)?;
                 ctx.set_shared(schema.into_shared());
 
                 continue;
@@ -137,6 +140,7 @@ impl Schema {
 
             let name = Name::new(child.try_attribute("name")?.value(), ctx.target_namespace());
 
+            let range = child.range();
             let root = crate::xsd::parse::root::parse(child, &name, &mut ctx)?;
             // an element that has the same name as its type is already represented by the type
             if matches!(
@@ -146,7 +150,8 @@ impl Schema {
             ) {
                 continue;
             }
-            ctx.add_root(name, root);
+            ctx.add_root(name.clone(), root);
+            prevent_circular_types(&[name], range, &ctx)?;
         }
 
         Ok(ctx.into_schema())
@@ -344,6 +349,22 @@ impl Schema {
     }
 }
 
+/// Elements and types that are nothing but references to each other do not have any content that could
+/// be generated.
+fn prevent_circular_types(
+    names: &[Name],
+    range: Range<usize>,
+    ctx: &Context<'_>,
+) -> Result<(), XsdError> {
+    match names.iter().find(|name| ctx.is_circular(name)) {
+        Some(name) => Err(XsdError::CircularType {
+            name: name.name.clone(),
+            range,
+        }),
+        None => Ok(()),
+    }
+}
+
 #[derive(Debug, thiserror::Error)]
 pub enum SchemaError {
     #[error("Error on line {row} (offset {col} in {file}): {err}")]
-- 
2.43.0


From 9e3a22da89a8f7ea8c24e78b9550720cb9cb7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:50 +0000
Subject: [PATCH 21/33] fix: accept empty documentation

---
 xsd-internal/src/xsd/parse/annotation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd-internal/src/xsd/parse/annotation.rs b/xsd-internal/src/xsd/parse/annotation.rs
index e0e6b1a..407be6a 100644
--- a/xsd-internal/src/xsd/parse/annotation.rs
+++ b/xsd-internal/src/xsd/parse/annotation.rs
@@ -6,6 +6,7 @@ pub fn parse(node: Node<'_, '_>) -> Result<Option<String>, XsdError> {
     let mut children = node.children().namespace(NS_XSD).collect();
     let docs = children
         .remove("documentation", Some(NS_XSD))
+        .filter(|child| child.has_children())
         .map(|child| child.try_text())
         .transpose()?
         .and_then(|text| {
-- 
2.43.0


From 0a4eab2b0ff38fe1ade876156ab807e2427413e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:12 +0000
Subject: [PATCH 22/33] fix: do not write unqualified elements into the default
 namespace

[C02, C13] A schema with elementFormDefault="qualified" that imports a schema whose elements are unqualified
(or that does not have a target namespace) wrote the elements without namespace unprefixed, below an element
that declares the target namespace as the default one.
---
 xsd-internal/src/xsd/context.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 466c45c..06db9b6 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -4,7 +4,10 @@ use std::path::PathBuf;
 use super::error::XsdError;
 use super::node::Attribute;
 use super::schema::Schema;
-use crate::ast::{LeafContent, LeafDefinition, LiteralType, Name, Namespace, Namespaces, Root};
+use crate::ast::{
+    ElementContent, ElementDefinition, LeafContent, LeafDefinition, LiteralType, Name, Namespace,
+    Namespaces, Root,
+};
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -97,12 +100,32 @@ impl<'input> Context<'input> {
         false
     }
 
+    /// Whether there are elements without a namespace (e.g. imported ones).
+    fn has_unqualified(&self) -> bool {
+        self.roots.iter().any(|(name, root)| {
+            let leaves = match root {
+                Root::Element(ElementDefinition {
+                    content: Some(ElementContent::Leaves(leaves)),
+                    ..
+                }) => leaves.as_slice(),
+                Root::Choice(def) => def.variants.as_slice(),
+                _ => &[],
+            };
+            name.namespace == Namespace::None
+                || leaves
+                    .iter()
+                    .any(|leaf| !leaf.is_virtual && leaf.name.namespace == Namespace::None)
+        })
+    }
+
     pub fn into_schema(self) -> Schema {
         Schema {
             context: SchemaContext {
                 target_namespace: self.target_namespace(),
+                // the target namespace cannot be the default one of the XML if there are elements that
+                // do not belong to any namespace
+                is_qualified: self.is_qualified && !self.has_unqualified(),
                 elements: self.roots,
-                is_qualified: self.is_qualified,
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
-- 
2.43.0


From be94a9a29fc6657a57fb948d8513d7f70cb1f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:15 +0000
Subject: [PATCH 23/33] fix: treat an undeclared default namespace as no
 namespace

[C02, C14] Unqualified elements in a document that undeclares its default namespace with xmlns="" were not found.
---
 xsd/src/decode.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index ed63eea..55eba53 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -57,8 +57,7 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
 impl Document<'_> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let root = self.0.root_element();
-        let tag_name = root.tag_name();
-        if !root.is_element() || tag_name.name() != name || tag_name.namespace() != namespace {
+        if !root.is_element() || !has_tag_name(&root, name, namespace) {
             None
         } else {
             Some(Node::new(root))
@@ -95,8 +94,7 @@ impl<'a> Node<'a> {
                 .or_else(|| children.children.next());
         }
         if let Some(next) = &children.next {
-            let tag_name = next.tag_name();
-            return tag_name.name() == name && tag_name.namespace() == namespace;
+            return has_tag_name(next, name, namespace);
         }
         false
     }
@@ -109,8 +107,7 @@ impl<'a> Node<'a> {
             .or_else(|| children.peeked.pop_front())
             .or_else(|| children.children.next())
         {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_tag_name(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
@@ -133,24 +130,21 @@ impl<'a> Node<'a> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let mut children = self.children.borrow_mut();
         if let Some(next) = children.next.take() {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_tag_name(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
         }
 
         for (ix, child) in children.peeked.iter().enumerate() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_tag_name(child, name, namespace) {
                 return children.peeked.remove(ix).map(Node::new);
             }
         }
 
         #[allow(clippy::while_let_on_iterator)]
         while let Some(child) = children.children.next() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_tag_name(&child, name, namespace) {
                 return Some(Node::new(child));
             }
             children.peeked.push_back(child);
@@ -203,3 +197,9 @@ impl<'a> Node<'a> {
         self.node.range()
     }
 }
+
+/// An undeclared default namespace (`xmlns=""`) is equal to not having a namespace.
+fn has_tag_name(node: &roxmltree::Node<'_, '_>, name: &str, namespace: Option<&str>) -> bool {
+    let tag_name = node.tag_name();
+    tag_name.name() == name && tag_name.namespace().filter(|ns| !ns.is_empty()) == namespace
+}
-- 
2.43.0


From e7c77ceb17fa5551e8eb15d480f9b88b5212889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 24/33] fix: respect the form of local elements

[C02] The form attribute was accepted, but the element was written and read in the namespace given by
elementFormDefault.
---
 xsd-internal/src/xsd/parse/element.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index e5d927c..1a349cc 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use crate::ast::{
-    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Root,
+    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Namespace, Root,
 };
 use crate::xsd::context::{Context, NS_XSD};
 use crate::xsd::error::XsdError;
@@ -103,13 +103,25 @@ where
         }
     }
 
-    let name = ctx.get_node_name(&node.try_attribute("name")?.value(), false);
+    let mut name = ctx.get_node_name(&node.try_attribute("name")?.value(), false);
 
     // mark `default` attribute as visited
     node.attribute("default");
 
-    // TODO: implement attribute?
-    node.attribute("form");
+    if let Some(attr) = node.attribute("form") {
+        name.namespace = match &*attr.value() {
+            "qualified" => ctx.target_namespace(),
+            "unqualified" => Namespace::None,
+            val => {
+                return Err(XsdError::UnsupportedAttributeValue {
+                    name: "form".to_string(),
+                    value: val.to_string(),
+                    element: node.name().to_string(),
+                    range: attr.range(),
+                })
+            }
+        };
+    }
 
     // <element type="xs:string" /> | <element type="MyCustomType" />
     if let Some(attr) = node.attribute("type") {
-- 
2.43.0


From 7fddc69a6a6dbe0fd867235665d3f90545519618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:52 +0000
Subject: [PATCH 25/33] fix: do not let anonymous groups override each other

[C06, C12] A group with a single group in it (e.g. an optional sequence that consists of a choice) got the same
type name as the inner one, so that the generated type contained nothing but itself.
---
 xsd-internal/src/xsd/context.rs   |  4 ++++
 xsd-internal/src/xsd/parse/mod.rs | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 06db9b6..45f019f 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -83,6 +83,10 @@ impl<'input> Context<'input> {
         self.roots.insert(name, root);
     }
 
+    pub fn has_root(&self, name: &Name) -> bool {
+        self.roots.contains_key(name)
+    }
+
     /// Whether the definition with that name is an alias that (transitively) refers to itself.
     pub fn is_circular(&self, name: &Name) -> bool {
         let mut visited = HashSet::new();
diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 35e92a7..9eb35ef 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -54,7 +54,16 @@ where
         }
     }
 
-    ctx.get_node_name(&virtual_name, false)
+    let mut name = ctx.get_node_name(&virtual_name, false);
+    if !shorten {
+        // do not override a type that already got the same name (e.g. a group with a single group in it)
+        let mut count = 1;
+        while ctx.has_root(&name) {
+            count += 1;
+            name.name = format!("{}{}", virtual_name, count);
+        }
+    }
+    name
 }
 
 fn derive_mutal_prefix<'a>(names: impl IntoIterator<Item = &'a str>) -> Option<String> {
-- 
2.43.0


From 4d292cf8664725795113ef1299b611deb9d80895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:14 +0000
Subject: [PATCH 26/33] fix: ignore empty groups

[C12, C15] An empty sequence or choice within a sequence became a member whose type is the one it is a member of.
---
 xsd-internal/src/xsd/parse/complex_type.rs | 3 ++-
 xsd-internal/src/xsd/parse/sequence.rs     | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 79dc547..2dc63bd 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -58,7 +58,8 @@ where
             }
         }
 
-        if max_occurs.is_vec() || min_occurs != Default::default() {
+        let is_group = max_occurs.is_vec() || min_occurs != Default::default();
+        if is_group && !leaves.is_empty() {
             let leaf_name = super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
             let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
 
diff --git a/xsd-internal/src/xsd/parse/sequence.rs b/xsd-internal/src/xsd/parse/sequence.rs
index e9e4fde..deeba6f 100644
--- a/xsd-internal/src/xsd/parse/sequence.rs
+++ b/xsd-internal/src/xsd/parse/sequence.rs
@@ -28,6 +28,9 @@ where
                 let max_occurs = parse_max_occurs(child.attribute("maxOccurs"))?;
 
                 let variants = super::choice::parse(child, parent, ctx)?;
+                if variants.is_empty() {
+                    continue;
+                }
                 let leaf_name =
                     super::derive_virtual_name(variants.iter().map(|v| &v.name), ctx, true);
                 let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
@@ -61,6 +64,9 @@ where
                 let min_occurs = parse_min_occurs(child.attribute("minOccurs"))?;
 
                 let leaves = parse(child, parent, ctx)?;
+                if leaves.is_empty() {
+                    continue;
+                }
                 let leaf_name =
                     super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
                 let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
-- 
2.43.0


From 9949bacc05c2daa07b6f8c5361f24741ea376258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:44 +0000
Subject: [PATCH 27/33] fix: drop characters that cannot be part of an
 identifier
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Names and enumeration values may contain characters (e.g. the superscript
of m² or the fraction ½) that are valid in XML, but not in Rust identifiers. [C15, C17]
---
 xsd-internal/src/ast/root.rs |  4 ++--
 xsd-internal/src/utils.rs    | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 1fe8ded..5193be4 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,4 +1,4 @@
-use crate::utils::escape_ident;
+use crate::utils::{escape_ident, is_ident_char};
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
@@ -435,7 +435,7 @@ fn escape_enum_names(names: Vec<Name>) -> Vec<(String, Name)> {
             .filter_map(|c| match c {
                 '_' | '-' => Some('_'),
                 c => {
-                    if c.is_alphanumeric() {
+                    if c.is_alphanumeric() && is_ident_char(c) {
                         Some(c)
                     } else {
                         None
diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 071a2c8..bff8209 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -1,7 +1,18 @@
 use quote::format_ident;
 
+/// Whether the character can be part of an identifier.
+pub fn is_ident_char(c: char) -> bool {
+    if c.is_ascii() {
+        c.is_ascii_alphanumeric() || c == '_'
+    } else {
+        syn::parse_str::<syn::Ident>(&format!("_{}", c)).is_ok()
+    }
+}
+
 pub fn escape_ident(name: &str) -> syn::Ident {
-    match name {
+    let name = name.chars().filter(|c| is_ident_char(*c));
+    let name = name.collect::<String>();
+    match name.as_str() {
         "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
         | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
         | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
@@ -14,10 +25,8 @@ pub fn escape_ident(name: &str) -> syn::Ident {
         "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
         // neither are those identifiers
         "" | "_" => format_ident!("__"),
-        // identifiers must not start with a digit
-        _ if !name.starts_with(|c: char| c.is_alphabetic() || c == '_') => {
-            format_ident!("_{}", name)
-        }
+        // identifiers must not start with, e.g., a digit
+        _ if syn::parse_str::<syn::Ident>(&name).is_err() => format_ident!("_{}", name),
         _ => format_ident!("{}", name),
     }
 }
-- 
2.43.0


From 38217b88e02f1610079afa9a7e1812c2dc04a204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:23 +0000
Subject: [PATCH 28/33] fix: keep inner attributes inside of the module

They were moved in front of the module, where they are not allowed. [C19]
---
 xsd-derive/src/generator.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xsd-derive/src/generator.rs b/xsd-derive/src/generator.rs
index ad653fa..df8320d 100644
--- a/xsd-derive/src/generator.rs
+++ b/xsd-derive/src/generator.rs
@@ -8,7 +8,9 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let schema = Schema::parse_file(path)?;
     let structs = schema.generate_all()?;
 
-    let attrs = &item.attrs;
+    let attrs = item.attrs.iter().filter(|attr| !is_inner(attr));
+    // those have to stay inside of the module
+    let inner_attrs = item.attrs.iter().filter(|attr| is_inner(attr));
     let vis = &item.vis;
     let ident = &item.ident;
     let items = item
@@ -20,6 +22,8 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let result = quote! {
         #(#attrs)*
         #vis mod #ident {
+            #(#inner_attrs)*
+
             #(#items
             )*
 
@@ -30,3 +34,7 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     // eprintln!("{}", result.to_string());
     Ok(result)
 }
+
+fn is_inner(attr: &syn::Attribute) -> bool {
+    matches!(attr.style, syn::AttrStyle::Inner(_))
+}
-- 
2.43.0


From 6fddfdae8a9e29fbd8a4b142a987eebabfa5c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:53 +0000
Subject: [PATCH 29/33] fix: keep the documentation of element references

---
 xsd-internal/src/xsd/parse/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 1a349cc..172a473 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -86,7 +86,7 @@ where
                 definition: LeafDefinition {
                     content: LeafContent::Named(name),
                     restrictions: Vec::new(),
-                    docs: None,
+                    docs,
                 },
                 is_unordered: false,
                 is_virtual: false,
-- 
2.43.0


From cfc5852a15be15b99d5e34d9d57f938aee53afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:57 +0000
Subject: [PATCH 30/33] fix: read documentation that contains comments

---
 xsd-internal/src/xsd/node.rs             | 25 +++++++++++++++++-------
 xsd-internal/src/xsd/parse/annotation.rs |  1 -
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 05815fd..bd61c21 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -155,13 +155,24 @@ impl<'a, 'input> Node<'a, 'input> {
     }
 
     pub fn text(&self) -> Option<Cow<'input, str>> {
-        self.inner
-            .first_child()
-            .and_then(|child| if child.is_text() { Some(child) } else { None })
-            .and_then(|child| child.text())
-            // TODO: this currently always returns a &str, but is internally a Cow, find a way to
-            // retrieve the Cow instead of the &str to avoid unnecessary allocations
-            .map(|v| Cow::Owned(v.to_string()))
+        if self
+            .inner
+            .children()
+            .find(|child| child.is_element() || child.is_text())
+            .is_some_and(|child| child.is_element())
+        {
+            return None;
+        }
+
+        // the text can be interrupted by comments and processing instructions
+        Some(Cow::Owned(
+            self.inner
+                .children()
+                .take_while(|child| !child.is_element())
+                .filter(|child| child.is_text())
+                .filter_map(|child| child.text())
+                .collect(),
+        ))
     }
 
     pub fn try_text(&self) -> Result<Cow<'input, str>, NodeError> {
diff --git a/xsd-internal/src/xsd/parse/annotation.rs b/xsd-internal/src/xsd/parse/annotation.rs
index 407be6a..e0e6b1a 100644
--- a/xsd-internal/src/xsd/parse/annotation.rs
+++ b/xsd-internal/src/xsd/parse/annotation.rs
@@ -6,7 +6,6 @@ pub fn parse(node: Node<'_, '_>) -> Result<Option<String>, XsdError> {
     let mut children = node.children().namespace(NS_XSD).collect();
     let docs = children
         .remove("documentation", Some(NS_XSD))
-        .filter(|child| child.has_children())
         .map(|child| child.try_text())
         .transpose()?
         .and_then(|text| {
-- 
2.43.0


From 367da6d09022c2bccc9d1042eb38e8d6d87690d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:00 +0000
Subject: [PATCH 31/33] fix: ignore documentation that only consists of
 whitespace

---
 xsd-internal/src/xsd/parse/annotation.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/annotation.rs b/xsd-internal/src/xsd/parse/annotation.rs
index e0e6b1a..046a29e 100644
--- a/xsd-internal/src/xsd/parse/annotation.rs
+++ b/xsd-internal/src/xsd/parse/annotation.rs
@@ -8,13 +8,8 @@ pub fn parse(node: Node<'_, '_>) -> Result<Option<String>, XsdError> {
         .remove("documentation", Some(NS_XSD))
         .map(|child| child.try_text())
         .transpose()?
-        .and_then(|text| {
-            if !text.is_empty() {
-                Some(cleanup_docs(&text))
-            } else {
-                None
-            }
-        });
+        .map(|text| cleanup_docs(&text))
+        .filter(|text| !text.is_empty());
 
     while children.remove("documentation", Some(NS_XSD)).is_some() {
         // TODO: actually use additional documentation tags
-- 
2.43.0


From 7cf4700b25646d7a0401c1dbb0830bcf2dd436f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:49 +0000
Subject: [PATCH 32/33] fix: reject unsupported attributes of prohibited
 attributes

---
 xsd-internal/src/xsd/parse/attribute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/parse/attribute.rs b/xsd-internal/src/xsd/parse/attribute.rs
index 854ca80..e82c061 100644
--- a/xsd-internal/src/xsd/parse/attribute.rs
+++ b/xsd-internal/src/xsd/parse/attribute.rs
@@ -59,7 +59,10 @@ where
     let is_optional = match node.attribute("use").map(|attr| attr.value()).as_deref() {
         Some("required") => false,
         Some("optional") | None => true,
-        Some("prohibited") => return Ok(None),
+        Some("prohibited") => {
+            node.prevent_unvisited_attributes()?;
+            return Ok(None);
+        }
         Some(val) => {
             return Err(XsdError::UnsupportedAttributeValue {
                 name: "use".to_string(),
-- 
2.43.0


From ac0f7430862e512473bf3f231be1c8fc22022b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 33/33] fix: reject mixed="1", which is the same as
 mixed="true"

---
 xsd-internal/src/xsd/parse/complex_type.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 2dc63bd..67fa2f0 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -16,13 +16,15 @@ pub fn parse<'a, 'input>(
 where
     'a: 'input,
 {
-    if node.attribute("mixed").map(|a| a.value()).as_deref() == Some("true") {
-        return Err(XsdError::UnsupportedAttributeValue {
-            name: "mixed".to_string(),
-            value: "true".to_string(),
-            element: node.name().to_string(),
-            range: node.range(),
-        });
+    if let Some(value) = node.attribute("mixed").map(|a| a.value()) {
+        if !matches!(&*value, "false" | "0") {
+            return Err(XsdError::UnsupportedAttributeValue {
+                name: "mixed".to_string(),
+                value: value.to_string(),
+                element: node.name().to_string(),
+                range: node.range(),
+            });
+        }
     }
     node.prevent_unvisited_attributes()?;
 
-- 
2.43.0

