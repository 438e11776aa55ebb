From 96528c22e204c038cbc40048a5fbd6b79cb824c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:10 +0000
Subject: [PATCH 01/17] fix: don't end a generic bound at the tip of a `->`
 arrow

---
 src/parse_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 26388df..70714d3 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -233,7 +233,9 @@ pub(crate) fn consume_stuff_until(
                 bracket_count += 1;
                 false
             }
-            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' && !prev_token_is_dash => {
+            // The `>` of a `->` arrow is neither a closing bracket nor a separator
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' && prev_token_is_dash => false,
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
                 bracket_count -= 1;
                 false
             }
-- 
2.43.0


From 45d2c9bd0dad93b04a5c76ca5c6d670cf22323bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:28 +0000
Subject: [PATCH 02/17] fix: consume the `mut` of a `static mut` declaration

---
 src/parse_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 45af19e..5860b83 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -30,7 +30,9 @@ pub(crate) fn parse_const_or_static(
     let tk_mut = match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "mut" => {
             assert!(!is_const, "`const mut` is not a valid declaration");
-            Some(ident.clone())
+            let tk_mut = Some(ident.clone());
+            tokens.next(); // consume 'mut'
+            tk_mut
         }
         _ => None,
     };
-- 
2.43.0


From 4c91d093d017da51ffb48fb5d37cbf5791739d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:31 +0000
Subject: [PATCH 03/17] fix: accept comparison and shift operators in
 const/static values

---
 src/parse_impl.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 5860b83..9a61842 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -48,11 +48,15 @@ pub(crate) fn parse_const_or_static(
 
     let tk_equals = consume_punct(tokens, '=');
 
-    let value_tokens = consume_stuff_until(
-        tokens,
-        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
-        true,
-    );
+    // Unlike a type, a value can have `<` and `>` as operators, so these aren't matched as brackets.
+    let mut value_tokens = Vec::new();
+    loop {
+        match tokens.peek() {
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => break,
+            Some(_) => value_tokens.push(tokens.next().unwrap()),
+            None => panic!("cannot parse const/static: unexpected end of token stream in value"),
+        }
+    }
     let initializer = if value_tokens.is_empty() {
         None
     } else {
-- 
2.43.0


From a612c4cbabfb96f05baad340bd5856fb57e8c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:33 +0000
Subject: [PATCH 04/17] fix: reject reference patterns in fn params instead of
 dropping the `&`

---
 src/parse_fn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 83a94b7..6efeab4 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -94,6 +94,9 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             })
         } else {
             // TODO - handle non-ident argument names
+            if tk_ref.is_some() || lifetime.is_some() {
+                panic!("cannot parse fn params: reference patterns are not supported");
+            }
             let param_name = parse_any_ident(&mut tokens, "fn param name");
             let tk_colon = parse_punct(&mut tokens, ':', "fn params");
 
-- 
2.43.0


From 7e1148dd5a8256da1408a58005efdcff49ddd22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:02 +0000
Subject: [PATCH 05/17] fix: recognize `self: Type` as a typed fn parameter, as
 documented

---
 src/parse_fn.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 6efeab4..ece5cb7 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -82,7 +82,15 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let tk_ref = consume_punct(&mut tokens, '&');
         let lifetime = consume_lifetime(&mut tokens, false);
         let tk_mut = consume_ident(&mut tokens, "mut");
-        let tk_self = consume_ident(&mut tokens, "self");
+        // `self: Type` is not a receiver, but a typed parameter named `self`
+        let mut lookahead = tokens.clone();
+        let is_typed_self = consume_ident(&mut lookahead, "self").is_some()
+            && consume_punct(&mut lookahead, ':').is_some();
+        let tk_self = if is_typed_self {
+            None
+        } else {
+            consume_ident(&mut tokens, "self")
+        };
 
         let param = if let Some(tk_self) = tk_self {
             FnParam::Receiver(FnReceiverParam {
-- 
2.43.0


From 5ee8d28bedb3a4c4d16963a91ec854340e6d9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:04 +0000
Subject: [PATCH 06/17] fix: reject a visibility marker on impl blocks and
 macros instead of dropping it

---
 src/parse.rs      |  3 +++
 src/parse_impl.rs | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b3677aa..ce933a1 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2,6 +2,7 @@ use crate::error::Error;
 use crate::parse_fn::consume_macro;
 use crate::parse_impl::{
     consume_either_fn_type_const_static_impl, parse_const_or_static, parse_impl, parse_trait,
+    reject_vis_marker,
 };
 use crate::parse_mod::{parse_mod, parse_use_declaration};
 use crate::parse_type::{
@@ -194,6 +195,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             Item::Trait(trait_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
+            reject_vis_marker(vis_marker);
             let impl_decl = parse_impl(tokens, attributes);
             Item::Impl(impl_decl)
         }
@@ -223,6 +225,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
         }
         Some(token) => {
             if let Some(macro_) = consume_macro(tokens, attributes) {
+                reject_vis_marker(vis_marker);
                 Item::Macro(macro_)
             } else {
                 panic!(
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 9a61842..1e03113 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -124,6 +124,16 @@ pub(crate) fn consume_ty_definition(
     })
 }
 
+/// Panics if there is a visibility marker in front of an item that can't have one.
+pub(crate) fn reject_vis_marker(vis_marker: Option<VisMarker>) {
+    if let Some(vis_marker) = vis_marker {
+        panic!(
+            "unsupported visibility marker `{}`",
+            vis_marker.to_token_stream()
+        );
+    }
+}
+
 // TODO could accept a mask, allowing only certain sub-items. This could be made to reject e.g. extern crate in impl blocks.
 pub(crate) fn consume_either_fn_type_const_static_impl(
     tokens: &mut TokenIter,
@@ -156,6 +166,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Trait(trait_decl)
                     }
                     Err(NotFunction::Impl) => {
+                        reject_vis_marker(vis_marker);
                         let impl_decl = parse_impl(tokens, attributes);
                         Item::Impl(impl_decl)
                     }
@@ -174,12 +185,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                 }
             }
             ident => {
-                if let Some(vis_marker) = vis_marker {
-                    panic!(
-                        "unsupported visibility marker `{}`",
-                        vis_marker.to_token_stream()
-                    );
-                }
+                reject_vis_marker(vis_marker);
                 match consume_macro(tokens, attributes.clone()) {
                     Some(macro_) => Item::Macro(macro_),
                     None => panic!("unsupported {} item `{}`", context, ident),
-- 
2.43.0


From 5e4673394dc8139620e43e01d51b2395e1a29f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:06 +0000
Subject: [PATCH 07/17] fix: don't swallow a semicolon after a struct with
 named fields

---
 src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index ce933a1..48f6ffc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -122,7 +122,12 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 where_clause = consume_where_clause(tokens);
             }
 
-            let semicolon = consume_punct(tokens, ';');
+            // A struct with named fields ends at its `}`
+            let semicolon = if matches!(struct_fields, Fields::Named(_)) {
+                None
+            } else {
+                consume_punct(tokens, ';')
+            };
 
             Item::Struct(Struct {
                 attributes,
-- 
2.43.0


From 27d55650db0620500256d96b80ccf97b75dad7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:09 +0000
Subject: [PATCH 08/17] fix: reject tokens after an attribute's group instead
 of dropping them

---
 src/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 70714d3..2e24977 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -147,6 +147,10 @@ fn consume_attributes_with_inner(tokens: &mut TokenIter, expect_inner: bool) ->
             Some(TokenTree::Group(group)) => {
                 let tk_group = GroupSpan::new(group);
                 let value = group.stream().into_iter().collect();
+                attribute_tokens.next();
+                if let Some(token) = attribute_tokens.peek() {
+                    panic!("cannot parse attribute: unexpected token {:?}", token);
+                }
                 AttributeValue::Group(tk_group, value)
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
-- 
2.43.0


From a209061aac9ae498361cb8fafbac51e12fef0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:36 +0000
Subject: [PATCH 09/17] fix: recognize `::` when it is directly followed by
 another punct

---
 src/parse_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 2e24977..fe992f6 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -292,7 +292,7 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     if let Some(TokenTree::Punct(first)) = tokens.next() {
         if first.as_char() == ':' && first.spacing() == Spacing::Joint {
             if let Some(TokenTree::Punct(second)) = tokens.next() {
-                if second.as_char() == ':' && second.spacing() == Spacing::Alone {
+                if second.as_char() == ':' {
                     return Some([first, second]);
                 }
             }
-- 
2.43.0


From 5c0ec19b051e101bff99100490a321a9700d2286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:38 +0000
Subject: [PATCH 10/17] fix: don't split a where predicate at the `::` of its
 left side

---
 src/parse_type.rs    | 11 ++---------
 src/parse_utils.rs   | 29 +++++++++++++++++++++++++++++
 src/types_edition.rs | 11 ++---------
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 642bf95..408c830 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -1,7 +1,7 @@
 use crate::error::Error;
 use crate::parse_utils::{
     consume_colon2, consume_comma, consume_ident, consume_outer_attributes, consume_punct,
-    consume_stuff_until, consume_vis_marker, parse_any_ident, parse_punct,
+    consume_stuff_until, consume_vis_marker, consume_where_left_side, parse_any_ident, parse_punct,
 };
 use crate::types::{
     EnumVariant, EnumVariantValue, Fields, GenericArg, GenericArgList, GenericBound, GenericParam,
@@ -227,14 +227,7 @@ pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause
             _ => (),
         };
 
-        let left_side = consume_stuff_until(
-            tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_where_left_side(tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index fe992f6..868188a 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -303,6 +303,35 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     None
 }
 
+/// Consumes the left side of a where clause predicate, up to the `:` which starts its bound.
+///
+/// The `::` separators of a path are part of the left side.
+pub(crate) fn consume_where_left_side(tokens: &mut TokenIter) -> Vec<TokenTree> {
+    let mut left_side = Vec::new();
+
+    loop {
+        let mut segment = consume_stuff_until(
+            tokens,
+            |token| match token {
+                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
+                _ => false,
+            },
+            false,
+        );
+        left_side.append(&mut segment);
+
+        match consume_colon2(tokens) {
+            Some([first, second]) => {
+                left_side.push(first.into());
+                left_side.push(second.into());
+            }
+            None => break,
+        }
+    }
+
+    left_side
+}
+
 /// Tries to parse a path expressions; returns `None` if not matching.
 pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     let mut segments = vec![];
diff --git a/src/types_edition.rs b/src/types_edition.rs
index db7a2a2..be3b251 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -1,4 +1,4 @@
-use crate::parse_utils::{consume_path, tokens_from_slice};
+use crate::parse_utils::{consume_path, consume_where_left_side, tokens_from_slice};
 use crate::types::{
     Attribute, AttributeValue, Constant, Enum, EnumVariant, EnumVariantValue, ExternBlock,
     ExternCrate, Fields, FnQualifiers, Function, GenericArg, GenericArgList, GenericBound,
@@ -763,14 +763,7 @@ impl WhereClausePredicate {
     pub fn parse(tokens: TokenStream) -> Self {
         let mut tokens = tokens.into_iter().peekable();
 
-        let left_side = crate::parse_utils::consume_stuff_until(
-            &mut tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_where_left_side(&mut tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
-- 
2.43.0


From f8042d9a2e69b0cc697b421c45f7d5f9cb787a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:41 +0000
Subject: [PATCH 11/17] fix: tell a visibility marker from the start of a tuple
 field's type

---
 src/parse_utils.rs | 49 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 868188a..4202756 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -1,6 +1,6 @@
 use crate::parse_type::consume_generic_args;
 use crate::types::{Attribute, AttributeValue, GroupSpan, Path, PathSegment, VisMarker};
-use proc_macro2::{Delimiter, Ident, Punct, Spacing, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, TokenStream, TokenTree};
 use std::iter::Peekable;
 
 pub(crate) type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -195,26 +195,53 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 .next()
                 .expect("cannot parse declaration: expected token after 'pub'");
             match tokens.peek() {
-                Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
-                    Some(VisMarker {
-                        tk_token1: pub_token,
-                        tk_token2: Some(tokens.next().unwrap()),
-                    })
-                }
+                Some(TokenTree::Group(group)) if is_vis_restriction(group) => Some(VisMarker {
+                    tk_token1: pub_token,
+                    tk_token2: Some(tokens.next().unwrap()),
+                }),
                 _ => Some(VisMarker {
                     tk_token1: pub_token,
                     tk_token2: None,
                 }),
             }
         }
-        Some(TokenTree::Ident(ident)) if ident == "crate" => Some(VisMarker {
-            tk_token1: tokens.next().unwrap(),
-            tk_token2: None,
-        }),
+        Some(TokenTree::Ident(ident)) if ident == "crate" => {
+            // `crate::` is the start of a path, not a visibility marker
+            let mut lookahead = tokens.clone();
+            lookahead.next();
+            if consume_colon2(&mut lookahead).is_some() {
+                return None;
+            }
+
+            Some(VisMarker {
+                tk_token1: tokens.next().unwrap(),
+                tk_token2: None,
+            })
+        }
         _ => None,
     }
 }
 
+/// Recognize the group of `pub(crate)`, `pub(self)`, `pub(super)` and `pub(in path)`.
+///
+/// Any other group after `pub` is not part of the visibility, eg in `struct Foo(pub (A, B));`.
+fn is_vis_restriction(group: &Group) -> bool {
+    if group.delimiter() != Delimiter::Parenthesis {
+        return false;
+    }
+
+    let mut tokens = group.stream().into_iter();
+    match tokens.next() {
+        Some(TokenTree::Ident(ident)) if ident == "in" => true,
+        Some(TokenTree::Ident(ident))
+            if ident == "crate" || ident == "self" || ident == "super" =>
+        {
+            tokens.next().is_none()
+        }
+        _ => false,
+    }
+}
+
 // Consumes tokens until a separator is reached *unless* the
 // separator in between angle brackets
 // eg consume_stuff_until(..., |token| token == ',') will consume all
-- 
2.43.0


From 0dc3a4a4843e2df751f7844d651b217cca878f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:04 +0000
Subject: [PATCH 12/17] fix: keep the comma given to Punctuated::insert

---
 src/punctuated.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/punctuated.rs b/src/punctuated.rs
index 476f568..066287f 100644
--- a/src/punctuated.rs
+++ b/src/punctuated.rs
@@ -44,8 +44,8 @@ impl<T> Punctuated<T> {
         if index == self.len() {
             self.push(value, comma);
         } else {
-            self.inner
-                .insert(index, (value, Punct::new(',', Spacing::Alone)));
+            let comma = comma.unwrap_or_else(|| Punct::new(',', Spacing::Alone));
+            self.inner.insert(index, (value, comma));
         }
     }
 
-- 
2.43.0


From 10d03c878b622a3365318786c05a4bc8a9393455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:06 +0000
Subject: [PATCH 13/17] fix: return the enum discriminant error from inside
 modules instead of panicking

---
 src/parse.rs      |  4 ++--
 src/parse_impl.rs | 20 +++++++++++---------
 src/parse_mod.rs  | 11 +++++------
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 48f6ffc..70d03fb 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -192,7 +192,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             })
         }
         Some(TokenTree::Ident(keyword)) if keyword == "mod" => {
-            let mod_decl = parse_mod(tokens, attributes, vis_marker);
+            let mod_decl = parse_mod(tokens, attributes, vis_marker)?;
             Item::Module(mod_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "trait" => {
@@ -226,7 +226,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 attributes,
                 vis_marker,
                 "fn/type/const/static/extern/extern crate",
-            )
+            )?
         }
         Some(token) => {
             if let Some(macro_) = consume_macro(tokens, attributes) {
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 1e03113..e67e155 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::parse_extern::{parse_extern_block, parse_extern_crate};
 use crate::parse_fn::{consume_fn, consume_macro, NotFunction};
 use crate::parse_mod::parse_mod;
@@ -140,8 +141,8 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
     attributes: Vec<Attribute>,
     vis_marker: Option<VisMarker>,
     context: &str, // for panic
-) -> Item {
-    if let Some(TokenTree::Ident(ident)) = tokens.peek() {
+) -> Result<Item, Error> {
+    let item = if let Some(TokenTree::Ident(ident)) = tokens.peek() {
         let keyword = ident.to_string();
         match keyword.as_str() {
             "type" => {
@@ -171,7 +172,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Impl(impl_decl)
                     }
                     Err(NotFunction::Mod) => {
-                        let mod_decl = parse_mod(tokens, attributes, vis_marker);
+                        let mod_decl = parse_mod(tokens, attributes, vis_marker)?;
                         Item::Module(mod_decl)
                     }
                     Err(NotFunction::ExternBlock) => {
@@ -194,7 +195,8 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
         }
     } else {
         panic!("unsupported {} element: {:?}", context, tokens.peek())
-    }
+    };
+    Ok(item)
 }
 
 pub(crate) fn parse_impl_body(
@@ -218,17 +220,17 @@ pub(crate) fn parse_impl_body(
             vis_marker,
             "impl",
         ) {
-            Item::Function(function) => ImplMember::AssocFunction(function),
-            Item::Constant(const_) if const_.tk_const_or_static == "const" => {
+            Ok(Item::Function(function)) => ImplMember::AssocFunction(function),
+            Ok(Item::Constant(const_)) if const_.tk_const_or_static == "const" => {
                 // `const` can appear in impl/trait blocks.
                 ImplMember::AssocConstant(const_)
             }
-            Item::Constant(static_) if allow_static => {
+            Ok(Item::Constant(static_)) if allow_static => {
                 // `static` can appear in `extern "abi" {}` blocks.
                 ImplMember::AssocConstant(static_)
             }
-            Item::TypeAlias(ty_def) => ImplMember::AssocType(ty_def),
-            Item::Macro(macro_) => ImplMember::Macro(macro_),
+            Ok(Item::TypeAlias(ty_def)) => ImplMember::AssocType(ty_def),
+            Ok(Item::Macro(macro_)) => ImplMember::Macro(macro_),
             _ => panic!("unsupported impl item `{:?}`", tokens.peek()),
         };
 
diff --git a/src/parse_mod.rs b/src/parse_mod.rs
index a121b41..769b526 100644
--- a/src/parse_mod.rs
+++ b/src/parse_mod.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::parse::consume_item;
 use crate::parse_type::consume_item_name;
 use crate::parse_utils::{
@@ -13,7 +14,7 @@ pub(crate) fn parse_mod(
     tokens: &mut Peekable<IntoIter>,
     attributes: Vec<Attribute>,
     vis_marker: Option<VisMarker>,
-) -> Module {
+) -> Result<Module, Error> {
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_mod = parse_ident(tokens, "mod", "module declaration");
     let module_name = consume_item_name(tokens);
@@ -41,9 +42,7 @@ pub(crate) fn parse_mod(
             if tokens.peek().is_none() {
                 break;
             }
-            let item =
-                consume_item(&mut tokens).unwrap_or_else(|e| panic!("declaration in mod: {}", e));
-            mod_members.push(item);
+            mod_members.push(consume_item(&mut tokens)?);
         }
         members = mod_members;
     } else {
@@ -52,7 +51,7 @@ pub(crate) fn parse_mod(
         members = vec![];
     }
 
-    Module {
+    Ok(Module {
         attributes,
         vis_marker,
         tk_unsafe,
@@ -62,7 +61,7 @@ pub(crate) fn parse_mod(
         tk_braces,
         inner_attributes,
         members,
-    }
+    })
 }
 
 pub(crate) fn parse_use_declaration(
-- 
2.43.0


From 456cf2e29f914d1d2231679998b94cf21b9d4c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:31 +0000
Subject: [PATCH 14/17] fix: as_path returns None for a malformed generic
 argument list

---
 src/parse_type.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 408c830..ad9c5b4 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -192,17 +192,23 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
             |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
             false,
         );
-        let comma = consume_comma(tokens);
 
         // Exit when end reached
         if arg_tokens.is_empty() {
             break;
         }
 
+        let comma = consume_comma(tokens);
         generic_args.push(parse_generic_arg(arg_tokens), comma);
     }
 
-    let tk_r_bracket = parse_punct(tokens, '>', "end of generic argument list");
+    let tk_r_bracket = match consume_punct(tokens, '>') {
+        Some(tk_r_bracket) => tk_r_bracket,
+        None => {
+            *tokens = before_start;
+            return None;
+        }
+    };
 
     Some(GenericArgList {
         tk_turbofish_colons,
-- 
2.43.0


From 77098916791576fd6999c71d3662a6b7932d6e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:33 +0000
Subject: [PATCH 15/17] fix: as_path accepts a generic argument which only
 starts with a lifetime

---
 src/parse_fn.rs   |  2 +-
 src/parse_type.rs | 27 +++++++++++----------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index ece5cb7..1965fb9 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -80,7 +80,7 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let attributes = consume_outer_attributes(&mut tokens);
 
         let tk_ref = consume_punct(&mut tokens, '&');
-        let lifetime = consume_lifetime(&mut tokens, false);
+        let lifetime = consume_lifetime(&mut tokens);
         let tk_mut = consume_ident(&mut tokens, "mut");
         // `self: Type` is not a receiver, but a typed parameter named `self`
         let mut lookahead = tokens.clone();
diff --git a/src/parse_type.rs b/src/parse_type.rs
index ad9c5b4..6efdddc 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -96,9 +96,14 @@ fn parse_generic_arg(tokens: Vec<TokenTree>) -> GenericArg {
     // Note: method not called if tokens is empty
     let mut tokens = tokens.into_iter().peekable();
 
-    if let Some(lifetime) = consume_lifetime(&mut tokens, true) {
-        return GenericArg::Lifetime { lifetime };
+    // A lifetime with more tokens after it is the start of a type, eg in `Box<'a + Trait>`
+    let before_lifetime = tokens.clone();
+    if let Some(lifetime) = consume_lifetime(&mut tokens) {
+        if tokens.peek().is_none() {
+            return GenericArg::Lifetime { lifetime };
+        }
     }
+    tokens = before_lifetime;
 
     // Then, try parsing Item = ...
     // (there is at least 1 token, so unwrap is safe)
@@ -128,7 +133,6 @@ fn parse_generic_arg(tokens: Vec<TokenTree>) -> GenericArg {
 
 pub(crate) fn consume_lifetime(
     tokens: &mut Peekable<impl Iterator<Item = TokenTree>>,
-    expect_end: bool,
 ) -> Option<Lifetime> {
     // Try parsing 'lifetime
     let tk_apostrophe = match tokens.peek() {
@@ -142,19 +146,10 @@ pub(crate) fn consume_lifetime(
 
     // after the ', there must be a single identifier
     match tokens.next() {
-        Some(TokenTree::Ident(name)) => {
-            if expect_end {
-                assert!(
-                    tokens.next().is_none(),
-                    "cannot parse lifetime generic argument"
-                );
-            }
-
-            Some(Lifetime {
-                tk_apostrophe,
-                name,
-            })
-        }
+        Some(TokenTree::Ident(name)) => Some(Lifetime {
+            tk_apostrophe,
+            name,
+        }),
         Some(other) => {
             panic!(
                 "expected identifier after ' lifetime symbol, got {:?}",
-- 
2.43.0


From 2b94532000006b641c08faf148ef4dac1e25db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:16 +0000
Subject: [PATCH 16/17] fix: reject a missing comma between enum variants or fn
 params instead of inserting one

---
 src/parse_fn.rs   | 4 ++++
 src/parse_type.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 1965fb9..ea468ee 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -121,6 +121,10 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let comma = consume_comma(&mut tokens);
 
         fields.push(param, comma);
+
+        if fields.skip_last && tokens.peek().is_some() {
+            panic!("cannot parse fn params: expected ',' between params");
+        }
     }
 
     fields
diff --git a/src/parse_type.rs b/src/parse_type.rs
index 6efdddc..cb67603 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -432,6 +432,10 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
             },
             comma,
         );
+
+        if variants.skip_last && tokens.peek().is_some() {
+            panic!("cannot parse enum: expected ',' between variants");
+        }
     }
 
     Ok(variants)
-- 
2.43.0


From 81a91fb0bb0c4a835401c941600eb63c90ffbbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:57 +0000
Subject: [PATCH 17/17] fix: as_path returns None for `impl ::A`, `dyn ::A` and
 `for<'a> ::A`

---
 src/parse_utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 4202756..bea46cb 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -363,6 +363,13 @@ pub(crate) fn consume_where_left_side(tokens: &mut TokenIter) -> Vec<TokenTree>
 pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     let mut segments = vec![];
 
+    // `impl ::Trait`, `dyn ::Trait` and `for<'a> ::Trait` only look like paths
+    if let Some(TokenTree::Ident(ident)) = tokens.peek() {
+        if ident == "impl" || ident == "dyn" || ident == "for" {
+            return None;
+        }
+    }
+
     // Leading `::` is optional
     let mut tk_separator_colons = consume_colon2(&mut tokens);
 
-- 
2.43.0

