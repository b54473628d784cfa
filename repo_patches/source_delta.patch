From 2da74a1357c450a389b93ceb15c4b60ae4b41e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:41 +0000
Subject: [PATCH 01/19] fix: consume the `mut` token of `static mut`
 declarations

The token was only peeked at, so `static mut X: i32 = 7;` (an example in
the documentation of `Constant`) used `mut` as the name and panicked.
---
 src/parse_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 45af19e..7bbf6a9 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -30,7 +30,9 @@ pub(crate) fn parse_const_or_static(
     let tk_mut = match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "mut" => {
             assert!(!is_const, "`const mut` is not a valid declaration");
-            Some(ident.clone())
+            let tk_mut = ident.clone();
+            tokens.next();
+            Some(tk_mut)
         }
         _ => None,
     };
-- 
2.43.0


From 795e0b6da72fe72c010c7ba3495f9bfb42cebef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:41 +0000
Subject: [PATCH 02/19] fix: don't end a generic bound at the `>` of a `->`
 arrow

`fn f<F: Fn(A) -> B>(f: F) {}` ended the parameter list at the arrow's
`>` and then panicked on `B`.
---
 src/parse_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 26388df..737e963 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -233,8 +233,10 @@ pub(crate) fn consume_stuff_until(
                 bracket_count += 1;
                 false
             }
-            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' && !prev_token_is_dash => {
-                bracket_count -= 1;
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
+                if !prev_token_is_dash {
+                    bracket_count -= 1;
+                }
                 false
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => true,
-- 
2.43.0


From 41b582a49a1f63de9bf9bc24fc23d4456e343be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:41 +0000
Subject: [PATCH 03/19] fix: accept comparison and shift operators in
 const/static initializers

`const X: u8 = 1 << 2;` panicked, because the `<` and `>` of the
initializer were counted as angle brackets.
---
 src/parse_impl.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 7bbf6a9..500c338 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -48,11 +48,14 @@ pub(crate) fn parse_const_or_static(
 
     let tk_equals = consume_punct(tokens, '=');
 
-    let value_tokens = consume_stuff_until(
-        tokens,
-        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
-        true,
-    );
+    // The initializer is an expression, where `<` and `>` can be operators: don't
+    // treat them as brackets.
+    let mut value_tokens = Vec::new();
+    while let Some(token) =
+        tokens.next_if(|tt| !matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'))
+    {
+        value_tokens.push(token);
+    }
     let initializer = if value_tokens.is_empty() {
         None
     } else {
-- 
2.43.0


From 3056078e43cdafdfbed877c87dd1d97f67b773c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 04/19] fix: parse `self: Type` receivers as typed parameters

The documentation of `FnReceiverParam` says that parameters of the form
`self: Pin<&mut Self>` are recognized as `FnTypedParam`, but they panicked.
---
 src/parse_fn.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 83a94b7..fc1bf88 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -84,17 +84,23 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let tk_mut = consume_ident(&mut tokens, "mut");
         let tk_self = consume_ident(&mut tokens, "self");
 
-        let param = if let Some(tk_self) = tk_self {
+        let has_type = matches!(
+            tokens.peek(),
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ':'
+        );
+
+        let param = if let (Some(tk_self), false) = (&tk_self, has_type) {
             FnParam::Receiver(FnReceiverParam {
                 attributes,
                 tk_ref,
                 lifetime,
                 tk_mut,
-                tk_self,
+                tk_self: tk_self.clone(),
             })
         } else {
             // TODO - handle non-ident argument names
-            let param_name = parse_any_ident(&mut tokens, "fn param name");
+            let param_name =
+                tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));
             let tk_colon = parse_punct(&mut tokens, ':', "fn params");
 
             let ty_tokens = consume_field_type(&mut tokens);
-- 
2.43.0


From ea84e334fc8a7dfb5db03eec991bebdfe8274621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 05/19] fix: don't silently drop the `&` of a reference pattern
 in fn params

`fn f(&a: &u8) {}` was accepted and turned into `fn f(a: &u8) {}`, which
means something else. Refuse it, like every other pattern.
---
 src/parse_fn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index fc1bf88..e910c74 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -99,6 +99,9 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             })
         } else {
             // TODO - handle non-ident argument names
+            if tk_ref.is_some() || lifetime.is_some() {
+                panic!("cannot parse fn params: reference patterns are not supported");
+            }
             let param_name =
                 tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));
             let tk_colon = parse_punct(&mut tokens, ':', "fn params");
-- 
2.43.0


From 47290f95bb7994f68a807849f95617ffa12c3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:02 +0000
Subject: [PATCH 06/19] fix: recognize `::` when it's directly followed by
 punctuation

In `Vec::<u8>` the second colon is joint with `<`, both in rustc's tokens
and in those that proc_macro2 lexes, so `TypeExpr::as_path()` returned
None for any type with a turbofish.
---
 src/parse_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 737e963..537c0ff 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -288,7 +288,8 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     if let Some(TokenTree::Punct(first)) = tokens.next() {
         if first.as_char() == ':' && first.spacing() == Spacing::Joint {
             if let Some(TokenTree::Punct(second)) = tokens.next() {
-                if second.as_char() == ':' && second.spacing() == Spacing::Alone {
+                // Not necessarily followed by a space: the `<` of `::<` makes this joint.
+                if second.as_char() == ':' {
                     return Some([first, second]);
                 }
             }
-- 
2.43.0


From 11ba831a5fda32152d3df803fc627b07b80931a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 07/19] fix: don't split where-clause predicates at a `::` path
 separator

`where T::Item: Clone` was parsed as the type `T` with the bound
`:Item: Clone`.
---
 src/parse_type.rs    | 14 ++++----------
 src/parse_utils.rs   | 23 +++++++++++++++++++++++
 src/types_edition.rs |  9 +--------
 3 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 642bf95..f24fd05 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -1,7 +1,8 @@
 use crate::error::Error;
 use crate::parse_utils::{
-    consume_colon2, consume_comma, consume_ident, consume_outer_attributes, consume_punct,
-    consume_stuff_until, consume_vis_marker, parse_any_ident, parse_punct,
+    consume_colon2, consume_comma, consume_ident, consume_outer_attributes,
+    consume_predicate_left_side, consume_punct, consume_stuff_until, consume_vis_marker,
+    parse_any_ident, parse_punct,
 };
 use crate::types::{
     EnumVariant, EnumVariantValue, Fields, GenericArg, GenericArgList, GenericBound, GenericParam,
@@ -227,14 +228,7 @@ pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause
             _ => (),
         };
 
-        let left_side = consume_stuff_until(
-            tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_predicate_left_side(tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 537c0ff..60efb12 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -300,6 +300,29 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     None
 }
 
+/// Consume everything that comes before the `:` of a where-clause predicate.
+///
+/// The colons of a path separator, as in `T::Item: Clone`, are part of the left side.
+pub(crate) fn consume_predicate_left_side(tokens: &mut TokenIter) -> Vec<TokenTree> {
+    let mut left_side = Vec::new();
+
+    loop {
+        left_side.extend(consume_stuff_until(
+            tokens,
+            |token| match token {
+                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
+                _ => false,
+            },
+            false,
+        ));
+
+        match consume_colon2(tokens) {
+            Some(colons) => left_side.extend(colons.map(TokenTree::Punct)),
+            None => return left_side,
+        }
+    }
+}
+
 /// Tries to parse a path expressions; returns `None` if not matching.
 pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     let mut segments = vec![];
diff --git a/src/types_edition.rs b/src/types_edition.rs
index db7a2a2..881e169 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -763,14 +763,7 @@ impl WhereClausePredicate {
     pub fn parse(tokens: TokenStream) -> Self {
         let mut tokens = tokens.into_iter().peekable();
 
-        let left_side = crate::parse_utils::consume_stuff_until(
-            &mut tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = crate::parse_utils::consume_predicate_left_side(&mut tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
-- 
2.43.0


From 3594a1a7761dbe90c6df1b3a09feaa5724cdbf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 08/19] fix: don't take the `crate` of a `crate::` path for a
 visibility

`struct S(crate::Foo);` was parsed as a field with the visibility `crate`
and the type `::Foo`.
---
 src/parse_utils.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 60efb12..74e41a8 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -203,10 +203,19 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 }),
             }
         }
-        Some(TokenTree::Ident(ident)) if ident == "crate" => Some(VisMarker {
-            tk_token1: tokens.next().unwrap(),
-            tk_token2: None,
-        }),
+        Some(TokenTree::Ident(ident)) if ident == "crate" => {
+            let mut after_crate = tokens.clone();
+            let pub_token = after_crate.next().unwrap();
+            if consume_colon2(&mut after_crate).is_some() {
+                // `crate::path::to::Type` is a type, not a visibility.
+                return None;
+            }
+            *tokens = after_crate;
+            Some(VisMarker {
+                tk_token1: pub_token,
+                tk_token2: None,
+            })
+        }
         _ => None,
     }
 }
-- 
2.43.0


From df5eafe8c002cd6c99605cbddc1b008d489563b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 09/19] fix: don't take a tuple type after `pub` for a
 visibility restriction

`struct S(pub (A, B));` panicked, because `(A, B)` was parsed as if it was
the `(crate)` of `pub(crate)`.
---
 src/parse_utils.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 74e41a8..792fb6f 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -184,6 +184,21 @@ pub(crate) fn consume_inner_attributes(tokens: &mut TokenIter) -> Vec<Attribute>
     consume_attributes_with_inner(tokens, true)
 }
 
+/// True for the inside of `pub(crate)`, `pub(in path)`, etc; false if the parentheses
+/// are something else, eg a tuple type in `struct MyStruct(pub (A, B));`
+fn is_vis_restriction(tokens: TokenStream) -> bool {
+    let mut tokens = tokens.into_iter();
+    match tokens.next() {
+        Some(TokenTree::Ident(ident)) if ident == "in" => true,
+        Some(TokenTree::Ident(ident))
+            if ident == "crate" || ident == "self" || ident == "super" =>
+        {
+            tokens.next().is_none()
+        }
+        _ => false,
+    }
+}
+
 pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
     match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "pub" => {
@@ -191,7 +206,10 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 .next()
                 .expect("cannot parse declaration: expected token after 'pub'");
             match tokens.peek() {
-                Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
+                Some(TokenTree::Group(group))
+                    if group.delimiter() == Delimiter::Parenthesis
+                        && is_vis_restriction(group.stream()) =>
+                {
                     Some(VisMarker {
                         tk_token1: pub_token,
                         tk_token2: Some(tokens.next().unwrap()),
-- 
2.43.0


From c5fb76ca9baa315a20c266ccc8832516ad48aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 10/19] fix: accept item macro invocations with square brackets

`my_macro![a, b];` is as valid as `my_macro!(a, b);`, but panicked.
---
 src/parse_fn.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index e910c74..4c652b8 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -284,18 +284,19 @@ fn consume_macro_inner(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Op
     let tk_bang = consume_punct(tokens, '!')?;
     let tk_declared_name = consume_any_ident(tokens);
 
-    let (is_paren, macro_body) = match tokens.next().expect("unexpected end of macro") {
-        TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis => (true, group),
-        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => (false, group),
-        _ => panic!("cannot parse macro; missing `{{}}` or `()` group"),
+    let (is_brace, macro_body) = match tokens.next().expect("unexpected end of macro") {
+        TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis => (false, group),
+        TokenTree::Group(group) if group.delimiter() == Delimiter::Bracket => (false, group),
+        TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => (true, group),
+        _ => panic!("cannot parse macro; missing `{{}}`, `()` or `[]` group"),
     };
 
     let inner_tokens = macro_body.stream().into_iter().collect();
 
-    let tk_semicolon = if is_paren {
-        Some(parse_punct(tokens, ';', "macro invocation semicolon"))
-    } else {
+    let tk_semicolon = if is_brace {
         None
+    } else {
+        Some(parse_punct(tokens, ';', "macro invocation semicolon"))
     };
 
     Some(Macro {
-- 
2.43.0


From de986b79c6261062e3cf8b3ada51f8d39ed116f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 11/19] fix: refuse a visibility in front of impl blocks and
 macros

It was silently dropped at the top level and in modules: `pub impl A {}`
became `impl A {}`. Macros in impl blocks already refused it.
---
 src/parse.rs      |  5 ++++-
 src/parse_impl.rs | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b3677aa..344e232 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1,7 +1,8 @@
 use crate::error::Error;
 use crate::parse_fn::consume_macro;
 use crate::parse_impl::{
-    consume_either_fn_type_const_static_impl, parse_const_or_static, parse_impl, parse_trait,
+    assert_no_vis_marker, consume_either_fn_type_const_static_impl, parse_const_or_static,
+    parse_impl, parse_trait,
 };
 use crate::parse_mod::{parse_mod, parse_use_declaration};
 use crate::parse_type::{
@@ -194,6 +195,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             Item::Trait(trait_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
+            assert_no_vis_marker(vis_marker);
             let impl_decl = parse_impl(tokens, attributes);
             Item::Impl(impl_decl)
         }
@@ -223,6 +225,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
         }
         Some(token) => {
             if let Some(macro_) = consume_macro(tokens, attributes) {
+                assert_no_vis_marker(vis_marker);
                 Item::Macro(macro_)
             } else {
                 panic!(
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 500c338..a39d642 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -123,6 +123,16 @@ pub(crate) fn consume_ty_definition(
     })
 }
 
+/// Panics if there's a visibility marker in front of an item that can't have any.
+pub(crate) fn assert_no_vis_marker(vis_marker: Option<VisMarker>) {
+    if let Some(vis_marker) = vis_marker {
+        panic!(
+            "unsupported visibility marker `{}`",
+            vis_marker.to_token_stream()
+        );
+    }
+}
+
 // TODO could accept a mask, allowing only certain sub-items. This could be made to reject e.g. extern crate in impl blocks.
 pub(crate) fn consume_either_fn_type_const_static_impl(
     tokens: &mut TokenIter,
@@ -155,6 +165,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Trait(trait_decl)
                     }
                     Err(NotFunction::Impl) => {
+                        assert_no_vis_marker(vis_marker);
                         let impl_decl = parse_impl(tokens, attributes);
                         Item::Impl(impl_decl)
                     }
@@ -173,12 +184,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                 }
             }
             ident => {
-                if let Some(vis_marker) = vis_marker {
-                    panic!(
-                        "unsupported visibility marker `{}`",
-                        vis_marker.to_token_stream()
-                    );
-                }
+                assert_no_vis_marker(vis_marker);
                 match consume_macro(tokens, attributes.clone()) {
                     Some(macro_) => Item::Macro(macro_),
                     None => panic!("unsupported {} item `{}`", context, ident),
-- 
2.43.0


From 6fcf9a70a531b0bc5a45d30f006067642b6d078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 12/19] fix: don't swallow a semicolon that follows a braced
 struct

It isn't part of the declaration, and was dropped when the struct was
quoted: `parse_item` now reports it as a trailing token.
---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 344e232..a2e2a7f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -122,7 +122,11 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 where_clause = consume_where_clause(tokens);
             }
 
-            let semicolon = consume_punct(tokens, ';');
+            let semicolon = if matches!(struct_fields, Fields::Named(_)) {
+                None
+            } else {
+                consume_punct(tokens, ';')
+            };
 
             Item::Struct(Struct {
                 attributes,
-- 
2.43.0


From a982c772d7de79771759ade43cc89e35537e600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 13/19] fix: refuse tokens after the group of an attribute

`#[hello(a) b]` isn't valid, but the `b` was silently dropped.
---
 src/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 792fb6f..ec80df6 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -147,6 +147,10 @@ fn consume_attributes_with_inner(tokens: &mut TokenIter, expect_inner: bool) ->
             Some(TokenTree::Group(group)) => {
                 let tk_group = GroupSpan::new(group);
                 let value = group.stream().into_iter().collect();
+                attribute_tokens.next();
+                if let Some(token) = attribute_tokens.peek() {
+                    panic!("cannot parse attribute: expected `]`, found {:?}", token);
+                }
                 AttributeValue::Group(tk_group, value)
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
-- 
2.43.0


From f4bbfc351c57286782a3dea76617d67665a25912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:54 +0000
Subject: [PATCH 14/19] fix: refuse enum variants and fn params without a comma
 between them

`enum E { A(X) B(Y) }` and `fn f(self b: u8) {}` were accepted, and a comma
that wasn't in the source was added when they were quoted.
---
 src/parse_fn.rs    |  5 +++--
 src/parse_type.rs  |  7 ++++---
 src/parse_utils.rs | 10 ++++++++++
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 4c652b8..b1f9e33 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -3,8 +3,8 @@ use crate::parse_type::{
     consume_where_clause,
 };
 use crate::parse_utils::{
-    consume_any_ident, consume_comma, consume_ident, consume_outer_attributes, consume_punct,
-    consume_stuff_until, parse_any_ident, parse_punct,
+    assert_list_separator, consume_any_ident, consume_comma, consume_ident,
+    consume_outer_attributes, consume_punct, consume_stuff_until, parse_any_ident, parse_punct,
 };
 use crate::punctuated::Punctuated;
 use crate::types::{
@@ -117,6 +117,7 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         };
 
         let comma = consume_comma(&mut tokens);
+        assert_list_separator(&mut tokens, &comma, "fn param");
 
         fields.push(param, comma);
     }
diff --git a/src/parse_type.rs b/src/parse_type.rs
index f24fd05..bced12d 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -1,6 +1,6 @@
 use crate::error::Error;
 use crate::parse_utils::{
-    consume_colon2, consume_comma, consume_ident, consume_outer_attributes,
+    assert_list_separator, consume_colon2, consume_comma, consume_ident, consume_outer_attributes,
     consume_predicate_left_side, consume_punct, consume_stuff_until, consume_vis_marker,
     parse_any_ident, parse_punct,
 };
@@ -418,9 +418,10 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
             token => panic!("cannot parse enum variant: unexpected token {:?}", token),
         };
 
-        let enum_discriminant = consume_enum_discriminant(&mut tokens);
+        let enum_discriminant = consume_enum_discriminant(&mut tokens)?;
 
         let comma = consume_comma(&mut tokens);
+        assert_list_separator(&mut tokens, &comma, "enum variant");
 
         variants.push(
             EnumVariant {
@@ -428,7 +429,7 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
                 vis_marker,
                 name: variant_name,
                 fields: contents,
-                value: enum_discriminant?,
+                value: enum_discriminant,
             },
             comma,
         );
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index ec80df6..b4f0e9d 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -309,6 +309,16 @@ pub(crate) fn consume_comma(tokens: &mut TokenIter) -> Option<Punct> {
     consume_punct(tokens, ',')
 }
 
+/// Panics if there are tokens left in a list after an element without a comma.
+pub(crate) fn assert_list_separator(tokens: &mut TokenIter, comma: &Option<Punct>, context: &str) {
+    match tokens.peek() {
+        Some(token) if comma.is_none() => {
+            panic!("expected `,` after {}, found {:?}", context, token)
+        }
+        _ => (),
+    }
+}
+
 /// Parse `::`, as in path separator or turbofish.
 ///
 /// Does not advance `tokens` if the double colon is not found.
-- 
2.43.0


From 8f3d5a6cff78503e1de3e987e4992c5b6ce9ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:30 +0000
Subject: [PATCH 15/19] fix: don't report `dyn ::Trait` and `impl ::Trait` as
 paths

---
 src/parse_utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index b4f0e9d..4e69563 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -374,6 +374,12 @@ pub(crate) fn consume_path(mut tokens: TokenIter) -> Option<Path> {
     loop {
         // path elem
         let ident = match tokens.next() {
+            // `dyn ::Trait` and `impl ::Trait` are not paths
+            Some(TokenTree::Ident(ident))
+                if segments.is_empty() && (ident == "dyn" || ident == "impl") =>
+            {
+                return None
+            }
             Some(TokenTree::Ident(ident)) => ident.clone(),
             _ => return None, // end of tokens OR not a path
         };
-- 
2.43.0


From 5b8b7bc292cfe3b5f14a91cc30b78de967314d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:33 +0000
Subject: [PATCH 16/19] fix: don't clone the remaining tokens for every
 where-clause predicate

---
 src/parse_type.rs    | 14 ++------------
 src/parse_utils.rs   | 20 +++++++++++++++-----
 src/types_edition.rs | 14 ++------------
 3 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index bced12d..ad92612 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -228,18 +228,8 @@ pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause
             _ => (),
         };
 
-        let left_side = consume_predicate_left_side(tokens);
-
-        let colon = match tokens.next() {
-            Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
-            Some(token) => panic!(
-                "cannot parse where clause: expected ':', found token {:?}",
-                token
-            ),
-            None => {
-                panic!("cannot parse where clause: expected colon, found end of stream")
-            }
-        };
+        let (left_side, colon) = consume_predicate_left_side(tokens);
+        let colon = colon.expect("cannot parse where clause: expected a colon");
         let bound_tokens = consume_stuff_until(
             tokens,
             |token| match token {
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 4e69563..0b5bc3d 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -341,10 +341,13 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     None
 }
 
-/// Consume everything that comes before the `:` of a where-clause predicate.
+/// Consume everything up to and including the `:` of a where-clause predicate.
 ///
 /// The colons of a path separator, as in `T::Item: Clone`, are part of the left side.
-pub(crate) fn consume_predicate_left_side(tokens: &mut TokenIter) -> Vec<TokenTree> {
+/// Returns None instead of the colon if there isn't one.
+pub(crate) fn consume_predicate_left_side(
+    tokens: &mut TokenIter,
+) -> (Vec<TokenTree>, Option<Punct>) {
     let mut left_side = Vec::new();
 
     loop {
@@ -357,10 +360,17 @@ pub(crate) fn consume_predicate_left_side(tokens: &mut TokenIter) -> Vec<TokenTr
             false,
         ));
 
-        match consume_colon2(tokens) {
-            Some(colons) => left_side.extend(colons.map(TokenTree::Punct)),
-            None => return left_side,
+        let Some(colon) = consume_punct(tokens, ':') else {
+            return (left_side, None);
+        };
+        if colon.spacing() != Spacing::Joint {
+            return (left_side, Some(colon));
         }
+        let Some(second_colon) = consume_punct(tokens, ':') else {
+            return (left_side, Some(colon));
+        };
+        left_side.push(colon.into());
+        left_side.push(second_colon.into());
     }
 }
 
diff --git a/src/types_edition.rs b/src/types_edition.rs
index 881e169..c4baacb 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -763,18 +763,8 @@ impl WhereClausePredicate {
     pub fn parse(tokens: TokenStream) -> Self {
         let mut tokens = tokens.into_iter().peekable();
 
-        let left_side = crate::parse_utils::consume_predicate_left_side(&mut tokens);
-
-        let colon = match tokens.next() {
-            Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
-            Some(token) => panic!(
-                "cannot parse where-clause item: expected ':', found token {:?}",
-                token
-            ),
-            None => {
-                panic!("cannot parse where-clause item: expected colon, found end of stream")
-            }
-        };
+        let (left_side, colon) = crate::parse_utils::consume_predicate_left_side(&mut tokens);
+        let colon = colon.expect("cannot parse where-clause item: expected a colon");
 
         let bound_tokens = tokens.collect();
 
-- 
2.43.0


From e49c4615c0e7e5d1fe778f5231683e1de8d92396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 17/19] fix: refuse enum discriminants without a value

---
 src/parse_type.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index ad92612..79321a2 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -289,7 +289,13 @@ pub(crate) fn consume_enum_discriminant(
         return Ok(None);
     };
 
-    let value_token = tokens.next().unwrap();
+    let value_token = match tokens.next() {
+        Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => {
+            panic!("cannot parse enum discriminant: unexpected token ','")
+        }
+        Some(token) => token,
+        None => panic!("cannot parse enum discriminant: expected value, found end-of-stream"),
+    };
 
     // If the value expression has more than one token, we output an error.
     match tokens.peek() {
-- 
2.43.0


From c184022fba0dcc7c0b3eb8f5a080546da614ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:41 +0000
Subject: [PATCH 18/19] fix: accept visibilities captured by a declarative
 macro's $vis

---
 src/parse_utils.rs | 17 +++++++++++++++++
 src/types.rs       |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 0b5bc3d..b190d95 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -238,10 +238,27 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 tk_token2: None,
             })
         }
+        // A `$vis:vis` captured by a declarative macro comes in an invisible group.
+        Some(TokenTree::Group(group))
+            if group.delimiter() == Delimiter::None && is_captured_vis(group.stream()) =>
+        {
+            Some(VisMarker {
+                tk_token1: tokens.next().unwrap(),
+                tk_token2: None,
+            })
+        }
         _ => None,
     }
 }
 
+/// True for the inside of an invisible group which holds a (possibly empty) visibility;
+/// false if the group holds something else, eg the type of a tuple field.
+fn is_captured_vis(tokens: TokenStream) -> bool {
+    let mut tokens = tokens.into_iter().peekable();
+    consume_vis_marker(&mut tokens);
+    tokens.peek().is_none()
+}
+
 // Consumes tokens until a separator is reached *unless* the
 // separator in between angle brackets
 // eg consume_stuff_until(..., |token| token == ',') will consume all
diff --git a/src/types.rs b/src/types.rs
index f60024d..fa8f7e0 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -523,7 +523,7 @@ pub enum AttributeValue {
 /// Visibility marker, eg `pub`, `pub(crate)`, `pub(super)`, etc.
 #[derive(Clone)]
 pub struct VisMarker {
-    /// `pub` token.
+    /// `pub` token, or the invisible group around a visibility captured by a declarative macro.
     pub tk_token1: TokenTree,
     /// `(...)` token, if any.
     pub tk_token2: Option<TokenTree>,
-- 
2.43.0


From 771b4452389d81472fb7dfb7cf7240ab4cba14ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:20 +0000
Subject: [PATCH 19/19] fix: `'a + Trait` as a generic argument made as_path()
 panic

---
 src/parse_type.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 79321a2..a93cc9d 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -95,10 +95,17 @@ pub(crate) fn consume_generic_params(tokens: &mut TokenIter) -> Option<GenericPa
 
 fn parse_generic_arg(tokens: Vec<TokenTree>) -> GenericArg {
     // Note: method not called if tokens is empty
+    // `'a + Trait` is a (bare) trait object, not a lifetime
+    let is_trait_object = matches!(
+        tokens.get(2),
+        Some(TokenTree::Punct(punct)) if punct.as_char() == '+'
+    );
     let mut tokens = tokens.into_iter().peekable();
 
-    if let Some(lifetime) = consume_lifetime(&mut tokens, true) {
-        return GenericArg::Lifetime { lifetime };
+    if !is_trait_object {
+        if let Some(lifetime) = consume_lifetime(&mut tokens, true) {
+            return GenericArg::Lifetime { lifetime };
+        }
     }
 
     // Then, try parsing Item = ...
-- 
2.43.0

