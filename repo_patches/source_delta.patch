From d7a49fa313412eb2fa6636480b9dcf17f450cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 01/26] fix: hook targets on the left side of an assignment

---
 hooq-macros/src/impls/walker/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 0994516..e5c3109 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -492,6 +492,7 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 new_context: context,
             } = handle_inert_attrs(&mut expr_assign.attrs, context)?;
 
+            walk_expr(&mut expr_assign.left, &context)?;
             walk_expr(&mut expr_assign.right, &context)
         }
         Expr::Async(expr_async) => {
-- 
2.43.0


From d694a2043fc766bfe43b17a1cd458d00eeae6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 02/26] fix: take the position of a tail expression before
 hooking inside it

---
 hooq-macros/src/impls/walker/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index e5c3109..e1e1c17 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -71,6 +71,8 @@ fn handle_tail_expr(
     } = handle_inert_attrs(attrs, context)?;
 
     let source_tokenstream = expr.to_token_stream();
+    // NOTE: walk_expr で式の先頭が書き換えられる可能性があるため、先に取得しておく
+    let q_span = expr.span();
 
     walk_expr(expr, &context)?;
 
@@ -92,8 +94,6 @@ fn handle_tail_expr(
             && tail_expr_target_kind == TailExprTargetKind::FnBlockTailExpr
             && !is_not_target_call
     {
-        let q_span = expr.span();
-
         let _exc = hook_expr(
             !is_skipped,
             expr,
-- 
2.43.0


From 3f09539939c7c5e2210be91a2267657a3cb65983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 03/26] fix: do not hook a trailing return a second time as a
 tail expression

---
 hooq-macros/src/impls/walker/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index e1e1c17..fa85efd 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -81,6 +81,11 @@ fn handle_tail_expr(
         return Ok(());
     }
 
+    // セミコロンのない return は walk_expr にてフック済み
+    if matches!(expr, Expr::Return(_)) {
+        return Ok(());
+    }
+
     let TargetCallCheckBools {
         is_target_call,
         is_not_target_call,
-- 
2.43.0


From 51c000a88d930a7de51b99df845594690046cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 04/26] fix: list flavor names in a fixed order in diagnostics

---
 hooq-macros/src/impls/flavor/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hooq-macros/src/impls/flavor/mod.rs b/hooq-macros/src/impls/flavor/mod.rs
index 57b7c49..bd9ea47 100644
--- a/hooq-macros/src/impls/flavor/mod.rs
+++ b/hooq-macros/src/impls/flavor/mod.rs
@@ -200,6 +200,9 @@ impl FlavorStore {
             collect_names(flavor, name, &mut names);
         }
 
+        // HashMap の順序は実行ごとに異なるため、出力が一意になるようソート
+        names.sort();
+
         names
     }
 }
-- 
2.43.0


From 7712cf23b87ee3655699037828a66c2be32e3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 05/26] fix: inherit trait_uses in sub-flavors and overridden
 flavors

---
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 13 +++++++------
 hooq-macros/src/impls/flavor/toml_load/mod.rs   |  3 +--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index 9e44bc2..dd11fbe 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -79,12 +79,13 @@ fn update_flavor_inner(
 
         let mut ignore_tail_expr_idents_setting = None;
 
-        let trait_uses = trait_uses
-            .into_iter()
-            .map(|path| syn::parse_str::<Path>(&path))
-            .collect::<syn::Result<Vec<_>>>()
-            .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
-        flavor.trait_uses = trait_uses;
+        if let Some(trait_uses) = trait_uses {
+            flavor.trait_uses = trait_uses
+                .into_iter()
+                .map(|path| syn::parse_str::<Path>(&path))
+                .collect::<syn::Result<Vec<_>>>()
+                .map_err(|e| format!("failed to parse trait_uses: {e}"))?;
+        }
 
         if let Some(method) = method {
             let method_stream = syn::parse_str::<TokenStream>(&method)
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index f172b7a..3cc0530 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -12,8 +12,7 @@ pub struct HooqToml {
 
 #[derive(Deserialize, Debug, Clone)]
 pub struct FlavorTable {
-    #[serde(default)]
-    pub trait_uses: Vec<String>,
+    pub trait_uses: Option<Vec<String>>,
     pub method: Option<String>,
     pub hook_targets: Option<Vec<String>>,
     pub tail_expr_idents: Option<Vec<String>>,
-- 
2.43.0


From a69c2d5d70d8bdcc74943b56e308fe3b7baacd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 06/26] fix: count the lines of multi-line literals in source
 excerpts

---
 hooq-macros/src/impls/utils/source_excerpt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 6393552..06912ea 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -336,7 +336,8 @@ fn into_pretty_str_inner(
 
         res.push_str(tt_str);
 
-        *current_line = Some(tt_line);
+        // 複数行にまたがるリテラルは、その改行の分だけ行が進んでいる
+        *current_line = Some(tt_line + tt_str.matches('\n').count());
         *current_column = Some(tt_end_column);
     }
 
-- 
2.43.0


From 60cb022c62faf0bfc61f6ae8db883523a91d9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 07/26] fix: report a method that does not form an expression
 instead of panicking

---
 hooq-macros/src/impls/method/render/mod.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 5a9be92..5ed58af 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -3,8 +3,8 @@ use std::str::FromStr;
 
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
-use quote::ToTokens;
-use syn::{Expr, Token, parse_quote};
+use quote::{ToTokens, quote};
+use syn::{Expr, Token, parse_quote, parse2};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
@@ -46,9 +46,9 @@ impl HookInfo<'_> {
                 let method = spanned(method, q_span);
 
                 (
-                    parse_quote! {
+                    parse2(quote! {
                         #expr #dot #method
-                    },
+                    })?,
                     exc,
                 )
             }
@@ -72,12 +72,7 @@ impl HookInfo<'_> {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
                 let method = spanned(method, q_span);
 
-                (
-                    parse_quote! {
-                        #method
-                    },
-                    exc,
-                )
+                (parse2(method)?, exc)
             }
         };
 
-- 
2.43.0


From 5a8a9a75b46234be29f6553887caca11bf01ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 08/26] fix: report a lone $ at the end of a method instead of
 dropping it

---
 hooq-macros/src/impls/method/render/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 5ed58af..87eb459 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -90,8 +90,11 @@ impl HookInfo<'_> {
     ) -> syn::Result<TokenStream> {
         let mut res: TokenStream = TokenStream::new();
         let mut next_is_replace_target = false;
+        let mut last_span = q_span;
 
         for tt in ts.into_iter() {
+            last_span = tt.span();
+
             match tt {
                 TokenTree::Punct(punct) => {
                     if next_is_replace_target {
@@ -147,6 +150,10 @@ impl HookInfo<'_> {
             }
         }
 
+        if next_is_replace_target {
+            return Err(syn::Error::new(last_span, "expected a name after `$`"));
+        }
+
         Ok(res)
     }
 
-- 
2.43.0


From 0a9fb2e551fcd8194085ce83ccce77442d6261a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 09/26] fix: keep the target and bindings one operand when a
 method is applied to them

---
 hooq-macros/src/impls/method/render/mod.rs | 64 ++++++++++++++++++++--
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index 87eb459..dbe3f77 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -18,6 +18,43 @@ fn get_file_name(q_span: Span) -> String {
     file.to_string()
 }
 
+/// メソッド呼び出しや演算子の対象とする際に括弧が必要な式かどうか
+fn needs_paren(expr: &Expr) -> bool {
+    match expr {
+        Expr::Assign(_)
+        | Expr::Binary(_)
+        | Expr::Break(_)
+        | Expr::Cast(_)
+        | Expr::Closure(_)
+        | Expr::Let(_)
+        | Expr::Range(_)
+        | Expr::RawAddr(_)
+        | Expr::Reference(_)
+        | Expr::Return(_)
+        | Expr::Unary(_)
+        | Expr::Yield(_) => true,
+        Expr::Group(group) => needs_paren(&group.expr),
+        _ => false,
+    }
+}
+
+fn as_operand(expr: &Expr) -> TokenStream {
+    if needs_paren(expr) {
+        quote! { (#expr) }
+    } else {
+        expr.to_token_stream()
+    }
+}
+
+/// 区切り文字に挟まれている、すなわち前後のトークンと結合し得ないかどうか
+fn is_separated(prev: Option<&TokenTree>, next: Option<&TokenTree>, is_enclosed: bool) -> bool {
+    [prev, next].into_iter().all(|tt| match tt {
+        Some(TokenTree::Punct(punct)) => matches!(punct.as_char(), ',' | ';'),
+        Some(_) => false,
+        None => is_enclosed,
+    })
+}
+
 impl HookInfo<'_> {
     pub fn render_expr_with_method(
         &self,
@@ -42,8 +79,9 @@ impl HookInfo<'_> {
 
         let (new_expr, exc): (Expr, Option<Token![!]>) = match self.method().clone() {
             Method::Insert(dot, method_template, exc) => {
-                let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
+                let method = self.expand_meta_vars(expr, method_template, q_span, None, true)?;
                 let method = spanned(method, q_span);
+                let expr = as_operand(expr);
 
                 (
                     parse2(quote! {
@@ -69,7 +107,7 @@ impl HookInfo<'_> {
                 self.expand_meta_vars(Some(expr), pre_method, &mut method, q_span)?;
                 */
 
-                let method = self.expand_meta_vars(expr, method_template, q_span, None)?;
+                let method = self.expand_meta_vars(expr, method_template, q_span, None, true)?;
                 let method = spanned(method, q_span);
 
                 (parse2(method)?, exc)
@@ -87,12 +125,14 @@ impl HookInfo<'_> {
         ts: TokenStream,
         q_span: Span,
         method_context: Option<Rc<LocalContextField<Method>>>,
+        is_enclosed: bool,
     ) -> syn::Result<TokenStream> {
         let mut res: TokenStream = TokenStream::new();
         let mut next_is_replace_target = false;
         let mut last_span = q_span;
+        let tts = ts.into_iter().collect::<Vec<_>>();
 
-        for tt in ts.into_iter() {
+        for (i, tt) in tts.iter().cloned().enumerate() {
             last_span = tt.span();
 
             match tt {
@@ -114,11 +154,16 @@ impl HookInfo<'_> {
 
                     next_is_replace_target = false;
 
+                    // `$` の1つ前と名前の1つ後
+                    let prev = i.checked_sub(2).map(|i| &tts[i]);
+                    let is_alone = is_separated(prev, tts.get(i + 1), is_enclosed);
+
                     res.extend([self.meta_vars2token_stream(
                         expr,
                         &ident,
                         q_span,
                         method_context.clone(),
+                        is_alone,
                     )?]);
                 }
                 TokenTree::Group(group) => {
@@ -131,6 +176,7 @@ impl HookInfo<'_> {
                         group.stream(),
                         q_span,
                         method_context.clone(),
+                        true,
                     )?;
 
                     let new_group = Group::new(group.delimiter(), res_for_group);
@@ -218,7 +264,13 @@ impl HookInfo<'_> {
         var_ident: &Ident,
         q_span: Span,
         method_context: Option<Rc<LocalContextField<Method>>>,
+        is_alone: bool,
     ) -> syn::Result<TokenStream> {
+        let as_operand = |expr: &Expr| match is_alone {
+            true => expr.to_token_stream(),
+            false => as_operand(expr),
+        };
+
         match MetaVars::from_str(var_ident.to_string().as_str()) {
             Ok(MetaVars::Line) => {
                 let line = q_span.unwrap().line();
@@ -248,7 +300,7 @@ impl HookInfo<'_> {
                     #file
                 })
             }
-            Ok(MetaVars::Expr) => Ok(expr.to_token_stream()),
+            Ok(MetaVars::Expr) => Ok(as_operand(expr)),
             Ok(MetaVars::Source) => {
                 let source_ts = self.source_tokenstream.clone();
 
@@ -291,7 +343,7 @@ impl HookInfo<'_> {
                 let (Method::Insert(_, ts, _) | Method::Replace(ts, _)) = &**ancestor;
 
                 let ancestor_method =
-                    self.expand_meta_vars(expr, ts.clone(), q_span, Some(ancestor))?;
+                    self.expand_meta_vars(expr, ts.clone(), q_span, Some(ancestor), false)?;
 
                 Ok(ancestor_method)
             }
@@ -341,7 +393,7 @@ available meta variables:
                     ));
                 };
 
-                Ok(expr.to_token_stream())
+                Ok(as_operand(expr))
             }
         }
     }
-- 
2.43.0


From c1d447da4cddc12be611de93011d0b3073807d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:34 +0000
Subject: [PATCH 10/26] fix: keep skip_all in force below a nested skip

---
 hooq-macros/src/impls/inert_attr/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/inert_attr/context.rs b/hooq-macros/src/impls/inert_attr/context.rs
index e915345..0d09ba0 100644
--- a/hooq-macros/src/impls/inert_attr/context.rs
+++ b/hooq-macros/src/impls/inert_attr/context.rs
@@ -223,7 +223,11 @@ impl HookContext {
 
     pub fn updated_by_inert_attr(parent_context: &HookContext, inert_attr: InertAttribute) -> Self {
         let skip_status = LocalContextField::from_parent(
-            inert_attr.get_skip_status().map(Option::Some),
+            match &**parent_context.local_context.skip_status {
+                // skip_all の内側では skip が指定されても skip_all のままとする
+                Some(SkipStatus::SkipAll) => None,
+                _ => inert_attr.get_skip_status().map(Option::Some),
+            },
             &parent_context.local_context.skip_status,
         );
         let InertAttribute {
-- 
2.43.0


From c47374bcf378700a282d7c55c66b3b667d80d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 11/26] fix: keep a negative literal binding one operand when a
 method is applied to it

---
 hooq-macros/src/impls/method/render/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index dbe3f77..d3802bb 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -34,6 +34,8 @@ fn needs_paren(expr: &Expr) -> bool {
         | Expr::Unary(_)
         | Expr::Yield(_) => true,
         Expr::Group(group) => needs_paren(&group.expr),
+        // 属性の値 (`name = -1`) の位置では負数が単一のリテラルとしてパースされる
+        Expr::Lit(lit) => lit.to_token_stream().to_string().starts_with('-'),
         _ => false,
     }
 }
-- 
2.43.0


From 4509d976eb190148d53efd41ffbcb78d61a75678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:07 +0000
Subject: [PATCH 12/26] fix: hook in macros after a statement that includes its
 own semicolon

---
 hooq-macros/src/impls/walker/walk_macro.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/walker/walk_macro.rs b/hooq-macros/src/impls/walker/walk_macro.rs
index e7926c1..5e2cf58 100644
--- a/hooq-macros/src/impls/walker/walk_macro.rs
+++ b/hooq-macros/src/impls/walker/walk_macro.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{TokenStream, TokenTree};
 use quote::{ToTokens, quote};
 use syn::parse::Parse;
 use syn::parse::discouraged::Speculative;
@@ -85,6 +85,14 @@ fn handle_token_stream(
 // - パフォーマンス面: この処理が走るのはマクロを見る時だけとはいえ、かなり読み込んでから巻き戻しているので注意が必要
 // - エラーメッセージ面: パースできないときはエラーにせず諦めるため考慮の必要なし
 
+/// 文が区切りの `;` まで含んでいるかどうか (`let x: T = ...;` など)
+fn ends_with_semi(stmt: &syn::Stmt) -> bool {
+    matches!(
+        stmt.to_token_stream().into_iter().last(),
+        Some(TokenTree::Punct(punct)) if punct.as_char() == ';'
+    )
+}
+
 #[derive(Debug)]
 enum Evaluable {
     File(syn::File),
@@ -121,7 +129,10 @@ impl Parse for Evaluable {
 
         let forked = input.fork();
         if let Ok(stmt) = forked.parse::<syn::Stmt>()
-            && (forked.peek(Token![;]) || forked.peek(Token![,]) || forked.is_empty())
+            && (ends_with_semi(&stmt)
+                || forked.peek(Token![;])
+                || forked.peek(Token![,])
+                || forked.is_empty())
         {
             input.advance_to(&forked);
             return Ok(Evaluable::Stmt(stmt));
-- 
2.43.0


From d17d0f7c6fd235466afb720847955e103ba48f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 13/26] fix: sub flavors of a preset leaked into the sub
 flavors defined below it

A [tracing.x.sub.warn] table took the preset tracing::warn as its base instead
of tracing::x, and tracing::x::warn existed without being defined.
---
 hooq-macros/src/impls/flavor/toml_load/apply.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index dd11fbe..ec91f10 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -148,7 +148,11 @@ expected: "?", "return", "tail_expr""#,
         flavor.bindings.extend(bindings);
 
         if !sub_flavors.is_empty() {
-            let base_flavor = flavor.clone();
+            // 設定値のみ継承する (親が持つ sub flavor 自体は孫の名前にならない)
+            let base_flavor = Flavor {
+                sub_flavors: HashMap::new(),
+                ..flavor.clone()
+            };
             update_flavor_inner(&mut flavor.sub_flavors, sub_flavors, &base_flavor)?;
         }
     }
-- 
2.43.0


From ac49f8db81400f3ca5bd6a2aebcca8f2b3de6128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:48 +0000
Subject: [PATCH 14/26] fix: line number column of an excerpt was too narrow
 when the expression crosses a power of ten

The last line was taken from span().end(), which on stable is the end of the
first token.
---
 hooq-macros/src/impls/utils/source_excerpt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 06912ea..279665f 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -53,7 +53,6 @@ pub fn into_pretty_str(
     let mut current_column: Option<usize> = None;
 
     let start_line = expr.span().start().line;
-    let end_line = expr.span().end().line;
 
     let res = into_pretty_str_inner(
         expr.into_token_stream(),
@@ -63,6 +62,10 @@ pub fn into_pretty_str(
     );
 
     if show_line_num {
+        // NOTE: stable では複数トークンの Span を結合できず span().end() は先頭トークンの終わりを指すため、
+        // 最終行は出力の行数から求める
+        let end_line = start_line + res.lines().count().saturating_sub(1);
+
         add_line_prefix(&res, start_line, end_line, top_padding, bottom_padding)
     } else {
         IntoPrettyStrRes {
-- 
2.43.0


From de89dca94ee49132ae50d27d5b44de97fec348dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 15/26] fix: an excerpt of an expression passed through
 macro_rules started at the macro definition

---
 hooq-macros/src/impls/utils/source_excerpt.rs | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/hooq-macros/src/impls/utils/source_excerpt.rs b/hooq-macros/src/impls/utils/source_excerpt.rs
index 279665f..3cfe14b 100644
--- a/hooq-macros/src/impls/utils/source_excerpt.rs
+++ b/hooq-macros/src/impls/utils/source_excerpt.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Delimiter, Span, TokenStream};
+use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
 use quote::ToTokens;
 use syn::Expr;
 use syn::fold::{Fold, fold_lit_str};
@@ -52,14 +52,10 @@ pub fn into_pretty_str(
     let mut current_line: Option<usize> = None;
     let mut current_column: Option<usize> = None;
 
-    let start_line = expr.span().start().line;
+    let ts = expr.into_token_stream();
+    let start_line = first_token_span(&ts).unwrap_or(ts.span()).start().line;
 
-    let res = into_pretty_str_inner(
-        expr.into_token_stream(),
-        &mut current_line,
-        &mut current_column,
-        true,
-    );
+    let res = into_pretty_str_inner(ts, &mut current_line, &mut current_column, true);
 
     if show_line_num {
         // NOTE: stable では複数トークンの Span を結合できず span().end() は先頭トークンの終わりを指すため、
@@ -290,6 +286,17 @@ fn truncate_lit_str_inner(expr: Expr, max_len: Option<usize>) -> Expr {
     folder.fold_expr(expr)
 }
 
+/// 不可視のグループの中も含めて最初に現れるトークンの Span
+fn first_token_span(ts: &TokenStream) -> Option<Span> {
+    ts.clone().into_iter().find_map(|tt| match tt {
+        TokenTree::Group(group) if group.delimiter() == Delimiter::None => {
+            first_token_span(&group.stream())
+        }
+        TokenTree::Group(group) => Some(group.span_open()),
+        tt => Some(tt.span()),
+    })
+}
+
 fn into_pretty_str_inner(
     input: TokenStream,
     current_line: &mut Option<usize>,
@@ -346,9 +353,7 @@ fn into_pretty_str_inner(
 
     for tt in input {
         match tt {
-            proc_macro2::TokenTree::Ident(_)
-            | proc_macro2::TokenTree::Punct(_)
-            | proc_macro2::TokenTree::Literal(_) => {
+            TokenTree::Ident(_) | TokenTree::Punct(_) | TokenTree::Literal(_) => {
                 let tt_str = tt.to_string();
                 let tt_span = tt.span().unwrap();
 
@@ -366,7 +371,14 @@ fn into_pretty_str_inner(
                 );
                 is_top = false;
             }
-            proc_macro2::TokenTree::Group(group) => {
+            // `macro_rules!` の引数などを包む不可視のグループ
+            // Span がマクロ定義側を指すため、行・列の基準にしてはならない
+            TokenTree::Group(group) if group.delimiter() == Delimiter::None => {
+                let s = into_pretty_str_inner(group.stream(), current_line, current_column, is_top);
+                is_top &= s.is_empty();
+                res.push_str(&s);
+            }
+            TokenTree::Group(group) => {
                 let start_delim = delim_start(group.delimiter());
                 let start_delim_span = group.span_open().unwrap();
                 add_tt(
-- 
2.43.0


From ef9f8e12a90f8ee45175c72716e00053961c1949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 16/26] fix: report the same hooq.toml mistake in every process

Tables and bindings were visited in HashMap order, so which of several
mistakes in a hooq.toml was reported changed from run to run.
---
 hooq-macros/src/impls/flavor/toml_load/apply.rs |  4 ++--
 hooq-macros/src/impls/flavor/toml_load/mod.rs   | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index ec91f10..ade29f0 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::rc::Rc;
 
 use proc_macro2::TokenStream;
@@ -34,7 +34,7 @@ fn split_include_or_not_include(idents: Vec<String>) -> (Vec<String>, Vec<String
 
 fn update_flavor_inner(
     flavors: &mut HashMap<String, Flavor>,
-    flavor_tables: HashMap<String, FlavorTable>,
+    flavor_tables: BTreeMap<String, FlavorTable>,
     base_flavor: &Flavor,
 ) -> Result<(), String> {
     for (
diff --git a/hooq-macros/src/impls/flavor/toml_load/mod.rs b/hooq-macros/src/impls/flavor/toml_load/mod.rs
index 3cc0530..8fc6d34 100644
--- a/hooq-macros/src/impls/flavor/toml_load/mod.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/mod.rs
@@ -1,13 +1,16 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use serde::Deserialize;
 
 pub mod apply;
 
+// NOTE:
+// 誤りが複数ある場合に報告される内容が実行ごとに変わらないよう、順序の定まる BTreeMap を用いる
+
 #[derive(Deserialize, Debug, Clone)]
 pub struct HooqToml {
     #[serde(flatten)]
-    pub flavors: HashMap<String, FlavorTable>,
+    pub flavors: BTreeMap<String, FlavorTable>,
 }
 
 #[derive(Deserialize, Debug, Clone)]
@@ -20,9 +23,9 @@ pub struct FlavorTable {
     pub result_types: Option<Vec<String>>,
     pub hook_in_macros: Option<bool>,
     #[serde(default)]
-    pub bindings: HashMap<String, String>,
+    pub bindings: BTreeMap<String, String>,
     #[serde(flatten)]
-    pub sub_flavors: HashMap<String, FlavorTable>,
+    pub sub_flavors: BTreeMap<String, FlavorTable>,
 }
 
 #[cfg(test)]
-- 
2.43.0


From cdce3ff0d5f96e30a78e349690e7da0607e58735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 17/26] fix: look the name of the hooq crate up in the project
 being expanded

The first project's answer was kept for the whole process, so a process
expanding several projects (an editor's macro server) used the name hooq
has in one project in the code of another.
---
 .../src/impls/utils/get_hooq_crate_name.rs    | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index faaaba4..0426cca 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -1,26 +1,23 @@
-use std::sync::OnceLock;
-
 use proc_macro_crate::{FoundCrate, crate_name};
 use syn::Path;
 
-pub fn get_hooq_crate_name() -> &'static str {
-    static RES: OnceLock<String> = OnceLock::new();
-
-    RES.get_or_init(|| {
-        let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
+// NOTE:
+// 1つのプロセスで複数のプロジェクトが展開されることがあるため、結果を使い回してはならない
+// (proc_macro_crate がプロジェクトごとにキャッシュしている)
+pub fn get_hooq_crate_name() -> String {
+    let found_crate = crate_name("hooq").or_else(|_| crate_name("hooq-macros"));
 
-        match found_crate {
-            Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
-            Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
-            Err(_) => "hooq".to_string(),
-        }
-    })
+    match found_crate {
+        Ok(FoundCrate::Itself) => "hooq".to_string(), // ファサードのREADMEにてこうするしかなかったため
+        Ok(FoundCrate::Name(name)) => name.replace("-", "_").to_string(),
+        Err(_) => "hooq".to_string(),
+    }
 }
 
 pub fn get_source_excerpt_helpers_name_space() -> Path {
     let crate_name = get_hooq_crate_name();
 
-    let source_excerpt_helpers_name_space = match crate_name {
+    let source_excerpt_helpers_name_space = match crate_name.as_str() {
         "hooq_macros" => "",
         _ => "::source_excerpt_helpers",
     };
-- 
2.43.0


From 25d3745595a8ee5a87dfc358ed11e5c41091fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 18/26] fix: reject paths and other non-identifiers in
 identifier lists

The documentation demands single identifiers in tail_expr_idents,
ignore_tail_expr_idents and result_types, but anything was accepted and
then never matched, so the setting was silently without effect.
---
 .../src/impls/flavor/toml_load/apply.rs       | 14 +++++
 hooq-macros/src/impls/inert_attr/parse.rs     | 58 ++++++++++++-------
 hooq-macros/src/impls/utils/mod.rs            | 15 ++++-
 3 files changed, 66 insertions(+), 21 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/toml_load/apply.rs b/hooq-macros/src/impls/flavor/toml_load/apply.rs
index ade29f0..716f3bc 100644
--- a/hooq-macros/src/impls/flavor/toml_load/apply.rs
+++ b/hooq-macros/src/impls/flavor/toml_load/apply.rs
@@ -7,6 +7,7 @@ use syn::{Expr, Path};
 use crate::impls::flavor::Flavor;
 use crate::impls::flavor::toml_load::{FlavorTable, HooqToml};
 use crate::impls::method::Method;
+use crate::impls::utils::check_single_ident;
 
 pub fn update_flavors(
     flavors: &mut HashMap<String, Flavor>,
@@ -32,6 +33,13 @@ fn split_include_or_not_include(idents: Vec<String>) -> (Vec<String>, Vec<String
     (include_idents, not_include_idents)
 }
 
+fn check_idents(setting: &str, idents: &[String]) -> Result<(), String> {
+    idents
+        .iter()
+        .try_for_each(|ident| check_single_ident(ident))
+        .map_err(|e| format!("invalid {setting} value. {e}"))
+}
+
 fn update_flavor_inner(
     flavors: &mut HashMap<String, Flavor>,
     flavor_tables: BTreeMap<String, FlavorTable>,
@@ -108,6 +116,8 @@ expected: "?", "return", "tail_expr""#,
         if let Some(tail_expr_idents) = tail_expr_idents {
             let (tail_expr_idents, ignore_tail_expr_idents) =
                 split_include_or_not_include(tail_expr_idents);
+            check_idents("tail_expr_idents", &tail_expr_idents)?;
+            check_idents("tail_expr_idents", &ignore_tail_expr_idents)?;
 
             flavor.tail_expr_idents = tail_expr_idents;
             ignore_tail_expr_idents_setting = match ignore_tail_expr_idents_setting {
@@ -118,6 +128,8 @@ expected: "?", "return", "tail_expr""#,
         }
 
         if let Some(ignore_tail_expr_idents) = ignore_tail_expr_idents {
+            check_idents("ignore_tail_expr_idents", &ignore_tail_expr_idents)?;
+
             ignore_tail_expr_idents_setting = match ignore_tail_expr_idents_setting {
                 Some(v) => Some([v, ignore_tail_expr_idents].concat()),
                 None => Some(ignore_tail_expr_idents),
@@ -129,6 +141,8 @@ expected: "?", "return", "tail_expr""#,
         }
 
         if let Some(result_types) = result_types {
+            check_idents("result_types", &result_types)?;
+
             flavor.result_types = result_types;
         }
 
diff --git a/hooq-macros/src/impls/inert_attr/parse.rs b/hooq-macros/src/impls/inert_attr/parse.rs
index a3bf155..6fa9de3 100644
--- a/hooq-macros/src/impls/inert_attr/parse.rs
+++ b/hooq-macros/src/impls/inert_attr/parse.rs
@@ -12,6 +12,7 @@ use crate::impls::flavor::{Flavor, FlavorPath, FlavorStore};
 use crate::impls::inert_attr::InertAttribute;
 use crate::impls::inert_attr::context::HookTargetSwitch;
 use crate::impls::method::Method;
+use crate::impls::utils::check_single_ident;
 
 fn get_binding_name(path: &Path) -> syn::Result<Option<String>> {
     let mut segs = path.segments.iter();
@@ -36,7 +37,7 @@ fn get_binding_name(path: &Path) -> syn::Result<Option<String>> {
     Ok(maybe_binding.map(|s| s.ident.to_string()))
 }
 
-struct Strings(Vec<String>);
+struct Strings(Vec<LitStr>);
 
 impl Parse for Strings {
     fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
@@ -44,26 +45,43 @@ impl Parse for Strings {
             input
                 .parse_terminated(<LitStr as Parse>::parse, Token![,])?
                 .into_iter()
-                .map(|lit| lit.value())
                 .collect::<Vec<_>>(),
         ))
     }
 }
 
 impl Strings {
-    fn split_include_or_not_include(self) -> (Vec<String>, Vec<String>) {
-        let mut includes = Vec::new();
-        let mut not_includes = Vec::new();
-
-        for s in self.0 {
-            if let Some(stripped) = s.strip_prefix('!') {
-                not_includes.push(stripped.to_string());
-            } else {
-                includes.push(s);
-            }
-        }
+    fn into_values(self) -> Vec<String> {
+        self.0.into_iter().map(|lit| lit.value()).collect()
+    }
+
+    fn into_idents(self) -> syn::Result<Vec<String>> {
+        self.0
+            .into_iter()
+            .map(|lit| {
+                let s = lit.value();
+                check_single_ident(&s).map_err(|e| syn::Error::new_spanned(&lit, e))?;
+
+                Ok(s)
+            })
+            .collect()
+    }
+
+    fn split_include_or_not_include(self) -> syn::Result<(Vec<String>, Vec<String>)> {
+        let (not_includes, includes): (Vec<_>, Vec<_>) = self
+            .0
+            .into_iter()
+            .partition(|lit| lit.value().starts_with('!'));
+
+        let not_includes = not_includes
+            .into_iter()
+            .map(|lit| LitStr::new(&lit.value()[1..], lit.span()))
+            .collect();
 
-        (includes, not_includes)
+        Ok((
+            Strings(includes).into_idents()?,
+            Strings(not_includes).into_idents()?,
+        ))
     }
 }
 
@@ -203,7 +221,7 @@ pub fn extract_hooq_info_from_attrs(attrs: &mut Vec<Attribute>) -> syn::Result<I
             // hook_targets
             Meta::List(MetaList { path, tokens, .. }) if path == &hooq_hook_targets => {
                 let strings = syn::parse2::<Strings>(tokens.clone())?;
-                match HookTargetSwitch::try_from(strings.0) {
+                match HookTargetSwitch::try_from(strings.into_values()) {
                     Ok(switch) => {
                         hook_targets = Some(switch);
                         keeps.push(false);
@@ -230,7 +248,7 @@ expected: "?", "return", "tail_expr""#,
             Meta::List(MetaList { path, tokens, .. }) if path == &hooq_tail_expr_idents => {
                 let strings = syn::parse2::<Strings>(tokens.clone())?;
 
-                let (includes, not_includes) = strings.split_include_or_not_include();
+                let (includes, not_includes) = strings.split_include_or_not_include()?;
 
                 tail_expr_idents = Some(includes);
                 ignore_tail_expr_idents = match ignore_tail_expr_idents {
@@ -260,13 +278,13 @@ expected: "?", "return", "tail_expr""#,
             // ignore_tail_expr_idents
             // このフィールドのみ、tail_expr_idents と ignore_tail_expr_idents の両方から設定可能
             Meta::List(MetaList { path, tokens, .. }) if path == &hooq_ignore_tail_expr_idents => {
-                let strings = syn::parse2::<Strings>(tokens.clone())?;
+                let idents = syn::parse2::<Strings>(tokens.clone())?.into_idents()?;
 
                 ignore_tail_expr_idents = match ignore_tail_expr_idents {
                     // すでに存在する場合は追加
-                    Some(v) => Some([v, strings.0].concat()),
+                    Some(v) => Some([v, idents].concat()),
                     // (※) とは異なり、こちらは空配列であっても指定のため上書き
-                    None => Some(strings.0),
+                    None => Some(idents),
                 };
                 keeps.push(false);
             }
@@ -285,7 +303,7 @@ this format can set both tail_expr_idents and ignore_tail_expr_idents fields by
             // result_types
             Meta::List(MetaList { path, tokens, .. }) if path == &hooq_result_types => {
                 let strings = syn::parse2::<Strings>(tokens.clone())?;
-                result_types = Some(strings.0);
+                result_types = Some(strings.into_idents()?);
                 keeps.push(false);
             }
             Meta::NameValue(MetaNameValue { path, value, .. }) if path == &hooq_result_types => {
diff --git a/hooq-macros/src/impls/utils/mod.rs b/hooq-macros/src/impls/utils/mod.rs
index e2bf711..f875dd7 100644
--- a/hooq-macros/src/impls/utils/mod.rs
+++ b/hooq-macros/src/impls/utils/mod.rs
@@ -1,5 +1,7 @@
 pub use get_attrs::*;
-use syn::Path;
+use syn::ext::IdentExt;
+use syn::parse::Parser;
+use syn::{Ident, Path};
 
 pub mod function_info;
 mod get_attrs;
@@ -16,3 +18,14 @@ pub fn path_is_end_of(path: &Path, target: &str) -> bool {
         .next_back()
         .is_some_and(|segment| segment.ident == target)
 }
+
+/// 関数名や型名の指定は単一の識別子でなければならない
+/// (`xxx::yyy` のようなパスはどの末尾の識別子とも一致せず、設定が無視されてしまう)
+pub fn check_single_ident(s: &str) -> Result<(), String> {
+    match Ident::parse_any.parse_str(s) {
+        Ok(ident) if ident == s => Ok(()),
+        _ => Err(format!(
+            "expected a single identifier (not a path). got: {s:?}"
+        )),
+    }
+}
-- 
2.43.0


From e35dc668ec124d0b81d6d21b7b2727e52a6bd466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 19/26] fix: do not take a misspelt setting for a binding

#[hooq::skip = ..], #[hooq::skip_all = ..], #[hooq::binding = ..],
#[hooq::var = ..] and settings written with a leading :: defined a binding
of that name, which the documentation forbids, instead of being reported.
---
 hooq-macros/src/impls/inert_attr/parse.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/hooq-macros/src/impls/inert_attr/parse.rs b/hooq-macros/src/impls/inert_attr/parse.rs
index 6fa9de3..af084a2 100644
--- a/hooq-macros/src/impls/inert_attr/parse.rs
+++ b/hooq-macros/src/impls/inert_attr/parse.rs
@@ -85,6 +85,22 @@ impl Strings {
     }
 }
 
+/// `#[hooq::xxx = ...]` による binding の名前として使えないもの
+const ATTRIBUTE_NAMES: [&str; 12] = [
+    "flavor",
+    "method",
+    "hook_targets",
+    "tail_expr_idents",
+    "ignore_tail_expr_idents",
+    "result_types",
+    "hook_in_macros",
+    "bindings",
+    "binding",
+    "var",
+    "skip",
+    "skip_all",
+];
+
 const INERT_ATTRIBUTE_ERROR_MESSAGE: &str = r#"expected attribute formats are below:
 
 - #[hooq::method(/* e.g. `.method(...)` */)]
@@ -368,6 +384,11 @@ this format can set both tail_expr_idents and ignore_tail_expr_idents fields by
             }
             Meta::NameValue(MetaNameValue { path, value, .. }) => {
                 if let Some(binding) = get_binding_name(path)? {
+                    // ここまでの形式に合致しなかった設定が binding として黙殺されるのを防ぐ
+                    if ATTRIBUTE_NAMES.contains(&binding.as_str()) {
+                        return Err(syn::Error::new_spanned(path, INERT_ATTRIBUTE_ERROR_MESSAGE));
+                    }
+
                     bindings.insert(binding, value.clone());
                     keeps.push(false);
                 } else {
-- 
2.43.0


From 77e8319a181abb3253ddc34832012ac40266b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 20/26] fix: keep inner attributes of macro arguments

A macro argument that is a sequence of items was re-emitted without its
leading #![...] attributes.
---
 hooq-macros/src/impls/walker/walk_macro.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hooq-macros/src/impls/walker/walk_macro.rs b/hooq-macros/src/impls/walker/walk_macro.rs
index 5e2cf58..8e3e64f 100644
--- a/hooq-macros/src/impls/walker/walk_macro.rs
+++ b/hooq-macros/src/impls/walker/walk_macro.rs
@@ -46,14 +46,14 @@ fn handle_token_stream(
         .into_iter()
         .map(|(eval, punct)| {
             let eval_hooked = match eval {
-                Evaluable::File(file) => file
-                    .items
-                    .into_iter()
-                    .map(|mut item| {
-                        walk_item(&mut item, context)?;
-                        Ok(item.into_token_stream())
-                    })
-                    .collect::<syn::Result<_>>()?,
+                Evaluable::File(mut file) => {
+                    for item in file.items.iter_mut() {
+                        walk_item(item, context)?;
+                    }
+
+                    // `#![...]` も含めて元に戻す
+                    file.into_token_stream()
+                }
                 Evaluable::Expr(mut expr) => {
                     walk_expr(&mut expr, context)?;
                     expr.into_token_stream()
-- 
2.43.0


From 4b6f5e460008ca169e7b9bcc00b1a52b6219de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 21/26] fix: keep attributes on the outside of a replaced tail
 expression

With a replacing method the attributes of a tail expression ended up inside
the hook, where rustc rejects them: a function with a tail such as
#[cfg(..)] g() or { #![allow(..)] .. } no longer compiled.
---
 hooq-macros/src/impls/method/render/mod.rs | 39 ++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index d3802bb..aa06329 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -4,10 +4,11 @@ use std::str::FromStr;
 use meta_vars::{META_VARS_LIST, MetaVars};
 use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote};
-use syn::{Expr, Token, parse_quote, parse2};
+use syn::{AttrStyle, Attribute, Expr, Token, parse_quote, parse2};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
+use crate::impls::utils::get_attrs_from_expr;
 
 mod meta_vars;
 
@@ -48,6 +49,36 @@ fn as_operand(expr: &Expr) -> TokenStream {
     }
 }
 
+/// 式に付いた属性を取り外す
+fn take_attrs(expr: &mut Expr) -> Vec<Attribute> {
+    let mut attrs = get_attrs_from_expr(expr)
+        .map(std::mem::take)
+        .unwrap_or_default();
+
+    // ブロック内の `#![...]` も、ブロックが文でなくなる場合は書けない
+    for attr in attrs.iter_mut() {
+        attr.style = AttrStyle::Outer;
+    }
+
+    attrs
+}
+
+/// `#[cfg(...)]` などの属性を式全体に付ける
+fn attach_attrs(expr: &mut Expr, mut attrs: Vec<Attribute>) {
+    if attrs.is_empty() {
+        return;
+    }
+
+    if needs_paren(expr) || get_attrs_from_expr(expr).is_none() {
+        *expr = parse_quote! { (#expr) };
+    }
+
+    if let Some(expr_attrs) = get_attrs_from_expr(expr) {
+        attrs.append(expr_attrs);
+        *expr_attrs = attrs;
+    }
+}
+
 /// 区切り文字に挟まれている、すなわち前後のトークンと結合し得ないかどうか
 fn is_separated(prev: Option<&TokenTree>, next: Option<&TokenTree>, is_enclosed: bool) -> bool {
     [prev, next].into_iter().all(|tt| match tt {
@@ -79,7 +110,10 @@ impl HookInfo<'_> {
             method
         }
 
-        let (new_expr, exc): (Expr, Option<Token![!]>) = match self.method().clone() {
+        // 属性は文や要素の先頭にしか置けないため、フック後の式全体に付け替える
+        let attrs = take_attrs(expr);
+
+        let (mut new_expr, exc): (Expr, Option<Token![!]>) = match self.method().clone() {
             Method::Insert(dot, method_template, exc) => {
                 let method = self.expand_meta_vars(expr, method_template, q_span, None, true)?;
                 let method = spanned(method, q_span);
@@ -116,6 +150,7 @@ impl HookInfo<'_> {
             }
         };
 
+        attach_attrs(&mut new_expr, attrs);
         *expr = new_expr;
 
         Ok(exc)
-- 
2.43.0


From a93e16ed45c743b4d86248b4d4de1cb06981c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 22/26] fix: keep attributes when a question mark is consumed

#[cfg(..)] f()?; lost its attributes together with the ?, so code that was
configured out was executed.
---
 hooq-macros/src/impls/method/mod.rs        |  2 ++
 hooq-macros/src/impls/method/render/mod.rs |  2 +-
 hooq-macros/src/impls/walker/mod.rs        | 10 ++++++++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/hooq-macros/src/impls/method/mod.rs b/hooq-macros/src/impls/method/mod.rs
index 27ea436..1d83855 100644
--- a/hooq-macros/src/impls/method/mod.rs
+++ b/hooq-macros/src/impls/method/mod.rs
@@ -6,6 +6,8 @@ use syn::{Token, parse2};
 
 mod render;
 
+pub use render::attach_attrs;
+
 #[derive(Debug, Clone)]
 pub enum Method {
     Insert(Token![.], TokenStream, Option<Token![!]>),
diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index aa06329..b064043 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -64,7 +64,7 @@ fn take_attrs(expr: &mut Expr) -> Vec<Attribute> {
 }
 
 /// `#[cfg(...)]` などの属性を式全体に付ける
-fn attach_attrs(expr: &mut Expr, mut attrs: Vec<Attribute>) {
+pub fn attach_attrs(expr: &mut Expr, mut attrs: Vec<Attribute>) {
     if attrs.is_empty() {
         return;
     }
diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index fa85efd..f9ef2c4 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -8,6 +8,7 @@ use syn::{
 
 use crate::impls::inert_attr::context::{HookContext, HookTargetKind};
 use crate::impls::inert_attr::{HandleInertAttrsResult, handle_inert_attrs};
+use crate::impls::method::attach_attrs;
 use crate::impls::utils::function_info::{ClosureInfo, FunctionInfo};
 use crate::impls::utils::get_attrs_from_expr;
 
@@ -427,8 +428,13 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
                 )?;
 
                 match exc {
-                    // ? を消去
-                    Some(_) => Some(*expr_try.expr.clone()),
+                    // ? を消去 (属性は残す)
+                    Some(_) => {
+                        let mut new_expr = *expr_try.expr.clone();
+                        attach_attrs(&mut new_expr, std::mem::take(&mut expr_try.attrs));
+
+                        Some(new_expr)
+                    }
                     // ? を残す
                     None => None,
                 }
-- 
2.43.0


From bc07b31e7a3d80ebc98523636a8be666b2a9df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 23/26] fix: judge returns and tails by the code as written

---
 hooq-macros/src/impls/walker/mod.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index f9ef2c4..157bb29 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -72,8 +72,13 @@ fn handle_tail_expr(
     } = handle_inert_attrs(attrs, context)?;
 
     let source_tokenstream = expr.to_token_stream();
-    // NOTE: walk_expr で式の先頭が書き換えられる可能性があるため、先に取得しておく
+    // NOTE: walk_expr で式が書き換えられる可能性があるため、先に取得しておく
     let q_span = expr.span();
+    let is_return = matches!(expr, Expr::Return(_));
+    let TargetCallCheckBools {
+        is_target_call,
+        is_not_target_call,
+    } = target_call_check_bools(&context, expr);
 
     walk_expr(expr, &context)?;
 
@@ -83,15 +88,10 @@ fn handle_tail_expr(
     }
 
     // セミコロンのない return は walk_expr にてフック済み
-    if matches!(expr, Expr::Return(_)) {
+    if is_return {
         return Ok(());
     }
 
-    let TargetCallCheckBools {
-        is_target_call,
-        is_not_target_call,
-    } = target_call_check_bools(&context, expr);
-
     // 以下のような場合にフック
     // - Err の時
     // - 関数orクロージャで返り値型がResultでOkではない時
@@ -457,15 +457,16 @@ fn walk_expr(expr: &mut Expr, context: &HookContext) -> syn::Result<()> {
             let source_tokenstream = expr_return.to_token_stream();
 
             if let Some(expr) = expr_return.expr.as_mut() {
-                walk_expr(expr, &context)?;
-
-                let q_span = expr_return.return_token.span();
-
+                // NOTE: walk_expr で式が書き換えられる可能性があるため、先に確認しておく
                 let TargetCallCheckBools {
                     is_target_call,
                     is_not_target_call,
                 } = target_call_check_bools(&context, expr);
 
+                walk_expr(expr, &context)?;
+
+                let q_span = expr_return.return_token.span();
+
                 // Errの時 or 返り値型がResultでOkでない時フック
                 if is_target_call || context.return_type_is_result() && !is_not_target_call {
                     let _exc = hook_expr(
-- 
2.43.0


From f79a3db8492730ff7e70f955b1f10bbf6ab34ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 24/26] fix: name the hooq crate as the project does in
 $hooq_meta and $bindings

---
 hooq-macros/src/impls/method/render/mod.rs         |  8 +++++---
 hooq-macros/src/impls/utils/get_hooq_crate_name.rs | 10 ++++++++++
 hooq-macros/src/impls/utils/mod.rs                 |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/hooq-macros/src/impls/method/render/mod.rs b/hooq-macros/src/impls/method/render/mod.rs
index b064043..7b11a3f 100644
--- a/hooq-macros/src/impls/method/render/mod.rs
+++ b/hooq-macros/src/impls/method/render/mod.rs
@@ -8,7 +8,7 @@ use syn::{AttrStyle, Attribute, Expr, Token, parse_quote, parse2};
 
 use crate::impls::inert_attr::context::{HookInfo, LocalContextField};
 use crate::impls::method::Method;
-use crate::impls::utils::get_attrs_from_expr;
+use crate::impls::utils::{get_attrs_from_expr, get_facade_name_space};
 
 mod meta_vars;
 
@@ -269,6 +269,7 @@ impl HookInfo<'_> {
     }
 
     fn get_bindings_token_stream(&self) -> TokenStream {
+        let hooq = get_facade_name_space();
         let tuples = self
             .available_bindings()
             .into_iter()
@@ -280,7 +281,7 @@ impl HookInfo<'_> {
                         let expr = ::std::string::ToString::to_string(#expr);
                         let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new(#v);
 
-                        ::hooq::BindingPayload {
+                        #hooq::BindingPayload {
                             expr,
                             value,
                         }
@@ -393,9 +394,10 @@ impl HookInfo<'_> {
                 let source_str = self.source_tokenstream.to_string();
                 let count = self.get_count();
                 let bindings = self.get_bindings_token_stream();
+                let hooq = get_facade_name_space();
 
                 Ok(parse_quote! {
-                    ::hooq::HooqMeta {
+                    #hooq::HooqMeta {
                         line: #line,
                         column: #column,
                         path: #path,
diff --git a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
index 0426cca..7906b68 100644
--- a/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
+++ b/hooq-macros/src/impls/utils/get_hooq_crate_name.rs
@@ -27,3 +27,13 @@ pub fn get_source_excerpt_helpers_name_space() -> Path {
     ))
     .unwrap()
 }
+
+/// `HooqMeta` や `BindingPayload` などファサード側にのみ存在するアイテムの名前空間
+pub fn get_facade_name_space() -> Path {
+    let crate_name = match get_hooq_crate_name().as_str() {
+        "hooq_macros" => "hooq".to_string(),
+        name => name.to_string(),
+    };
+
+    syn::parse_str::<Path>(&format!("::{crate_name}")).unwrap()
+}
diff --git a/hooq-macros/src/impls/utils/mod.rs b/hooq-macros/src/impls/utils/mod.rs
index f875dd7..bd68fa5 100644
--- a/hooq-macros/src/impls/utils/mod.rs
+++ b/hooq-macros/src/impls/utils/mod.rs
@@ -10,7 +10,7 @@ mod source_excerpt;
 pub mod source_excerpt_macros;
 pub mod unexpected_error_message;
 
-pub use get_hooq_crate_name::get_source_excerpt_helpers_name_space;
+pub use get_hooq_crate_name::{get_facade_name_space, get_source_excerpt_helpers_name_space};
 
 pub fn path_is_end_of(path: &Path, target: &str) -> bool {
     path.segments
-- 
2.43.0


From 32b68612a8398594c980a689e5ad66969131957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 25/26] fix: report through std's format! in the anyhow and
 eyre presets

---
 hooq-macros/src/impls/flavor/presets/anyhow.rs | 2 +-
 hooq-macros/src/impls/flavor/presets/eyre.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hooq-macros/src/impls/flavor/presets/anyhow.rs b/hooq-macros/src/impls/flavor/presets/anyhow.rs
index bcc4dbc..f55a726 100644
--- a/hooq-macros/src/impls/flavor/presets/anyhow.rs
+++ b/hooq-macros/src/impls/flavor/presets/anyhow.rs
@@ -22,7 +22,7 @@ fn anyhow_method() -> TokenStream {
             let col = $col;
             let expr = #excerpted_helpers_path ::excerpted_pretty_stringify!($source);
 
-            format!("[{path}:{line}:{col}]\n{expr}")
+            ::std::format!("[{path}:{line}:{col}]\n{expr}")
         })
     }
 }
diff --git a/hooq-macros/src/impls/flavor/presets/eyre.rs b/hooq-macros/src/impls/flavor/presets/eyre.rs
index bdff9b5..f508fb6 100644
--- a/hooq-macros/src/impls/flavor/presets/eyre.rs
+++ b/hooq-macros/src/impls/flavor/presets/eyre.rs
@@ -36,7 +36,7 @@ fn eyre_method() -> TokenStream {
             let col = $col;
             let expr = #excerpted_helpers_path ::excerpted_pretty_stringify!($source);
 
-            format!("[{path}:{line}:{col}]\n{expr}")
+            ::std::format!("[{path}:{line}:{col}]\n{expr}")
         })
     }
 }
-- 
2.43.0


From 5016147bb212fa1e7551a4d3ca583de52b25816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:05 +0000
Subject: [PATCH 26/26] fix: look inside fragments of macro_rules when judging
 returns, tails and return types

---
 hooq-macros/src/impls/utils/function_info.rs | 14 +++++++++++---
 hooq-macros/src/impls/walker/mod.rs          | 15 ++++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/hooq-macros/src/impls/utils/function_info.rs b/hooq-macros/src/impls/utils/function_info.rs
index 05214bf..2cd493d 100644
--- a/hooq-macros/src/impls/utils/function_info.rs
+++ b/hooq-macros/src/impls/utils/function_info.rs
@@ -81,9 +81,17 @@ impl FunctionInfo {
 }
 
 fn return_type_is_result_inner(rt: &ReturnType, result_types: &[String]) -> bool {
-    if let ReturnType::Type(_, t) = rt
-        && let Type::Path(TypePath { path, .. }) = t.deref()
-    {
+    let ReturnType::Type(_, t) = rt else {
+        return false;
+    };
+
+    // macro_rules の `$t:ty` は見えない括弧に包まれて渡されるため、中身を見る
+    let mut t = t.deref();
+    while let Type::Group(group) = t {
+        t = &group.elem;
+    }
+
+    if let Type::Path(TypePath { path, .. }) = t {
         result_types.iter().any(|s| path_is_end_of(path, s))
     } else {
         false
diff --git a/hooq-macros/src/impls/walker/mod.rs b/hooq-macros/src/impls/walker/mod.rs
index 157bb29..20cd932 100644
--- a/hooq-macros/src/impls/walker/mod.rs
+++ b/hooq-macros/src/impls/walker/mod.rs
@@ -42,9 +42,18 @@ struct TargetCallCheckBools {
     is_not_target_call: bool,
 }
 
+/// macro_rules の `$e:expr` などは見えない括弧に包まれて渡されるため、中身を見る
+fn ungroup(mut expr: &Expr) -> &Expr {
+    while let Expr::Group(group) = expr {
+        expr = &group.expr;
+    }
+
+    expr
+}
+
 fn target_call_check_bools(context: &HookContext, expr: &Expr) -> TargetCallCheckBools {
-    if let Expr::Call(ExprCall { func, .. }) = expr
-        && let Expr::Path(ExprPath { path, .. }) = func.as_ref()
+    if let Expr::Call(ExprCall { func, .. }) = ungroup(expr)
+        && let Expr::Path(ExprPath { path, .. }) = ungroup(func)
     {
         TargetCallCheckBools {
             is_target_call: context.path_is_hook_call_like_err(path),
@@ -74,7 +83,7 @@ fn handle_tail_expr(
     let source_tokenstream = expr.to_token_stream();
     // NOTE: walk_expr で式が書き換えられる可能性があるため、先に取得しておく
     let q_span = expr.span();
-    let is_return = matches!(expr, Expr::Return(_));
+    let is_return = matches!(ungroup(expr), Expr::Return(_));
     let TargetCallCheckBools {
         is_target_call,
         is_not_target_call,
-- 
2.43.0

