From 48559f1d7ea5e0eab1ed81b7212b601b38deace6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:58 +0000
Subject: [PATCH 01/29] fix: never share a table offset between two action sets

When no hole fits, an action set was appended at the end of the table
without checking that its offset was free, so a state could take over the
actions of another one.
---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c5b1919..c0c9794 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -411,9 +411,9 @@ impl ActTab {
             None => {
                 /* Look for holes in the aAction[] table that fit the current
                  ** aLookahead[] transaction.  Leave i set to the offset of the hole.
-                 ** If no holes are found, i is left at self.n_action, which means the
-                 ** transaction will be appended. */
-                let mut r = self.a_action.len();
+                 ** If no holes are found, the transaction will be appended far enough
+                 ** that its offset cannot collide with that of any other one. */
+                let mut r = self.a_action.len() + max_lookahead;
                 'ia: for i in 0..self.a_action.len() + max_lookahead {
                     for jla in &at2.a_lookahead {
                         let k = jla.lookahead - min_lookahead + i;
-- 
2.43.0


From 303a186a43915281e62bf55e665aff95f9511603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 02/29] fix: report a token that falls back to itself

It made the macro loop forever.
---
 pomelo-impl/src/parser/mod.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c0c9794..4f8172c 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1876,22 +1876,13 @@ impl Pomelo {
                 // Check that the new fallbacks do not create a fallback-loop.
                 // That would cause a stack overflow in runtime.
                 {
-                    let mut fallback = fallback;
-                    loop {
-                        let fb_b = self.the_symbols.get(fallback);
-                        match fb_b.fallback {
-                            None => break,
-                            Some(fb_next) => {
-                                if syms.iter().any(|(_, s)| *s == fb_next) {
-                                    return error_span(
-                                        fb.span(),
-                                        "Fallback directive creates a loop",
-                                    );
-                                    //tested
-                                }
-                                fallback = fb_next;
-                            }
+                    let mut next = Some(fallback);
+                    while let Some(fallback) = next {
+                        if syms.iter().any(|(_, s)| *s == fallback) {
+                            return error_span(fb.span(), "Fallback directive creates a loop");
+                            //tested
                         }
+                        next = self.the_symbols.get(fallback).fallback;
                     }
                 }
 
-- 
2.43.0


From 28ebc7a362bbacc2d719a6ba8d89a41ea0022f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 03/29] fix: report an empty token class instead of panicking

---
 pomelo-impl/src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 4f8172c..cedc6d1 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1913,6 +1913,9 @@ impl Pomelo {
                     return error_span(tk.span(), "token_class must be a token");
                     //tested
                 }
+                if ids.is_empty() {
+                    return error_span(tk.span(), "token_class must have some tokens");
+                }
                 let tk = self.symbol_new_t(&tk, NewSymbolType::MultiTerminal);
                 for id in ids {
                     if !is_terminal_ident(&id) {
-- 
2.43.0


From 4c3bed38adfd5eea3c87efbbbc330b4bc36fb61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 04/29] fix: a %nonassoc tie is an error, not a reduction

The reduction was left in the state, so it could still be used as its
default action and the token that was to be rejected went through.
---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index cedc6d1..8f1286f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1190,7 +1190,7 @@ impl Pomelo {
                 match (precx, precy) {
                     (Some(px), Some(py)) => match precedence_cmp(px, py) {
                         Ordering::Less => (false, SHResolved(x), Reduce(y)),
-                        Ordering::Equal => (false, Error, Reduce(y)),
+                        Ordering::Equal => (false, Error, RDResolved(y)),
                         Ordering::Greater => (false, Shift(x), RDResolved(y)),
                     },
                     _ => (true, Shift(x), SRConflict(y)),
-- 
2.43.0


From b0ecb62f56281a38dbe3391996240dffc3ccca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 05/29] fix: associativity does not choose between two
 reductions

---
 pomelo-impl/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 8f1286f..0687f34 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1201,7 +1201,8 @@ impl Pomelo {
                 let precy = self.the_rules.get(y).precedence;
 
                 match (precx, precy) {
-                    (Some(px), Some(py)) => match precedence_cmp(px, py) {
+                    /* Associativity says nothing about two reductions */
+                    (Some(px), Some(py)) => match px.0.cmp(&py.0) {
                         Ordering::Less => (false, RDResolved(x), Reduce(y)),
                         Ordering::Equal => (true, Reduce(x), RRConflict(y)),
                         Ordering::Greater => (false, Reduce(x), RDResolved(y)),
-- 
2.43.0


From dbc7355db858760d061c33c70829762b0a479f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 06/29] fix: no default action in a state that reduces on the
 wildcard

---
 pomelo-impl/src/parser/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 0687f34..ec9da88 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1288,13 +1288,13 @@ impl Pomelo {
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
-                    match (&ap.detail, &self.wildcard) {
-                        (Shift(_), Some(w)) => {
-                            if ap.look_ahead == *w {
-                                uses_wildcard = true;
-                            }
-                        }
-                        (Reduce(rp), _) => {
+                    if self.wildcard == Some(ap.look_ahead)
+                        && matches!(ap.detail, Shift(_) | Reduce(_))
+                    {
+                        uses_wildcard = true;
+                    }
+                    match &ap.detail {
+                        Reduce(rp) => {
                             if self.the_rules.get(rp).lhs_start {
                                 continue;
                             }
-- 
2.43.0


From 8fc53bc702d577b531f9ef2ed0cddc1627380785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 07/29] fix: no default action in a state with a %nonassoc
 error

All the tokens would be listed as expected otherwise.
---
 pomelo-impl/src/parser/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index ec9da88..362df70 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1225,7 +1225,8 @@ impl Pomelo {
      **
      ** In this version, we take the most frequent REDUCE action and make
      ** it the default.  Except, there is no default if the wildcard token
-     ** is a possible look-ahead.
+     ** is a possible look-ahead, or if some look-ahead is an error because
+     ** of a %nonassoc token.
      **
      ** Returns true if it changes anything
      */
@@ -1239,6 +1240,7 @@ impl Pomelo {
                 let mut nbest = 0;
                 let mut rbest = None;
                 let mut uses_wildcard = false;
+                let mut uses_error = false;
                 let stp = self.the_states.get(stp);
 
                 // ignored_actions will be actions that do not participate in the compression.
@@ -1294,6 +1296,7 @@ impl Pomelo {
                         uses_wildcard = true;
                     }
                     match &ap.detail {
+                        Error => uses_error = true,
                         Reduce(rp) => {
                             if self.the_rules.get(rp).lhs_start {
                                 continue;
@@ -1329,10 +1332,10 @@ impl Pomelo {
                 }
 
                 /* Do not make a default if the number of rules to default
-                 ** is not at least 1 or if the wildcard token is a possible
-                 ** lookahead.
+                 ** is not at least 1, if the wildcard token is a possible
+                 ** lookahead or if there is a lookahead that is an error.
                  */
-                if nbest < 1 || uses_wildcard {
+                if nbest < 1 || uses_wildcard || uses_error {
                     continue;
                 }
                 let rbest = rbest.unwrap();
-- 
2.43.0


From b2a8e5e7b4df667801e61edebc52155f0d077b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 08/29] fix: an untyped fallback token with an alias accepts
 tokens of any type

---
 pomelo-impl/src/parser/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 362df70..6f795ff 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2975,7 +2975,13 @@ impl Pomelo {
         for (i, SymbolAlias(r, _, alias)) in rp.rhs.iter().enumerate() {
             let r = self.the_symbols.get(r);
             let yypi = Ident::new(&format!("yyp{}", i), Span::call_site());
-            yymatch.push(quote!(#yypi.minor));
+            if r.dt_num == 0 {
+                /* This symbol has no value, but the one in the stack may have: any token can be
+                 ** shifted as this one because of a %fallback */
+                yymatch.push(quote!(()));
+            } else {
+                yymatch.push(quote!(#yypi.minor));
+            }
             if let (Some(alias), MultiTerminal(ss)) = (alias, &r.typ) {
                 for or in &ss[1..] {
                     if r.dt_num != self.the_symbols.get(or).dt_num {
@@ -2990,17 +2996,19 @@ impl Pomelo {
 
         let mut yypattern = Vec::new();
         for SymbolAlias(r, _, alias) in &rp.rhs {
-            let yydt = Ident::new(
-                &format!("YY{}", self.the_symbols.get(r).dt_num),
-                Span::call_site(),
-            );
+            let dt_num = self.the_symbols.get(r).dt_num;
+            let yydt = Ident::new(&format!("YY{}", dt_num), Span::call_site());
             match alias {
                 Some(alias) => {
                     if Some(r) == self.wildcard.as_ref() {
                         return error_span(alias.span(), "Wildcard token must not have an alias");
                         //tested
                     }
-                    yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                    if dt_num == 0 {
+                        yypattern.push(quote!(#alias))
+                    } else {
+                        yypattern.push(quote!(YYMinorType::#yydt(#alias)))
+                    }
                 }
                 None => yypattern.push(quote!(_)),
             }
-- 
2.43.0


From c2181849fa88e41093a402e10832d2f293284383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:56 +0000
Subject: [PATCH 09/29] fix: resolve the types of the symbols before using them

A symbol that gets its type from %default_type, or from the tokens of its
class, was taken as untyped when it was optional, when its value was to be
forwarded and together with %extra_token.
---
 pomelo-impl/src/parser/mod.rs | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 6f795ff..2c18dd1 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -637,6 +637,18 @@ impl Pomelo {
             let start = self.the_rules.get(self.rules.first().unwrap()).lhs.0;
             self.start = Some(start);
         }
+        //Now that all the declarations are known, determine the type of each symbol.
+        let optionals: Vec<SymbolId> = self.optional_tokens.values().map(|l| l.0).collect();
+        for i in 0..=self.default_index {
+            let id = self.symbols[i];
+            if Some(id) == self.wildcard || optionals.contains(&id) {
+                continue;
+            }
+            let mut s = self.the_symbols.get_mut(id);
+            if s.data_type.is_none() {
+                s.data_type = self.default_type.clone();
+            }
+        }
         if let Some(extra_token) = &self.extra_token {
             for i in 1..self.num_terminals {
                 let mut s = self.the_symbols.get_mut(self.symbols[i]);
@@ -646,6 +658,17 @@ impl Pomelo {
                 }
             }
         }
+        //MultiTerminals have the type of the first child.
+        //The type of the children need be the same only if an alias is used, so we
+        //cannot check it here
+        for &id in &self.symbols[self.default_index + 1..] {
+            let first = match &self.the_symbols.get(id).typ {
+                MultiTerminal(ss) => *ss.first().unwrap(),
+                _ => unreachable!("MultiTerminals are the last symbols"),
+            };
+            let data_type = self.the_symbols.get(first).data_type.clone();
+            self.the_symbols.get_mut(id).data_type = data_type;
+        }
 
         //For every optional token T of type ty (a new non-terminal _t of type Option<ty> has already been created),
         //add two new rules:
@@ -2142,20 +2165,7 @@ impl Pomelo {
 
             let mut sp = self.the_symbols.get_mut(sp);
 
-            /* Determine the data_type of each symbol and fill its dt_num */
-            let data_type = match &sp.typ {
-                SymbolType::MultiTerminal(ss) => {
-                    //MultiTerminals have the type of the first child.
-                    //The type of the children need be the same only if an alias is used, so we
-                    //cannot check it here
-                    let first = self.the_symbols.get(ss.first().unwrap());
-                    first.data_type.clone()
-                }
-                SymbolType::Terminal => sp.data_type.clone(),
-                SymbolType::NonTerminal { .. } => sp.data_type.clone(),
-            };
-
-            sp.data_type = data_type.or_else(|| self.default_type.clone());
+            /* Fill the dt_num of each symbol */
             sp.dt_num = match &sp.data_type {
                 None => 0,
                 Some(cp) => {
-- 
2.43.0


From 30af9d1107ec351b68e635b7f24d563819b7a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 10/29] fix: %wildcard together with %extra_token

The wildcard was refused because of the type of %extra_token, as if it had
been declared with a type of its own.
---
 pomelo-impl/src/parser/mod.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 2c18dd1..7d81d3b 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -572,7 +572,7 @@ impl Pomelo {
         &self.module
     }
     pub fn build(&mut self) -> syn::Result<TokenStream> {
-        self.prepare();
+        self.prepare()?;
         self.find_rule_precedences();
         self.normalize_rules()?;
         self.find_first_sets();
@@ -596,7 +596,7 @@ impl Pomelo {
         Ok(src)
     }
 
-    fn prepare(&mut self) {
+    fn prepare(&mut self) -> syn::Result<()> {
         //First there are all the Terminals, the first one is $
         //Then the NonTerminals, the last one is {default}
         //And finally the MultiTerminals
@@ -637,6 +637,13 @@ impl Pomelo {
             let start = self.the_rules.get(self.rules.first().unwrap()).lhs.0;
             self.start = Some(start);
         }
+        if let Some(wildcard) = self.wildcard {
+            if let Some(dt) = &self.the_symbols.get(wildcard).data_type {
+                return error_span(dt.span(), "Wildcard token must not have a type");
+                //tested
+            }
+        }
+
         //Now that all the declarations are known, determine the type of each symbol.
         let optionals: Vec<SymbolId> = self.optional_tokens.values().map(|l| l.0).collect();
         for i in 0..=self.default_index {
@@ -703,6 +710,7 @@ impl Pomelo {
                 None,
             );
         }
+        Ok(())
     }
 
     /* Find a precedence symbol of every rule in the grammar.
@@ -760,7 +768,9 @@ impl Pomelo {
                         .rhs
                         .iter_mut()
                         .filter(|SymbolAlias(symbol, _, _)| {
-                            self.the_symbols.get(symbol).data_type.is_some()
+                            //The value of the wildcard cannot be used
+                            self.wildcard.as_ref() != Some(symbol)
+                                && self.the_symbols.get(symbol).data_type.is_some()
                         })
                         .collect::<Vec<_>>();
                     if let [SymbolAlias(_, _, alias)] = &mut rtyped[..] {
@@ -2122,12 +2132,7 @@ impl Pomelo {
         let yyactiontype = minimum_unsigned_type(self.states.len() + self.rules.len() + 5);
         let yynocode = (self.symbols.len()) as i32;
         let yywildcard = if let Some(wildcard) = self.wildcard {
-            let wildcard = self.the_symbols.get(wildcard);
-            if let Some(dt) = &wildcard.data_type {
-                return error_span(dt.span(), "Wildcard token must not have a type");
-                //tested
-            }
-            wildcard.index
+            self.the_symbols.get(wildcard).index
         } else {
             0
         };
@@ -2157,12 +2162,6 @@ impl Pomelo {
         let mut types = HashMap::<Type, usize>::new();
 
         for sp in &self.symbols {
-            if let Some(wildcard) = &self.wildcard {
-                if sp == wildcard {
-                    continue;
-                }
-            }
-
             let mut sp = self.the_symbols.get_mut(sp);
 
             /* Fill the dt_num of each symbol */
-- 
2.43.0


From bd298959bdc3011aa24bf04428f3c5386eeedfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 11/29] fix: generate the same code every time

The order of the rules of the optional symbols, and that of the types, was
that of a HashMap, so it changed from build to build.
---
 pomelo-impl/src/parser/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 7d81d3b..458c5da 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -256,7 +256,7 @@ pub struct Pomelo {
     has_fallback: bool,           //True if any %fallback is seen in the grammar
     default_type: Option<Type>,   //The %default_type
     start: Option<SymbolId>,
-    optional_tokens: HashMap<SymbolId, SymbolSpan>,
+    optional_tokens: Vec<(SymbolId, SymbolSpan)>,
     extra_token: Option<Type>,
     stack_type: Option<Type>,
     stack_limit: usize,
@@ -544,7 +544,7 @@ impl Pomelo {
             has_fallback: false,
             default_type: None,
             start: None,
-            optional_tokens: HashMap::new(),
+            optional_tokens: Vec::new(),
             extra_token: None,
             stack_type: None,
             stack_limit: 100,
@@ -645,7 +645,7 @@ impl Pomelo {
         }
 
         //Now that all the declarations are known, determine the type of each symbol.
-        let optionals: Vec<SymbolId> = self.optional_tokens.values().map(|l| l.0).collect();
+        let optionals: Vec<SymbolId> = self.optional_tokens.iter().map(|(_, l)| l.0).collect();
         for i in 0..=self.default_index {
             let id = self.symbols[i];
             if Some(id) == self.wildcard || optionals.contains(&id) {
@@ -681,7 +681,7 @@ impl Pomelo {
         //add two new rules:
         //  _n ::= T { None }
         //  _n ::= T(_A) { Some(_A) }
-        //We consume the optional_tokens map, it is no longer needed
+        //We consume the optional_tokens list, it is no longer needed
         let optional_tokens = std::mem::take(&mut self.optional_tokens);
         for (sym_r, SymbolSpan(sym_l, span)) in optional_tokens {
             let dt = self
@@ -2025,7 +2025,8 @@ impl Pomelo {
                             };
                             if optional {
                                 let sym_r = self.symbol_new_t(&tok, nst);
-                                if let Some(sym_l) = self.optional_tokens.get(&sym_r) {
+                                let sym_l = self.optional_tokens.iter().find(|(r, _)| *r == sym_r);
+                                if let Some((_, sym_l)) = sym_l {
                                     sym_l.clone()
                                 } else {
                                     let sym_l = self.symbol_new_s(
@@ -2033,7 +2034,7 @@ impl Pomelo {
                                         NewSymbolType::NonTerminal,
                                     );
                                     let sym_l = SymbolSpan(sym_l, tok.span());
-                                    self.optional_tokens.insert(sym_r, sym_l.clone());
+                                    self.optional_tokens.push((sym_r, sym_l.clone()));
                                     sym_l
                                 }
                             } else {
@@ -2227,7 +2228,9 @@ impl Pomelo {
             }
         };
 
-        let minor_types = types.iter().map(|(k, v)| {
+        let mut minor_types = types.iter().collect::<Vec<_>>();
+        minor_types.sort_by_key(|(_, v)| **v);
+        let minor_types = minor_types.into_iter().map(|(k, v)| {
             let ident = Ident::new(&format!("YY{}", v), Span::call_site());
             quote!(#ident(#k))
         });
-- 
2.43.0


From 53a8c7a062fe2252137b01c05a68640ae1204634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:02 +0000
Subject: [PATCH 12/29] fix: a compound symbol can be optional

The `?` of `A|B?` was silently ignored.
---
 pomelo-impl/src/parser/mod.rs | 48 ++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 458c5da..bbb81b0 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2023,22 +2023,11 @@ impl Pomelo {
                                     "Symbol must start with uppercase or lowercase letter",
                                 ); //tested
                             };
+                            let sym = self.symbol_new_t_span(&tok, nst);
                             if optional {
-                                let sym_r = self.symbol_new_t(&tok, nst);
-                                let sym_l = self.optional_tokens.iter().find(|(r, _)| *r == sym_r);
-                                if let Some((_, sym_l)) = sym_l {
-                                    sym_l.clone()
-                                } else {
-                                    let sym_l = self.symbol_new_s(
-                                        &format!("_{}", self.optional_tokens.len()),
-                                        NewSymbolType::NonTerminal,
-                                    );
-                                    let sym_l = SymbolSpan(sym_l, tok.span());
-                                    self.optional_tokens.push((sym_r, sym_l.clone()));
-                                    sym_l
-                                }
+                                self.optional_symbol(sym)
                             } else {
-                                self.symbol_new_t_span(&tok, nst)
+                                sym
                             }
                         } else {
                             let mt = self.symbol_new_s("", NewSymbolType::MultiTerminal);
@@ -2058,7 +2047,11 @@ impl Pomelo {
                             } else {
                                 unreachable!();
                             }
-                            SymbolSpan(mt, span)
+                            if optional {
+                                self.optional_symbol(SymbolSpan(mt, span))
+                            } else {
+                                SymbolSpan(mt, span)
+                            }
                         };
                         Ok(SymbolAlias(tok, span, alias))
                     })
@@ -2081,6 +2074,31 @@ impl Pomelo {
         Ok(())
     }
 
+    //Returns the non-terminal for the optional `sym`. There is only one for each symbol, and
+    //for all the compounds made of the same tokens.
+    fn optional_symbol(&mut self, SymbolSpan(sym, span): SymbolSpan) -> SymbolSpan {
+        let sym_l = self.optional_tokens.iter().find(|(r, _)| {
+            let (a, b) = (self.the_symbols.get(r), self.the_symbols.get(sym));
+            *r == sym
+                || match (&a.typ, &b.typ) {
+                    (MultiTerminal(ta), MultiTerminal(tb)) => {
+                        a.name.is_empty() && b.name.is_empty() && ta == tb
+                    }
+                    _ => false,
+                }
+        });
+        if let Some((_, sym_l)) = sym_l {
+            return sym_l.clone();
+        }
+        let sym_l = self.symbol_new_s(
+            &format!("_{}", self.optional_tokens.len()),
+            NewSymbolType::NonTerminal,
+        );
+        let sym_l = SymbolSpan(sym_l, span);
+        self.optional_tokens.push((sym, sym_l.clone()));
+        sym_l
+    }
+
     fn create_rule(
         &mut self,
         span: Span,
-- 
2.43.0


From d712d465ef947009b6ae378d48d599aca56d448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 13/29] fix: report a token_class used where a plain token is
 required

It was taken as a token that does not exist, so the class, precedence,
fallback or wildcard did not work or the macro panicked.
---
 pomelo-impl/src/parser/mod.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index bbb81b0..fe03c0b 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -265,6 +265,7 @@ pub struct Pomelo {
 
 struct ParserData {
     precedence: i32,
+    plain_tokens: Vec<SymbolSpan>, //Uses of tokens that cannot be classes
 }
 
 #[derive(Debug)]
@@ -554,12 +555,22 @@ impl Pomelo {
         pomelo.symbol_new("$", NewSymbolType::Terminal);
         pomelo.error_symbol = pomelo.symbol_new("error", NewSymbolType::NonTerminal);
 
-        let mut pdata = ParserData { precedence: 0 };
+        let mut pdata = ParserData {
+            precedence: 0,
+            plain_tokens: Vec::new(),
+        };
 
         for decl in decls {
             pomelo.parse_one_decl(&mut pdata, decl)?;
         }
 
+        //Any token can become a class in a later declaration, so check this when all are known
+        for SymbolSpan(sp, span) in pdata.plain_tokens {
+            if let MultiTerminal(_) = &pomelo.the_symbols.get(sp).typ {
+                return error_span(span, "A token_class cannot be used here");
+            }
+        }
+
         pomelo.symbol_new("{default}", NewSymbolType::NonTerminal);
 
         if pomelo.rules.is_empty() {
@@ -1850,6 +1861,7 @@ impl Pomelo {
                         ); //tested
                     }
                     let sp = self.symbol_new_t(&token, NewSymbolType::Terminal);
+                    pdt.plain_tokens.push(SymbolSpan(sp, token.span()));
                     let mut b = self.the_symbols.get_mut(sp);
                     match b.precedence {
                         Some(_) => {
@@ -1901,6 +1913,7 @@ impl Pomelo {
                         //tested
                     }
                     let sp = self.symbol_new_t(&id, NewSymbolType::Terminal);
+                    pdt.plain_tokens.push(SymbolSpan(sp, id.span()));
                     syms.push((id.span(), sp));
                 }
 
@@ -1909,6 +1922,7 @@ impl Pomelo {
                 }
 
                 let fallback = self.symbol_new_t(&fb, NewSymbolType::Terminal);
+                pdt.plain_tokens.push(SymbolSpan(fallback, fb.span()));
 
                 // Check that the new fallbacks do not create a fallback-loop.
                 // That would cause a stack overflow in runtime.
@@ -1943,6 +1957,7 @@ impl Pomelo {
                     return error_span(id.span(), "Wildcard must be a token"); //tested
                 }
                 let sp = self.symbol_new_t(&id, NewSymbolType::Terminal);
+                pdt.plain_tokens.push(SymbolSpan(sp, id.span()));
                 self.wildcard = Some(sp);
             }
             Decl::TokenClass(tk, ids) => {
@@ -1960,6 +1975,7 @@ impl Pomelo {
                         //tested
                     }
                     let sp = self.symbol_new_t(&id, NewSymbolType::Terminal);
+                    pdt.plain_tokens.push(SymbolSpan(sp, id.span()));
                     if let MultiTerminal(sub_sym) = &mut self.the_symbols.get_mut(tk).typ {
                         sub_sym.push(sp);
                     } else {
@@ -2040,7 +2056,9 @@ impl Pomelo {
                                         "Cannot form a compound containing a non-terminal",
                                     ); //tested
                                 }
-                                ss.push(self.symbol_new_t(&tok, NewSymbolType::Terminal));
+                                let sp = self.symbol_new_t(&tok, NewSymbolType::Terminal);
+                                pdt.plain_tokens.push(SymbolSpan(sp, tok.span()));
+                                ss.push(sp);
                             }
                             if let MultiTerminal(sub_sym) = &mut self.the_symbols.get_mut(mt).typ {
                                 sub_sym.extend(ss);
@@ -2063,7 +2081,9 @@ impl Pomelo {
                             return error_span(id.span(), "The precedence symbol must be a token");
                             //tested
                         }
-                        Some(self.symbol_new_t(id, NewSymbolType::Terminal))
+                        let sp = self.symbol_new_t(id, NewSymbolType::Terminal);
+                        pdt.plain_tokens.push(SymbolSpan(sp, id.span()));
+                        Some(sp)
                     }
                     None => None,
                 };
-- 
2.43.0


From 56190599e6211e4057d5ebd51bc286e5b3611d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 14/29] fix: report a duplicated %stack_size

It was accepted when the first one had no stack type.
---
 pomelo-impl/src/decl.rs       |  3 ++-
 pomelo-impl/src/lib.rs        |  6 ++++--
 pomelo-impl/src/parser/mod.rs | 19 +++++++++++--------
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pomelo-impl/src/decl.rs b/pomelo-impl/src/decl.rs
index 6b64df3..307e3e5 100644
--- a/pomelo-impl/src/decl.rs
+++ b/pomelo-impl/src/decl.rs
@@ -1,3 +1,4 @@
+use proc_macro2::Span;
 use syn::{Attribute, Block, Ident, Item, ItemEnum, ItemStruct, Pat, Type};
 
 #[derive(Debug, Copy, Clone)]
@@ -25,7 +26,7 @@ pub enum Decl {
     TokenClass(Ident, Vec<Ident>),
     Token(ItemEnum),
     ExtraToken(Type),
-    StackSize(usize, Option<Type>),
+    StackSize(Span, usize, Option<Type>),
     Parser(ItemStruct),
     Verbose,
     Rule {
diff --git a/pomelo-impl/src/lib.rs b/pomelo-impl/src/lib.rs
index 0da0d20..f954fd1 100644
--- a/pomelo-impl/src/lib.rs
+++ b/pomelo-impl/src/lib.rs
@@ -225,14 +225,16 @@ impl Parse for Decl {
             } else if lookahead.peek(kw::stack_size) {
                 // %stack_size limit [type];
                 input.parse::<kw::stack_size>()?;
-                let limit = input.parse::<LitInt>()?.base10_parse::<usize>()?;
+                let limit = input.parse::<LitInt>()?;
+                let span = limit.span();
+                let limit = limit.base10_parse::<usize>()?;
                 let typ = if input.peek(Token![;]) {
                     None
                 } else {
                     Some(input.parse()?)
                 };
                 input.parse::<Token![;]>()?;
-                Ok(Decl::StackSize(limit, typ))
+                Ok(Decl::StackSize(span, limit, typ))
             } else if lookahead.peek(kw::verbose) {
                 // %verbose;
                 input.parse::<kw::verbose>()?;
diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index fe03c0b..0bbac6d 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -259,7 +259,7 @@ pub struct Pomelo {
     optional_tokens: Vec<(SymbolId, SymbolSpan)>,
     extra_token: Option<Type>,
     stack_type: Option<Type>,
-    stack_limit: usize,
+    stack_limit: Option<usize>,
     verbose: bool,
 }
 
@@ -482,6 +482,9 @@ impl ActTab {
     }
 }
 
+//The value of %stack_size if it is not used
+const DEFAULT_STACK_LIMIT: usize = 100;
+
 fn minimum_signed_type(max: usize) -> Ident {
     if max < 0x80 {
         parse_quote!(i8)
@@ -548,7 +551,7 @@ impl Pomelo {
             optional_tokens: Vec::new(),
             extra_token: None,
             stack_type: None,
-            stack_limit: 100,
+            stack_limit: None,
             verbose: false,
         };
 
@@ -2002,11 +2005,11 @@ impl Pomelo {
                 }
                 self.extra_token = Some(ty);
             }
-            Decl::StackSize(limit, ty) => {
-                if self.stack_type.is_some() {
-                    return error_span(ty.span(), "Stack size already defined");
+            Decl::StackSize(span, limit, ty) => {
+                if self.stack_limit.is_some() {
+                    return error_span(span, "Stack size already defined");
                 }
-                self.stack_limit = limit;
+                self.stack_limit = Some(limit);
                 self.stack_type = ty;
             }
             Decl::Verbose => {
@@ -2181,7 +2184,7 @@ impl Pomelo {
             Some(ref ty) => Cow::Borrowed(ty),
             None => Cow::Owned(parse_quote!(std::vec::Vec)),
         };
-        let yystacklimit = self.stack_limit;
+        let yystacklimit = self.stack_limit.unwrap_or(DEFAULT_STACK_LIMIT);
 
         src.extend(quote! {
             const YYNOCODE: i32 = #yynocode;
@@ -2257,7 +2260,7 @@ impl Pomelo {
             Some(ref c) => Cow::Borrowed(c),
             None => {
                 //stack_limit == 0, means unlimited, so the code will never be called
-                let c = if self.stack_limit == 0 {
+                let c = if yystacklimit == 0 {
                     parse_quote!({ unreachable!() })
                 } else {
                     parse_quote!({ Default::default() })
-- 
2.43.0


From 1f5540ee6b8b2b8b4cfcfa7b8bb70fdcf5e695e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:26 +0000
Subject: [PATCH 15/29] fix: report a duplicated %module

---
 pomelo-impl/src/parser/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 0bbac6d..ec1b4e2 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -236,7 +236,7 @@ pub struct Pomelo {
     the_states: VecRef<State>,   //Unsorted list of states
     the_rules: VecRef<Rule>,     //Unsorted list of all rules
     the_configs: VecRef<Config>, //Unsorted list of configs,
-    module: Ident,
+    module: Option<Ident>,
     includes: Vec<Item>,
     syntax_error: Option<Block>,
     parse_fail: Option<Block>,
@@ -528,7 +528,7 @@ impl Pomelo {
             the_states: VecRef::new(),
             the_rules: VecRef::new(),
             the_configs: VecRef::new(),
-            module: parse_quote!(parser),
+            module: None,
             includes: Vec::new(),
             syntax_error: None,
             parse_fail: None,
@@ -582,8 +582,10 @@ impl Pomelo {
 
         Ok(pomelo)
     }
-    pub fn module_name(&self) -> &Ident {
-        &self.module
+    pub fn module_name(&self) -> Ident {
+        self.module
+            .clone()
+            .unwrap_or_else(|| parse_quote!(parser))
     }
     pub fn build(&mut self) -> syn::Result<TokenStream> {
         self.prepare()?;
@@ -1805,7 +1807,10 @@ impl Pomelo {
         //println!("PARSE {:?}", decl);
         match decl {
             Decl::Module(id) => {
-                self.module = id;
+                if self.module.is_some() {
+                    return error_span(id.span(), "Module name already defined");
+                }
+                self.module = Some(id);
             }
             Decl::Include(code) => {
                 self.includes.extend(code);
-- 
2.43.0


From b92bdb61aa1e8c73660694ee74a6c191bc122535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 16/29] fix: do not use std in a parser with a custom stack

The README says that such a parser can be no_std.
---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index ec1b4e2..528d38e 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2719,7 +2719,7 @@ impl Pomelo {
             struct ExpectedTokens #yy_generics_impl #yy_generics_where {
                 stateno: i32,
                 yy_major: i32,
-                _phantom: ::std::marker::PhantomData<Parser #yy_generics>,
+                _phantom: ::core::marker::PhantomData<Parser #yy_generics>,
             }
 
             struct ExpectedToken #yy_generics_impl_token #yy_generics_where_token {
@@ -2732,7 +2732,7 @@ impl Pomelo {
                 type Item = ExpectedToken #yy_generics_token;
 
                 fn next(&mut self) -> Option<Self::Item> {
-                    use std::convert::TryFrom;
+                    use ::core::convert::TryFrom;
                     loop {
                         let yy_major = self.yy_major;
                         let name = *YY_TOKEN_NAMES.get(usize::try_from(yy_major).unwrap())?;
@@ -2789,7 +2789,7 @@ impl Pomelo {
                         let expected = ExpectedTokens {
                             stateno: yy.yystack.last().unwrap().stateno,
                             yy_major: 1,
-                            _phantom: ::std::marker::PhantomData,
+                            _phantom: ::core::marker::PhantomData,
                         };
 
                         if YYERRORSYMBOL != 0 {
-- 
2.43.0


From 395f19bcb4c71d83423a665d3618bea32e888d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 17/29] fix: choose the type of the offset tables by their
 lowest value too

The offsets are negative when there are more than 128 terminals, and they
were silently truncated when none of them was above 127.
---
 pomelo-impl/src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 528d38e..377c876 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2520,7 +2520,7 @@ impl Pomelo {
         src.extend(quote!(const YY_SHIFT_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_SHIFT_MIN: i32 = #min_tkn_ofst;));
         src.extend(quote!(const YY_SHIFT_MAX: i32 = #max_tkn_ofst;));
-        let yy_shift_ofst_type = minimum_signed_type(max_tkn_ofst as usize);
+        let yy_shift_ofst_type = minimum_signed_type(cmp::max(max_tkn_ofst, -yy_shift_use_dflt) as usize);
         let yy_shift_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
@@ -2542,7 +2542,7 @@ impl Pomelo {
         src.extend(quote!(const YY_REDUCE_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_REDUCE_MIN: i32 = #min_nt_ofst;));
         src.extend(quote!(const YY_REDUCE_MAX: i32 = #max_nt_ofst;));
-        let yy_reduce_ofst_type = minimum_signed_type(max_nt_ofst as usize);
+        let yy_reduce_ofst_type = minimum_signed_type(cmp::max(max_nt_ofst, -yy_reduce_use_dflt) as usize);
         let yy_reduce_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
-- 
2.43.0


From 3b3c46d332373b9f08714b265799890690e24361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 18/29] fix: do not recurse to build the states

The macro overflowed its stack, killing the compiler, when the longest
path of states was of some thousands.
---
 pomelo-impl/src/parser/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 377c876..288fa52 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -933,14 +933,19 @@ impl Pomelo {
                 self.the_configs.get_mut(cfg).fws.insert(0);
             }
         }
+        /* Compute the first state.  All the other ones are added to the list while computing
+         ** the successors of those already there. */
         self.get_state(basis.clone(), basis)?;
+        let mut i = 0;
+        while i < self.states.len() {
+            self.build_shifts(self.states[i])?;
+            i += 1;
+        }
 
         Ok(())
     }
 
-    /* Compute the first state.  All other states will be
-     ** computed automatically during the computation of the first one.
-     ** The returned pointer to the first state is not used. */
+    /* Get the state with the given basis, adding it if it does not exist. */
     fn get_state(&mut self, mut bp: Vec<ConfigId>, cur: Vec<ConfigId>) -> syn::Result<StateId> {
         bp.sort_by(|a, b| config_cmp(self, *a, *b));
         /* Get a state with the same basis */
@@ -973,7 +978,6 @@ impl Pomelo {
                 };
                 let id = self.the_states.push(stp);
                 self.states.push(id);
-                self.build_shifts(id)?;
                 Ok(id)
             }
         }
-- 
2.43.0


From f23284aaf5a132b0a80a3b1ff4689714bbf7f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 19/29] fix: compounds and classes that share tokens can follow
 the same dot

There was a shift/shift conflict reported for the tokens in more than one
of them, even for the same compound written in two rules, although the
grammar has no conflict.
---
 pomelo-impl/src/parser/mod.rs | 96 ++++++++++++++---------------------
 1 file changed, 38 insertions(+), 58 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 288fa52..745cf34 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -986,53 +986,47 @@ impl Pomelo {
      ** state is any state which can be reached by a shift action.
      */
     fn build_shifts(&mut self, state: StateId) -> syn::Result<()> {
-        /* Each configuration becomes complete after it contibutes to a successor
-         ** state.  Initially, all configurations are incomplete */
-
+        /* Collect the symbols that can follow a dot in this state.  A MultiTerminal is as if there
+         ** were a configuration for each of its tokens. */
+        let mut next: Vec<SymbolId> = Vec::new();
+        let mut next_configs: HashMap<usize, Vec<ConfigId>> = HashMap::new();
         for cfp in &self.the_states.get(state).configs {
-            self.the_configs.get_mut(cfp).status = CfgStatus::Incomplete;
-        }
-        let mut aps = Vec::new();
-        /* Loop through all configurations of the state "stp" */
-        let configs = self.the_states.get(state).configs.clone();
-        for (icfp, cfp) in configs.iter().enumerate() {
-            let cfp = self.the_configs.get(cfp);
-            if let CfgStatus::Complete = cfp.status {
-                continue;
-            } /* Already used by inner loop */
-            if cfp.dot >= self.the_rules.get(cfp.rule).rhs.len() {
+            let cfg = self.the_configs.get(cfp);
+            let rule = self.the_rules.get(cfg.rule);
+            if cfg.dot >= rule.rhs.len() {
                 continue;
             } /* Can't shift this config */
-            let SymbolAlias(sp, ..) = self.the_rules.get(cfp.rule).rhs[cfp.dot]; /* Symbol after the dot */
-            let mut basis = Vec::new();
-            drop(cfp);
+            let SymbolAlias(sp, ..) = rule.rhs[cfg.dot]; /* Symbol after the dot */
+            let sub_sym = match &self.the_symbols.get(sp).typ {
+                MultiTerminal(sub_sym) => sub_sym.clone(),
+                _ => vec![sp],
+            };
+            for ss in sub_sym {
+                let index = self.the_symbols.get(ss).index;
+                let cfgs = next_configs.entry(index).or_default();
+                if cfgs.is_empty() {
+                    next.push(ss);
+                }
+                if cfgs.last() != Some(cfp) {
+                    cfgs.push(*cfp);
+                }
+            }
+        }
 
+        let mut aps = Vec::new();
+        for sp in next {
             /* For every configuration in the state "stp" which has the symbol "sp"
              ** following its dot, add the same configuration to the basis set under
              ** construction but with the dot shifted one symbol to the right. */
-            let state_configs = self.the_states.get(state).configs[icfp..].to_owned();
-            for bcfp_ in state_configs {
-                let rule;
-                let dot;
-                {
-                    let bcfp = self.the_configs.get(bcfp_);
-                    if let CfgStatus::Complete = bcfp.status {
-                        continue;
-                    } /* Already used */
-                    if bcfp.dot >= self.the_rules.get(bcfp.rule).rhs.len() {
-                        continue;
-                    } /* Can't shift this one */
-                    let SymbolAlias(bsp, ..) = self.the_rules.get(bcfp.rule).rhs[bcfp.dot]; /* Get symbol after dot */
-                    if bsp != sp {
-                        continue;
-                    } /* Must be same as for "cfp" */
-                    rule = bcfp.rule;
-                    dot = bcfp.dot + 1;
-                }
+            let mut basis = Vec::new();
+            let index = self.the_symbols.get(sp).index;
+            for cfp in &next_configs[&index] {
+                let (rule, dot) = {
+                    let cfg = self.the_configs.get(cfp);
+                    (cfg.rule, cfg.dot + 1)
+                };
                 let newcfg = self.add_config(&mut basis, rule, dot);
-
-                self.the_configs.get_mut(bcfp_).status = CfgStatus::Complete; /* Mark this config as used */
-                self.the_configs.get_mut(newcfg).bplp.push(bcfp_);
+                self.the_configs.get_mut(newcfg).bplp.push(*cfp);
             }
 
             /* Get a pointer to the state described by the basis configuration set
@@ -1041,25 +1035,11 @@ impl Pomelo {
 
             /* The state "newstp" is reached from the state "stp" by a shift action
              ** on the symbol "sp" */
-            let bsp = self.the_symbols.get(sp);
-            match &bsp.typ {
-                MultiTerminal(sub_sym) => {
-                    for ss in sub_sym {
-                        let detail = ActionDetail::Shift(newstp);
-                        aps.push(RefCell::new(Action {
-                            look_ahead: *ss,
-                            detail,
-                        }));
-                    }
-                }
-                _ => {
-                    let detail = ActionDetail::Shift(newstp);
-                    aps.push(RefCell::new(Action {
-                        look_ahead: sp,
-                        detail,
-                    }));
-                }
-            }
+            let detail = ActionDetail::Shift(newstp);
+            aps.push(RefCell::new(Action {
+                look_ahead: sp,
+                detail,
+            }));
         }
         self.the_states.get_mut(state).actions.extend(aps);
 
-- 
2.43.0


From e0114e0f01dae5874355adf0b4aa08f0334710e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 20/29] fix: an untyped start symbol when another symbol has
 type ()

The parser panicked when the input was accepted.
---
 pomelo-impl/src/parser/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 745cf34..1f69fa9 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2959,8 +2959,12 @@ impl Pomelo {
         }
         yyrules.push(quote!(_ => unreachable!("no rule to apply")));
 
-        let accept_code = match types.get(yyroottype) {
-            Some(n) => {
+        let accept_code = match start.dt_num {
+            0 => quote!(
+                yy.yystatus = YYStatus::Accepted(());
+                yy.yystack.clear();
+            ),
+            n => {
                 let yyroot = Ident::new(&format!("YY{}", n), Span::call_site());
                 quote!(
                     if let YYMinorType::#yyroot(root) = yygotominor {
@@ -2971,10 +2975,6 @@ impl Pomelo {
                     }
                 )
             }
-            None => quote!(
-                yy.yystatus = YYStatus::Accepted(());
-                yy.yystack.clear();
-            ),
         };
 
         let yyreduce_fn = quote!(
-- 
2.43.0


From 927348dbcf9f48dbcaf9187f967044d131f1b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 21/29] fix: %extra_token in a grammar without tokens

---
 pomelo-impl/src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 1f69fa9..ee8c15d 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2440,6 +2440,10 @@ impl Pomelo {
         ));
 
         if let Some(extra_token) = &self.extra_token {
+            if token_extra.is_empty() {
+                //A reference to an empty enum cannot be matched without arms
+                token_extra.push(quote!(_ => unreachable!("there are no tokens")));
+            }
             let token_extra = &token_extra; //so that we can use the same array several times
             src.extend(quote!(
                 impl #yy_generics_impl_token Token #yy_generics_token #yy_generics_where_token
-- 
2.43.0


From 388c6f8d217063a78c324d5d83aa0e868da8754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 22/29] fix: an optional symbol without alias does not need a
 value

The wildcard and a compound of tokens of different types were refused when
optional, because of the alias of a generated rule.
---
 pomelo-impl/src/parser/mod.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index ee8c15d..2274caa 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -700,6 +700,38 @@ impl Pomelo {
         //We consume the optional_tokens list, it is no longer needed
         let optional_tokens = std::mem::take(&mut self.optional_tokens);
         for (sym_r, SymbolSpan(sym_l, span)) in optional_tokens {
+            //The wildcard, and the compounds of tokens of different types, can be optional, but
+            //they have no value and they cannot have an alias.
+            let no_value = if Some(sym_r) == self.wildcard {
+                Some("Wildcard token must not have an alias")
+            } else {
+                match &self.the_symbols.get(sym_r).typ {
+                    MultiTerminal(ss)
+                        if ss.iter().any(|s| {
+                            self.the_symbols.get(s).data_type
+                                != self.the_symbols.get(ss[0]).data_type
+                        }) =>
+                    {
+                        Some("Compound tokens with an alias must all have the same type")
+                    }
+                    _ => None,
+                }
+            };
+            if let Some(msg) = no_value {
+                for rp in &self.rules {
+                    for SymbolAlias(r, _, alias) in &self.the_rules.get(rp).rhs {
+                        if let (true, Some(alias)) = (*r == sym_l, alias) {
+                            return error_span(alias.span(), msg);
+                        }
+                    }
+                }
+                let sym_l = SymbolSpan(sym_l, span);
+                let rhs = SymbolAlias(sym_r, span, None);
+                self.create_rule(span, sym_l.clone(), vec![], None, None);
+                self.create_rule(span, sym_l, vec![rhs], None, None);
+                continue;
+            }
+
             let dt = self
                 .the_symbols
                 .get(sym_r)
-- 
2.43.0


From e71fb352ac940a3d8c5e222cef2a6b5574eaee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 23/29] fix: a compound that contains the wildcard cannot have
 an alias

The parser panicked if the wildcard was matched by a token of another type,
as can happen with %extra_token.
---
 pomelo-impl/src/parser/mod.rs | 54 ++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 2274caa..3459b5a 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -702,22 +702,7 @@ impl Pomelo {
         for (sym_r, SymbolSpan(sym_l, span)) in optional_tokens {
             //The wildcard, and the compounds of tokens of different types, can be optional, but
             //they have no value and they cannot have an alias.
-            let no_value = if Some(sym_r) == self.wildcard {
-                Some("Wildcard token must not have an alias")
-            } else {
-                match &self.the_symbols.get(sym_r).typ {
-                    MultiTerminal(ss)
-                        if ss.iter().any(|s| {
-                            self.the_symbols.get(s).data_type
-                                != self.the_symbols.get(ss[0]).data_type
-                        }) =>
-                    {
-                        Some("Compound tokens with an alias must all have the same type")
-                    }
-                    _ => None,
-                }
-            };
-            if let Some(msg) = no_value {
+            if let Some(msg) = self.no_alias(sym_r) {
                 for rp in &self.rules {
                     for SymbolAlias(r, _, alias) in &self.the_rules.get(rp).rhs {
                         if let (true, Some(alias)) = (*r == sym_l, alias) {
@@ -761,6 +746,26 @@ impl Pomelo {
         Ok(())
     }
 
+    //If the symbol cannot have an alias, because the type of its value is not known, returns why
+    fn no_alias(&self, sym: SymbolId) -> Option<&'static str> {
+        let sym = std::slice::from_ref(&sym);
+        let symbol = self.the_symbols.get(sym[0]);
+        let tokens = match &symbol.typ {
+            MultiTerminal(ss) => ss,
+            _ => sym,
+        };
+        let first = self.the_symbols.get(tokens[0]);
+        for token in tokens {
+            if Some(token) == self.wildcard.as_ref() {
+                return Some("Wildcard token must not have an alias"); //tested
+            }
+            if self.the_symbols.get(token).data_type != first.data_type {
+                return Some("Compound tokens with an alias must all have the same type"); //tested
+            }
+        }
+        None
+    }
+
     /* Find a precedence symbol of every rule in the grammar.
      **
      ** Those rules which have a precedence symbol coded in the input
@@ -3050,7 +3055,7 @@ impl Pomelo {
         let yyrestype = lhs.data_type.as_ref().unwrap_or(&unit_type);
 
         let mut yymatch = Vec::new();
-        for (i, SymbolAlias(r, _, alias)) in rp.rhs.iter().enumerate() {
+        for (i, SymbolAlias(r, ..)) in rp.rhs.iter().enumerate() {
             let r = self.the_symbols.get(r);
             let yypi = Ident::new(&format!("yyp{}", i), Span::call_site());
             if r.dt_num == 0 {
@@ -3060,16 +3065,6 @@ impl Pomelo {
             } else {
                 yymatch.push(quote!(#yypi.minor));
             }
-            if let (Some(alias), MultiTerminal(ss)) = (alias, &r.typ) {
-                for or in &ss[1..] {
-                    if r.dt_num != self.the_symbols.get(or).dt_num {
-                        return error_span(
-                            alias.span(),
-                            "Compound tokens with an alias must all have the same type",
-                        ); //tested
-                    }
-                }
-            }
         }
 
         let mut yypattern = Vec::new();
@@ -3078,9 +3073,8 @@ impl Pomelo {
             let yydt = Ident::new(&format!("YY{}", dt_num), Span::call_site());
             match alias {
                 Some(alias) => {
-                    if Some(r) == self.wildcard.as_ref() {
-                        return error_span(alias.span(), "Wildcard token must not have an alias");
-                        //tested
+                    if let Some(msg) = self.no_alias(*r) {
+                        return error_span(alias.span(), msg);
                     }
                     if dt_num == 0 {
                         yypattern.push(quote!(#alias))
-- 
2.43.0


From c1870406526c74097a74bc1c9ef3d6c04b5c9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 24/29] fix: parameters of Token and Parser may have different
 bounds

---
 pomelo-impl/src/parser/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 3459b5a..e195198 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -9,7 +9,7 @@ use crate::decl::*;
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::ToTokens;
 use syn::{
-    Attribute, Block, Fields, Ident, Item, ItemEnum, ItemStruct, Pat, Type, Variant,
+    Attribute, Block, Fields, GenericParam, Ident, Item, ItemEnum, ItemStruct, Pat, Type, Variant,
     spanned::Spanned,
 };
 
@@ -513,6 +513,16 @@ fn error_span<T>(span: Span, msg: &'static str) -> syn::Result<T> {
     Err(syn::Error::new(span, msg))
 }
 
+//Do they declare the same parameter? The bounds and the default may be different
+fn is_same_param(a: &GenericParam, b: &GenericParam) -> bool {
+    match (a, b) {
+        (GenericParam::Lifetime(a), GenericParam::Lifetime(b)) => a.lifetime == b.lifetime,
+        (GenericParam::Type(a), GenericParam::Type(b)) => a.ident == b.ident,
+        (GenericParam::Const(a), GenericParam::Const(b)) => a.ident == b.ident,
+        _ => false,
+    }
+}
+
 fn is_terminal_ident(id: &Ident) -> bool {
     id.to_string().chars().next().unwrap().is_ascii_uppercase()
 }
@@ -2267,7 +2277,7 @@ impl Pomelo {
         }
 
         for g in yytoken.generics.params.iter() {
-            if !yyparser.generics.params.iter().any(|p| p == g) {
+            if !yyparser.generics.params.iter().any(|p| is_same_param(p, g)) {
                 return error_span(g.span(), "Generic parameter in Token is not in Parser");
                 //tested
             }
-- 
2.43.0


From 6e45c26f91a8842c672b8f8bf3b91dd93aff6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:16 +0000
Subject: [PATCH 25/29] fix: a generic parameter may be used just in the error
 type

---
 pomelo-impl/src/parser/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e195198..32b5e4e 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2311,11 +2311,14 @@ impl Pomelo {
             let ident = Ident::new(&format!("YY{}", v), Span::call_site());
             quote!(#ident(#k))
         });
+        //The error type is not stored anywhere, but it may be the only use of a generic parameter
+        let unit_type: Type = parse_quote!(());
+        let yyerrtype = self.err_type.as_ref().unwrap_or(&unit_type);
         src.extend(quote!(
             enum YYMinorType #yy_generics_impl
                 #yy_generics_where
             {
-                YY_(::core::marker::PhantomData<Parser #yy_generics>),
+                YY_(::core::marker::PhantomData<(Parser #yy_generics, fn() -> #yyerrtype)>),
                 YY0(()),
                 #(#minor_types),*
             }
@@ -2645,11 +2648,9 @@ impl Pomelo {
             quote!(static YY_RULE_INFO: [#yycodetype; #yy_rule_info_len] = [ #(#yy_rule_info),* ];),
         );
 
-        let unit_type: Type = parse_quote!(());
         let yyextratype = self.arg.as_ref().unwrap_or(&unit_type);
         let start = self.the_symbols.get(self.start.unwrap());
         let yyroottype = start.data_type.as_ref().unwrap_or(&unit_type);
-        let yyerrtype = self.err_type.as_ref().unwrap_or(&unit_type);
 
         let parser_fields = parse_quote!({
             error_count: u8, /* Shift since last error */
-- 
2.43.0


From 1f57c213c9b3d048d2f5a3ac4b6dbca89be6a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 26/29] fix: a non-associative token competes with every other
 reduction

When a token and a rule of the same %nonassoc precedence were possible together
with a second rule, both the error and the second reduction stayed in the state
for that token, and the reduction was taken even with a lower precedence.
---
 pomelo-impl/src/parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 32b5e4e..92a8fdd 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1290,6 +1290,18 @@ impl Pomelo {
                     _ => (true, Reduce(x), RRConflict(y)),
                 }
             }
+            /* A non-associative token competes with any other reduction, just as the SHIFT it
+             ** comes from would do */
+            (Error, Reduce(y)) => {
+                let precx = self.the_symbols.get(apx.look_ahead).precedence;
+                let precy = self.the_rules.get(y).precedence;
+
+                match (precx, precy) {
+                    (Some(px), Some(py)) if px.0 < py.0 => (false, NotUsed, Reduce(y)),
+                    (Some(_), Some(_)) => (false, Error, RDResolved(y)),
+                    _ => (true, Error, SRConflict(y)),
+                }
+            }
             /* The REDUCE/SHIFT case cannot happen because SHIFTs come before
              ** REDUCEs on the list.  If we reach this point it must be because
              ** the parser conflict had already been resolved. */
-- 
2.43.0


From acb0a7f4db3a98a7d6148e1e824e0ef46661cdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:36 +0000
Subject: [PATCH 27/29] fix: a reduction that precedence leaves out is no
 conflict

With three rules that can be reduced for the same token, two of them of the same
precedence and the third one above, the grammar was refused or accepted
depending on the order of the rules.
---
 pomelo-impl/src/parser/mod.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 92a8fdd..3d0fb92 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1205,11 +1205,20 @@ impl Pomelo {
                 action_cmp(&self.the_symbols, &self.the_states, &self.the_rules, a, b)
             });
             let stp = self.the_states.get(stp);
-            let len = stp.actions.len();
-            for i in 0..len {
-                let ap = &stp.actions[i];
-                for j in i + 1..len {
-                    let nap = &stp.actions[j];
+            /* The reductions of higher precedence go first: what they leave out cannot conflict */
+            let mut actions = stp.actions.iter().collect::<Vec<_>>();
+            actions.sort_by_key(|ap| {
+                let ap = ap.borrow();
+                let prec = match &ap.detail {
+                    ActionDetail::Reduce(rp) => {
+                        Some(cmp::Reverse(self.the_rules.get(rp).precedence.map(|p| p.0)))
+                    }
+                    _ => None,
+                };
+                (self.the_symbols.get(ap.look_ahead).index, prec)
+            });
+            for (i, ap) in actions.iter().enumerate() {
+                for nap in &actions[i + 1..] {
                     if ap.borrow().look_ahead == nap.borrow().look_ahead {
                         /* The two actions "ap" and "nap" have the same lookahead.
                          ** Figure out which one should be used */
-- 
2.43.0


From 0b8e77c7d48ec7e26f58aecfda9c9a1fa54985d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:53 +0000
Subject: [PATCH 28/29] fix: derives of the parser are forwarded to the types
 of its private fields

The documentation says that %parser can be used to add auto-derive traits,
but a derived Clone, Debug, PartialEq... never compiled, because the stack
entries and the status of the parser did not have the trait.
---
 pomelo-impl/src/parser/mod.rs | 36 +++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 3d0fb92..da4f8a2 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -9,8 +9,8 @@ use crate::decl::*;
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::ToTokens;
 use syn::{
-    Attribute, Block, Fields, GenericParam, Ident, Item, ItemEnum, ItemStruct, Pat, Type, Variant,
-    spanned::Spanned,
+    Attribute, Block, Fields, GenericParam, Ident, Item, ItemEnum, ItemStruct, Pat, Path, Type,
+    Variant, punctuated::Punctuated, spanned::Spanned,
 };
 
 mod vecref;
@@ -27,6 +27,33 @@ enum NewSymbolType {
 #[derive(Debug, Copy, Clone)]
 struct Precedence(i32, Associativity);
 
+//The standard traits derived for the parser: the private types of its fields must derive them too
+fn derived_traits(attrs: &[Attribute]) -> Vec<Path> {
+    const TRAITS: [&str; 7] = [
+        "Clone",
+        "Debug",
+        "PartialEq",
+        "Eq",
+        "PartialOrd",
+        "Ord",
+        "Hash",
+    ];
+    attrs
+        .iter()
+        .filter(|attr| attr.path().is_ident("derive"))
+        .filter_map(|attr| {
+            attr.parse_args_with(Punctuated::<Path, syn::Token![,]>::parse_terminated)
+                .ok()
+        })
+        .flatten()
+        .filter(|path| {
+            path.segments
+                .last()
+                .is_some_and(|name| TRAITS.iter().any(|t| name.ident == t))
+        })
+        .collect()
+}
+
 fn precedence_cmp(a: Precedence, b: Precedence) -> Ordering {
     match a.0.cmp(&b.0) {
         Ordering::Equal => match a.1 {
@@ -2335,7 +2362,10 @@ impl Pomelo {
         //The error type is not stored anywhere, but it may be the only use of a generic parameter
         let unit_type: Type = parse_quote!(());
         let yyerrtype = self.err_type.as_ref().unwrap_or(&unit_type);
+        let yyderives = derived_traits(&yyparser.attrs);
+        let yyderives = quote!(#[derive(#(#yyderives),*)]);
         src.extend(quote!(
+            #yyderives
             enum YYMinorType #yy_generics_impl
                 #yy_generics_where
             {
@@ -2682,6 +2712,7 @@ impl Pomelo {
         yyparser.fields = syn::Fields::Named(parser_fields);
 
         src.extend(quote! {
+            #yyderives
             struct YYStackEntry #yy_generics_impl #yy_generics_where
             {
                 stateno: i32,   /* The state-number */
@@ -2691,6 +2722,7 @@ impl Pomelo {
                                                      ** is the value of the token  */
             }
 
+            #yyderives
             enum YYStatus<T> {
                 Normal,
                 Failed,
-- 
2.43.0


From f687fb681ff1a380bcbf9add9cc90175835b8043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:40 +0000
Subject: [PATCH 29/29] fix: the first rule is the one taken in a reported
 reduce/reduce conflict

Reductions were sorted by precedence, those without any last, even where
the order of the grammar decides. Only the report shows the difference.
---
 pomelo-impl/src/parser/mod.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index da4f8a2..108fb2e 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1232,17 +1232,31 @@ impl Pomelo {
                 action_cmp(&self.the_symbols, &self.the_states, &self.the_rules, a, b)
             });
             let stp = self.the_states.get(stp);
-            /* The reductions of higher precedence go first: what they leave out cannot conflict */
+            /* The reductions of higher precedence go first: what they leave out cannot conflict.
+             ** But if any of them has no precedence, the one that appears first in the grammar does */
+            let look_ahead =
+                |ap: &RefCell<Action>| self.the_symbols.get(ap.borrow().look_ahead).index;
+            let reduce_prec = |ap: &RefCell<Action>| match &ap.borrow().detail {
+                ActionDetail::Reduce(rp) => {
+                    Some(self.the_rules.get(rp).precedence.map(|p| cmp::Reverse(p.0)))
+                }
+                _ => None,
+            };
+            let unordered = stp
+                .actions
+                .iter()
+                .filter(|ap| reduce_prec(ap) == Some(None))
+                .map(look_ahead)
+                .collect::<BTreeSet<_>>();
             let mut actions = stp.actions.iter().collect::<Vec<_>>();
             actions.sort_by_key(|ap| {
-                let ap = ap.borrow();
-                let prec = match &ap.detail {
-                    ActionDetail::Reduce(rp) => {
-                        Some(cmp::Reverse(self.the_rules.get(rp).precedence.map(|p| p.0)))
-                    }
-                    _ => None,
+                let la = look_ahead(ap);
+                let prec = if unordered.contains(&la) {
+                    None
+                } else {
+                    reduce_prec(ap)
                 };
-                (self.the_symbols.get(ap.look_ahead).index, prec)
+                (la, prec)
             });
             for (i, ap) in actions.iter().enumerate() {
                 for nap in &actions[i + 1..] {
-- 
2.43.0

