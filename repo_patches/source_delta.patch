From 0878f1071a76b4bb7ba46610f8ca268a5cd4c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:18 +0000
Subject: [PATCH 1/9] fix: production! and grammar! keep alternatives and
 productions in source order

---
 src/grammar.rs    | 6 +++---
 src/production.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index dc06482..2e63a8e 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -838,7 +838,7 @@ macro_rules! grammar {
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$curr_lhs:ident] $($prev_prods:tt)*] ; <$next_lhs:ident> ::= $($rest:tt)*) => {
         {
             // Save current production and start next one
-            $crate::grammar!(@collect_prods [[] [] [$next_lhs] [[$($curr_terms),*] $($curr_exprs)*] [$curr_lhs] $($prev_prods)*] $($rest)*)
+            $crate::grammar!(@collect_prods [[] [] [$next_lhs] $($prev_prods)* [$($curr_exprs)* [$($curr_terms),*]] [$curr_lhs]] $($rest)*)
         }
     };
 
@@ -849,7 +849,7 @@ macro_rules! grammar {
 
     // Hit | within a production - finish current expression, start new one
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$lhs:ident] $($prev_prods:tt)*] | $($rest:tt)*) => {
-        $crate::grammar!(@collect_prods [[] [[$($curr_terms),*] $($curr_exprs)*] [$lhs] $($prev_prods)*] $($rest)*)
+        $crate::grammar!(@collect_prods [[] [$($curr_exprs)* [$($curr_terms),*]] [$lhs] $($prev_prods)*] $($rest)*)
     };
 
     // Collect a literal term
@@ -869,7 +869,7 @@ macro_rules! grammar {
             {
                 let mut prods = vec![];
 
-                // Build previous productions (in reverse order since we accumulated backwards)
+                // Build previous productions in source order
                 $(
                     let mut exprs = vec![];
                     $crate::grammar!(@build_exprs exprs $($prod_exprs)*);
diff --git a/src/production.rs b/src/production.rs
index 3f8b832..9d30118 100644
--- a/src/production.rs
+++ b/src/production.rs
@@ -144,7 +144,7 @@ macro_rules! production {
 
     // Hit | separator - finish current expression group, start new one
     (@collect_exprs [[$($current:expr),*] $($prev_exprs:tt)*] | $($rest:tt)*) => {
-        $crate::production!(@collect_exprs [[] [$($current),*] $($prev_exprs)*] $($rest)*)
+        $crate::production!(@collect_exprs [[] $($prev_exprs)* [$($current),*]] $($rest)*)
     };
 
     // Collect a literal term into current expression
@@ -163,7 +163,7 @@ macro_rules! production {
             #[allow(clippy::vec_init_then_push)]
             {
                 let mut exprs = vec![];
-                // Add previous expressions in reverse order (they were accumulated backwards)
+                // Add previous expressions in source order
                 $(exprs.push($crate::Expression::from_parts(vec![$($prev),*]));)*
                 // Add the last expression
                 exprs.push($crate::Expression::from_parts(vec![$($last),*]));
-- 
2.43.0


From 11f6e9e582a97039b31224a401fbe0490b1e7431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:45 +0000
Subject: [PATCH 2/9] fix: Weighted sums its weights without overflowing

---
 src/generation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generation.rs b/src/generation.rs
index eeaec6c..b936631 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -275,12 +275,14 @@ impl Weighted {
 
     /// Weighted random index; if total weight is 0, returns uniform random in `0..fallback_len`.
     fn weighted_random_index(rng: &mut StdRng, weights: &[u32], fallback_len: usize) -> usize {
-        let total: u32 = weights.iter().sum();
+        // sum in u64: individual weights may be as large as `u32::MAX`
+        let total: u64 = weights.iter().map(|&w| u64::from(w)).sum();
         if total == 0 {
             return random_index(rng, fallback_len);
         }
         let mut r = rng.random_range(0..total);
         for (i, &w) in weights.iter().enumerate() {
+            let w = u64::from(w);
             if r < w {
                 return i;
             }
-- 
2.43.0


From 8cd9ce3d616fd1a058f9d6a6f6b6a406fd233938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:12 +0000
Subject: [PATCH 3/9] fix: generate prints an undefined nonterminal as
 <identifier>, as documented

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 2e63a8e..8b3c745 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -515,7 +515,7 @@ impl Grammar {
                 .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
             {
                 Some(p) => p,
-                None => return Ok(ident.to_string()),
+                None => return Ok(format!("<{ident}>")),
             };
 
             /// True if the production has no choosable alternative (no RHS or only an empty/epsilon alternative).
-- 
2.43.0


From 62b55f2f25d2e4efe8cd5b557d93945102bf1a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:15 +0000
Subject: [PATCH 4/9] fix: mermaid output does not panic on a production whose
 left-hand side is a terminal

---
 src/grammar.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 8b3c745..30aaab1 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -223,11 +223,7 @@ impl MermaidParseTree<'_> {
             writeln!(f, "flowchart TD")?;
         }
 
-        // Parser-built trees have LHS as Nonterminal; Terminal/AnonymousNonterminal are unreachable.
-        let lhs = match self.parse_tree.lhs {
-            Term::Nonterminal(str) => str,
-            Term::Terminal(_) => unreachable!(),
-        };
+        let (Term::Nonterminal(lhs) | Term::Terminal(lhs)) = self.parse_tree.lhs;
         let lhs_escaped = escape_mermaid_label(lhs);
         let lhs_count = *count;
 
@@ -243,10 +239,7 @@ impl MermaidParseTree<'_> {
                     )?;
                 }
                 ParseTreeNode::Nonterminal(parse_tree) => {
-                    let rhs = match parse_tree.lhs {
-                        Term::Nonterminal(str) => str,
-                        Term::Terminal(_) => unreachable!(),
-                    };
+                    let (Term::Nonterminal(rhs) | Term::Terminal(rhs)) = parse_tree.lhs;
                     let rhs_escaped = escape_mermaid_label(rhs);
                     writeln!(
                         f,
-- 
2.43.0


From 57055ef03132cee1e413d963e6a4675a9f0da835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 5/9] fix: build_parser accepts every grammar that validate
 accepts

---
 src/parser/grammar.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/grammar.rs b/src/parser/grammar.rs
index 087d4dd..38ef636 100644
--- a/src/parser/grammar.rs
+++ b/src/parser/grammar.rs
@@ -40,14 +40,18 @@ impl<'gram, 'a> ParseGrammar<'gram> {
         let n = grammar.production_count();
         sets.reserve(n, n.saturating_mul(2));
 
+        // a production without alternatives still defines its left hand side
+        for prod in grammar.productions_iter() {
+            if let crate::Term::Nonterminal(nt) = &prod.lhs {
+                sets.record_lhs(nt.as_str());
+            }
+        }
+
         let flat_prod_iter = grammar
             .productions_iter()
             .flat_map(|prod| prod.rhs_iter().map(|rhs| (&prod.lhs, rhs)));
 
         for (lhs, rhs) in flat_prod_iter {
-            if let crate::Term::Nonterminal(nt) = lhs {
-                sets.record_lhs(nt.as_str());
-            }
             for term in rhs.terms_iter() {
                 if let crate::Term::Nonterminal(nt) = term {
                     sets.record_rhs(nt.as_str());
-- 
2.43.0


From fda1be4795fe8231dc9bb82e8cf5b6fbe82abf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:21 +0000
Subject: [PATCH 6/9] fix: generated names never capture an undefined
 nonterminal of the grammar

---
 src/parsers/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 367c507..6a923e9 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -399,10 +399,31 @@ fn parsed_grammar_complete<F: Format>(input: &str) -> IResult<&str, ParsedGramma
 /// so they do not clash with any existing LHS nonterminal (e.g. user-defined `<__anon0>`).
 /// Optionals `[A / B]` are lowered to a fresh nonterminal with alternatives `A | B | ''`.
 fn normalize_parsed_grammar(parsed: ParsedGrammar) -> Grammar {
+    // every name the grammar defines or merely refers to is taken
     let mut used_names = crate::HashSet::new();
     for prod in &parsed.productions {
-        let ParsedProduction::Complex { lhs, .. } = prod;
+        let ParsedProduction::Complex { lhs, rhs } = prod;
         used_names.insert(lhs.clone());
+        for expr in rhs {
+            record_referenced_names(expr, &mut used_names);
+        }
+    }
+
+    fn record_referenced_names(expr: &ParsedExpression, used: &mut crate::HashSet<String>) {
+        let ParsedExpression::Terms(terms) = expr;
+        for term in terms {
+            match term {
+                ParsedTerm::Simple(Term::Nonterminal(name)) => {
+                    used.insert(name.clone());
+                }
+                ParsedTerm::Simple(Term::Terminal(_)) => {}
+                ParsedTerm::Group(exprs) | ParsedTerm::Optional(exprs) => {
+                    for expr in exprs {
+                        record_referenced_names(expr, used);
+                    }
+                }
+            }
+        }
     }
 
     let mut out_prods = Vec::new();
-- 
2.43.0


From 68a8c1ad0ffcbb3276be2a46d198ed82d948d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:59 +0000
Subject: [PATCH 7/9] fix: validation names the same undefined nonterminal on
 every run

The error named whichever undefined nonterminal came first in a randomly
seeded hash set; report the smallest instead.
---
 src/grammar.rs        | 2 +-
 src/parser/grammar.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 30aaab1..e12a9e9 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -385,7 +385,7 @@ impl Grammar {
                 }
             }
         }
-        if let Some(undefined) = sets.undefined().next() {
+        if let Some(undefined) = sets.undefined().min() {
             return Err(Error::ValidationError(format!(
                 "Undefined nonterminals: <{undefined}>"
             )));
diff --git a/src/parser/grammar.rs b/src/parser/grammar.rs
index 38ef636..58d3512 100644
--- a/src/parser/grammar.rs
+++ b/src/parser/grammar.rs
@@ -62,7 +62,7 @@ impl<'gram, 'a> ParseGrammar<'gram> {
             prods_by_lhs.entry(lhs).or_default().push(id);
         }
 
-        if let Some(undefined) = sets.undefined().next() {
+        if let Some(undefined) = sets.undefined().min() {
             let message = format!("Undefined nonterminals: <{undefined}>");
             return Err(Error::ValidationError(message));
         }
-- 
2.43.0


From 948888063e46e0878df029af758633ac27ecff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:02 +0000
Subject: [PATCH 8/9] fix: accept blanks and comments after an opening
 parenthesis or bracket

---
 src/parsers/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 6a923e9..8984115 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -303,7 +303,7 @@ fn parsed_expression_next<F: Format>(input: &str) -> IResult<&str, &str> {
 
 fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('('),
+        terminated(complete::char('('), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(')'),
     )
@@ -316,7 +316,7 @@ fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
 
 fn parsed_optional_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('['),
+        terminated(complete::char('['), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(']'),
     )
-- 
2.43.0


From 7cb6ccc25f50b0bf99526cdd5ef686d3dac09951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:36 +0000
Subject: [PATCH 9/9] fix: a comment may directly follow an ABNF rule name

---
 src/parsers/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 8984115..3165a9c 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -89,7 +89,7 @@ fn nonterminal<F: Format>(input: &str) -> IResult<&str, Term> {
         .parse(input)?,
         None => {
             satisfy(|c: char| c.is_alphabetic()).parse(input)?;
-            take_till(|c: char| c.is_whitespace() || c == ')' || c == ']').parse(input)?
+            take_till(|c: char| c.is_whitespace() || matches!(c, ')' | ']' | ';')).parse(input)?
         }
     };
 
@@ -273,7 +273,7 @@ fn parsed_nonterminal<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
         .parse(input)?,
         None => {
             satisfy(|c: char| c.is_alphabetic()).parse(input)?;
-            take_till(|c: char| c.is_whitespace() || c == ')' || c == ']').parse(input)?
+            take_till(|c: char| c.is_whitespace() || matches!(c, ')' | ']' | ';')).parse(input)?
         }
     };
 
@@ -357,7 +357,7 @@ fn parsed_prod_lhs<F: Format>(input: &str) -> IResult<&str, String> {
         .parse(input)?,
         None => {
             satisfy(|c: char| c.is_alphabetic()).parse(input)?;
-            take_till(|c: char| c.is_whitespace() || c == ')' || c == ']').parse(input)?
+            take_till(|c: char| c.is_whitespace() || matches!(c, ')' | ']' | ';')).parse(input)?
         }
     };
 
-- 
2.43.0

