From 006cd1087fd9f2bba14e54e83642f8dfb5e0781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 01/37] fix: reject argument indices that do not fit a machine
 word instead of panicking

---
 carcara/src/ast/term.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index d1ee88d..0005733 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -1052,12 +1052,9 @@ impl Rc<Term> {
 
     /// Similar to `Term::as_integer_err`, but also checks if non-negative.
     pub fn as_usize_err(&self) -> Result<usize, CheckerError> {
-        if let Some(i) = self.as_integer() {
-            if i >= 0 {
-                return Ok(i.to_usize().unwrap());
-            }
-        }
-        Err(CheckerError::ExpectedNonnegInteger(self.clone()))
+        self.as_integer()
+            .and_then(|i| i.to_usize())
+            .ok_or_else(|| CheckerError::ExpectedNonnegInteger(self.clone()))
     }
 
     /// Similar to `Term::as_signed_number`, but returns a `CheckerError` on failure.
-- 
2.43.0


From 66838f034c5c6ccc2bb047c99caed49a42e7db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 02/37] fix: check clause lengths before indexing in the
 cutting planes and pseudo-boolean blasting rules

---
 carcara/src/checker/rules/cutting_planes.rs |  3 +++
 carcara/src/checker/rules/pb_blasting.rs    | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/cutting_planes.rs b/carcara/src/checker/rules/cutting_planes.rs
index 7d61d65..0cc82a7 100644
--- a/carcara/src/checker/rules/cutting_planes.rs
+++ b/carcara/src/checker/rules/cutting_planes.rs
@@ -273,6 +273,7 @@ pub fn cp_multiplication(RuleArgs { premises, args, conclusion, .. }: RuleArgs)
 
 pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one arg
@@ -324,6 +325,7 @@ pub fn cp_division(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> Rul
 pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
     assert_num_args(args, 0)?;
+    assert_clause_len(premises[0].clause, 1)?;
     let clause = &premises[0].clause[0];
 
     // Check there is exactly one conclusion
@@ -361,6 +363,7 @@ pub fn cp_saturation(RuleArgs { premises, args, conclusion, .. }: RuleArgs) -> R
 
 pub fn cp_literal(RuleArgs { pool, args, conclusion, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, 1)?;
+    assert_clause_len(conclusion, 1)?;
     // TODO: Set args type to FF 2
 
     if let Some(((c, (_, l)), _)) = match_term!((>= (* c (- 1 l)) 0) = &conclusion[0]) {
diff --git a/carcara/src/checker/rules/pb_blasting.rs b/carcara/src/checker/rules/pb_blasting.rs
index fecddb2..edd2b79 100644
--- a/carcara/src/checker/rules/pb_blasting.rs
+++ b/carcara/src/checker/rules/pb_blasting.rs
@@ -1,4 +1,4 @@
-use super::{assert_eq, assert_num_args, RuleArgs, RuleResult};
+use super::{assert_clause_len, assert_eq, assert_num_args, RuleArgs, RuleResult};
 use crate::{
     ast::{Binder, Rc, Sort, Term, TermPool},
     checker::{error::CheckerError, rules::cutting_planes::split_summation},
@@ -143,6 +143,7 @@ fn check_pbblast_constraint(
 /// The expected shape is:
 ///    `(= (= x y) (= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (= x y) (= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -159,6 +160,7 @@ pub fn pbblast_bveq(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
 /// The expected shape is:
 ///    `(= (bvult x y) (>= (- (+ sum_y) (+ sum_x)) 1))`
 pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), _)) =
         match_term_err!((= (bvult x y) (>= (- sum_y sum_x) 1)) = &conclusion[0])?;
 
@@ -175,6 +177,7 @@ pub fn pbblast_bvult(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvugt x y) (>= (- (+ sum_x) (+ sum_y)) 1))`
 pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), _)) =
         match_term_err!((= (bvugt x y) (>= (- sum_x sum_y) 1)) = &conclusion[0])?;
 
@@ -191,6 +194,7 @@ pub fn pbblast_bvugt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvuge x y) (>= (- (+ sum_x) (+ sum_y)) 0))`
 pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_x, sum_y), ())) =
         match_term_err!((= (bvuge x y) (>= (- sum_x sum_y) 0)) = &conclusion[0])?;
 
@@ -206,6 +210,7 @@ pub fn pbblast_bvuge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvule x y) (>= (- (+ sum_y) (+ sum_x)) 0))`
 pub fn pbblast_bvule(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), ((sum_y, sum_x), ())) =
         match_term_err!((= (bvule x y) (>= (- sum_y sum_x) 0)) = &conclusion[0])?;
 
@@ -265,6 +270,7 @@ fn check_pbblast_signed_relation(n: usize, sign: &Rc<Term>, bitvector: &Rc<Term>
 /// The expected shape is:
 ///    `(= (bvslt x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 1))`
 pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvslt x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -286,6 +292,7 @@ pub fn pbblast_bvslt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsgt x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 1))`
 pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsgt x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 1)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -307,6 +314,7 @@ pub fn pbblast_bvsgt(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsge x y) (>= (+ (- x_sum (* 2^(n-1) x_n-1))) (- (* 2^(n-1) y_n-1) y_sum)) 0))`
 pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_x, sign_x), (sign_y, sum_y)), _)) = match_term_err!((= (bvsge x y) (>= (+ (- sum_x sign_x) (- sign_y sum_y)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -328,6 +336,7 @@ pub fn pbblast_bvsge(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// The expected shape is:
 ///    `(= (bvsle x y) (>= (+ (- y_sum (* 2^(n-1) y_n-1))) (- (* 2^(n-1) x_n-1) x_sum)) 0))`
 pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), (((sum_y, sign_y), (sign_x, sum_x)), _)) = match_term_err!((= (bvsle x y) (>= (+ (- sum_y sign_y) (- sign_x sum_x)) 0)) = &conclusion[0])?;
 
     // Get the summation lists
@@ -347,6 +356,7 @@ pub fn pbblast_bvsle(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the blasting of a bitvector variable
 pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (x, pbs) = match_term_err!((= x (pbbterm ...)) = &conclusion[0])?;
 
     for (i, pb) in pbs.iter().enumerate() {
@@ -371,6 +381,7 @@ pub fn pbblast_pbbvar(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
 
 /// Implements the blasting of a constant
 pub fn pbblast_pbbconst(RuleArgs { conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let (bv, pbs) = match_term_err!((= bv (pbbterm ...)) = &conclusion[0])
         .map_err(|_| CheckerError::Explanation("Malformed @pbbterm equality".into()))?;
 
@@ -447,6 +458,7 @@ fn get_bitvector_terms(bv: &Rc<Term>, pool: &mut dyn TermPool) -> Vec<Rc<Term>>
 
 /// Implements the bitwise exclusive or operation.
 pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvxor x y) (pbbterm ...)) = &conclusion[0])?;
 
@@ -510,6 +522,7 @@ pub fn pbblast_bvxor(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 
 /// Implements the bitwise and operation.
 pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     let ((x, y), bit_constraints) =
         match_term_err!((= (bvand x y) (pbbterm ...)) = &conclusion[0])?;
 
@@ -566,6 +579,7 @@ pub fn pbblast_bvand(RuleArgs { pool, conclusion, .. }: RuleArgs) -> RuleResult
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvxor rule
 pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
@@ -612,6 +626,7 @@ pub fn pbblast_bvxor_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs)
 /// In which ri is the choice element from the pseudo boolean bit blasting
 /// of the bvand rule
 pub fn pbblast_bvand_ith_bit(RuleArgs { args, pool, conclusion, .. }: RuleArgs) -> RuleResult {
+    assert_clause_len(conclusion, 1)?;
     assert_num_args(args, 2)?;
     let x = &args[0];
     let y = &args[1];
-- 
2.43.0


From e21ee9941df360c8235313df9283b3dd2fc842ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 03/37] fix: reset the verdict state of a proof checker before
 each check

---
 carcara/src/checker/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carcara/src/checker/mod.rs b/carcara/src/checker/mod.rs
index 678eb02..287a824 100644
--- a/carcara/src/checker/mod.rs
+++ b/carcara/src/checker/mod.rs
@@ -124,6 +124,12 @@ impl<'c> ProofChecker<'c> {
         proof: &Proof,
         mut stats: Option<&mut CheckerStatistics<CR>>,
     ) -> CarcaraResult<bool> {
+        // The verdict must depend only on this proof, even if this checker was already used for
+        // another one
+        self.context = ContextStack::new();
+        self.reached_empty_clause = false;
+        self.is_holey = false;
+
         // Similarly to the parser, to avoid stack overflows in proofs with many nested subproofs,
         // we check the subproofs iteratively, instead of recursively
         let mut iter = proof.iter();
-- 
2.43.0


From 01e68208332487a6ba6ce43fbe6b86ea68441eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 04/37] fix: keep benchmark results collected so far when a
 file fails to parse

---
 cli/src/benchmarking.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cli/src/benchmarking.rs b/cli/src/benchmarking.rs
index 231b2f4..b9d92f2 100644
--- a/cli/src/benchmarking.rs
+++ b/cli/src/benchmarking.rs
@@ -27,13 +27,6 @@ fn run_job<T: CollectResults + Default + Send>(
     elaborator_config: Option<(elaborator::Config, Vec<elaborator::ElaborationStep>)>,
 ) -> Result<bool, carcara::Error> {
     let proof_file_name = job.proof_file.to_str().unwrap();
-    let mut checker_stats = checker::CheckerStatistics {
-        file_name: proof_file_name,
-        polyeq_time: Duration::ZERO,
-        assume_time: Duration::ZERO,
-        assume_core_time: Duration::ZERO,
-        results: std::mem::take(results),
-    };
 
     let total = Instant::now();
 
@@ -46,6 +39,16 @@ fn run_job<T: CollectResults + Default + Send>(
     )?;
     let parsing = parsing.elapsed();
 
+    // We only take the results collected so far after parsing has succeeded, so they are not lost if
+    // it fails
+    let mut checker_stats = checker::CheckerStatistics {
+        file_name: proof_file_name,
+        polyeq_time: Duration::ZERO,
+        assume_time: Duration::ZERO,
+        assume_core_time: Duration::ZERO,
+        results: std::mem::take(results),
+    };
+
     let mut checker = checker::ProofChecker::new(&mut pool, &rules, checker_config);
 
     let checking = Instant::now();
-- 
2.43.0


From 8a1c34592d340af809a94113725efee17dcf7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 05/37] fix: a CSV benchmark is holey if any of its workers
 found a holey proof

---
 carcara/src/benchmarking/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carcara/src/benchmarking/mod.rs b/carcara/src/benchmarking/mod.rs
index 9f5da1b..961f2d2 100644
--- a/carcara/src/benchmarking/mod.rs
+++ b/carcara/src/benchmarking/mod.rs
@@ -519,6 +519,7 @@ impl CollectResults for CsvBenchmarkResults {
         a.runs.extend(b.runs);
         a.steps.extend(b.steps);
         a.num_errors += b.num_errors;
+        a.is_holey |= b.is_holey;
         a
     }
 }
-- 
2.43.0


From 82c23fa2d4b0ff9a3eb1d6a9e55aa2000c46381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 06/37] fix: do not treat integer division as exact when
 evaluating constant terms

`Term::as_fraction` read `(div 1 2)` as one half, so `comp_simplify` (and the
other users of it) accepted steps such as `(= (< 0 (div 1 2)) true)`. It also
panicked on a division by zero.
---
 carcara/src/ast/term.rs                       | 18 +++++++++++--
 .../src/checker/rules/linear_arithmetic.rs    | 25 ++++++++++++++++---
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/term.rs b/carcara/src/ast/term.rs
index 0005733..6ed4064 100644
--- a/carcara/src/ast/term.rs
+++ b/carcara/src/ast/term.rs
@@ -893,8 +893,22 @@ impl Term {
     pub fn as_fraction(&self) -> Option<Rational> {
         fn as_unsigned_fraction(term: &Term) -> Option<Rational> {
             match term {
-                Term::Op(Operator::IntDiv | Operator::RealDiv, args) if args.len() == 2 => {
-                    Some(args[0].as_signed_number()? / args[1].as_signed_number()?)
+                Term::Op(op @ (Operator::IntDiv | Operator::RealDiv), args) if args.len() == 2 => {
+                    let (n, d) = (args[0].as_signed_number()?, args[1].as_signed_number()?);
+                    match op {
+                        // The result of a division by zero can be any value
+                        _ if d.is_zero() => None,
+                        Operator::RealDiv => Some(n / d),
+                        _ if !n.is_integer() || !d.is_integer() => None,
+                        // SMT-LIB integer division is Euclidean
+                        _ => Some(
+                            n.into_numer_denom()
+                                .0
+                                .div_rem_euc(d.into_numer_denom().0)
+                                .0
+                                .into(),
+                        ),
+                    }
                 }
                 _ => term.as_number(),
             }
diff --git a/carcara/src/checker/rules/linear_arithmetic.rs b/carcara/src/checker/rules/linear_arithmetic.rs
index 6b6718f..fad9dc6 100644
--- a/carcara/src/checker/rules/linear_arithmetic.rs
+++ b/carcara/src/checker/rules/linear_arithmetic.rs
@@ -260,15 +260,32 @@ fn strengthen(op: Operator, disequality: &mut LinearComb, a: &Rational) -> Opera
     }
 }
 
+/// Interprets an argument of `la_generic` as a rational coefficient. As these are not part of the
+/// conclusion, solvers are free to write fractions using the `div` operator, meaning the exact
+/// quotient.
+fn as_coefficient(term: &Rc<Term>) -> Option<Rational> {
+    fn as_unsigned(term: &Rc<Term>) -> Option<Rational> {
+        match match_term!((div n d) = term) {
+            Some((n, d)) => {
+                let d = d.as_signed_number().filter(|d| !d.is_zero())?;
+                Some(n.as_signed_number()? / d)
+            }
+            None => term.as_fraction(),
+        }
+    }
+
+    match match_term!((-x) = term) {
+        Some(x) => as_unsigned(x).map(|r| -r),
+        None => as_unsigned(term),
+    }
+}
+
 pub fn la_generic(RuleArgs { conclusion, args, .. }: RuleArgs) -> RuleResult {
     assert_num_args(args, conclusion.len())?;
 
     let args: Vec<_> = args
         .iter()
-        .map(|a| {
-            a.as_fraction()
-                .ok_or_else(|| CheckerError::ExpectedAnyNumber(a.clone()))
-        })
+        .map(|a| as_coefficient(a).ok_or_else(|| CheckerError::ExpectedAnyNumber(a.clone())))
         .collect::<Result<_, _>>()?;
 
     let final_disequality = conclusion
-- 
2.43.0


From a23d2ec7268faa86841a91e31c3459e74e801a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 07/37] fix: a step with the empty id no longer closes the root
 proof

The frame of the root proof has an empty end step id, so a step named || was
taken as the end of a subproof, and the root frame was popped.
---
 carcara/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 6c01a0a..e07c865 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -927,9 +927,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 ));
             }
 
+            let is_in_subproof = stack.len() > 1;
             let (top_subproof, top_end_step, _) = stack.last_mut().unwrap();
             top_subproof.commands.push(command);
-            if top_end_step == id.as_ref() {
+            if is_in_subproof && top_end_step == id.as_ref() {
                 // If this is the last step in a subproof, we need to pop all the subproof data off
                 // of the stacks and build the subproof command with it
                 self.state.symbol_table.pop_scope();
-- 
2.43.0


From f15008cafb8998de2556ed1513343221c71f7855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 08/37] fix: what is derived in a context cannot escape its
 subproof

The last step of a subproof may use any rule, and refer to any step of the
subproof. With assignments in the anchor, this exported conclusions that only
hold in that context, e.g. that two distinct constants are equal.
---
 carcara/src/checker/error.rs  |  6 ++++++
 carcara/src/checker/shared.rs | 37 +++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 98a25af..9781e55 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -387,6 +387,12 @@ pub enum SubproofError {
     #[error("only the `subproof` rule may discharge local assumptions")]
     DischargeInWrongRule,
 
+    #[error("rule '{0}' cannot end a subproof whose anchor has arguments")]
+    RuleDoesNotCloseContext(String),
+
+    #[error("premise '{0}' only holds inside the subproof")]
+    PremiseInsideContext(String),
+
     #[error("binding '{0}' appears as free variable in phi")]
     BindBindingIsFreeVarInPhi(String),
 
diff --git a/carcara/src/checker/shared.rs b/carcara/src/checker/shared.rs
index 0cfc64d..50c15a0 100644
--- a/carcara/src/checker/shared.rs
+++ b/carcara/src/checker/shared.rs
@@ -126,6 +126,10 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
         *context.is_holey = true;
     }
 
+    if context.is_end_step {
+        check_context_is_closed(step, &rule_args, context.subproof_depth)?;
+    }
+
     // Execute the rule with the provided arguments
     rule(rule_args)?;
 
@@ -144,6 +148,39 @@ pub fn check_step_core<CR: CollectResults + Send + Default>(
     Ok(())
 }
 
+/// What is derived inside a subproof whose anchor has arguments only holds in the context they
+/// introduce. The step that ends the subproof is a conclusion outside of it, so it must use a rule
+/// that closes this context. If the context has assignments, it can only refer to the subproof
+/// implicitly, through its previous command.
+fn check_context_is_closed(step: &ProofStep, rule_args: &RuleArgs, depth: usize) -> RuleResult {
+    use crate::checker::error::SubproofError;
+
+    let (has_args, has_assignments) = match rule_args.context.last().as_deref() {
+        Some(Some(c)) => (
+            !c.args.is_empty(),
+            c.args.iter().any(|a| a.as_assign().is_some()),
+        ),
+        _ => (false, false),
+    };
+
+    let closes_context = match step.rule.as_str() {
+        "bind" | "let" | "onepoint" | "sko_ex" | "sko_forall" | "hole" => true,
+        "bind_let" => !has_assignments,
+        _ => !has_args,
+    };
+    if !closes_context {
+        return Err(SubproofError::RuleDoesNotCloseContext(step.rule.clone()).into());
+    }
+
+    let inner_premise = rule_args.premises.iter().find(|p| p.index.0 >= depth);
+    match inner_premise {
+        Some(p) if has_assignments && step.rule != "hole" => {
+            Err(SubproofError::PremiseInsideContext(p.id.to_owned()).into())
+        }
+        _ => Ok(()),
+    }
+}
+
 /// Shared discharge checking logic
 pub fn check_discharge_shared(
     subproof: &[ProofCommand],
-- 
2.43.0


From 35c42503b0c738db85561979c09db2f29216999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 09/37] fix: bind requires the context to rename the bound
 variables

The values of the context's assignments were ignored, so (:= x c) could turn
p(x) into p(c) under the binder; other variables could also be replaced, or be
captured after the substitutions of outer contexts.
---
 carcara/src/checker/error.rs          |  6 ++++
 carcara/src/checker/rules/subproof.rs | 50 +++++++++++++++++++--------
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index 9781e55..a5670bf 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -399,6 +399,12 @@ pub enum SubproofError {
     #[error("unexpected anchor argument: '{0}'")]
     BindUnexpectedVarArgument(String),
 
+    #[error("context replaces '{0}', which is not a binding of the left-hand side")]
+    BindUnexpectedAssignment(String),
+
+    #[error("context does not rename the bindings of the left-hand side to those of the right-hand side")]
+    BindIsNotRenaming,
+
     #[error("right and left quantifiers have different number of bindings: {0} and {1}")]
     BindDifferentNumberOfBindings(usize, usize),
 
diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 2544335..380dd10 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -78,16 +78,26 @@ pub fn bind(
     assert_eq(left, phi)?;
     assert_eq(right, phi_prime)?;
 
-    // None of the bindings in the right side can appear as free variables in phi
-    let free_vars = pool.free_vars(phi);
-    if let Some(y) = r_bindings
-        .iter()
-        .find(|&y| free_vars.contains(y) && !l_bindings.contains(y))
-    {
-        let y = y.as_var().unwrap().to_owned();
-        return Err(SubproofError::BindBindingIsFreeVarInPhi(y).into());
+    // None of the bindings in the right side can appear as free variables in phi, not even after
+    // applying the substitutions of the outer contexts
+    for var in pool.free_vars(phi) {
+        if l_bindings.contains(&var) {
+            continue;
+        }
+        let image = context.apply(pool, &var);
+        let free_vars = pool.free_vars(&image);
+        if let Some(y) = r_bindings
+            .iter()
+            .find(|&y| *y == var || free_vars.contains(y))
+        {
+            let y = y.as_var().unwrap().to_owned();
+            return Err(SubproofError::BindBindingIsFreeVarInPhi(y).into());
+        }
     }
 
+    // What the context replaces each of the bindings in the left side by
+    let renamed: IndexSet<_> = l_bindings.iter().map(|x| context.apply(pool, x)).collect();
+
     // Since we are closing a subproof, we only care about the substitutions that were introduced
     // in it
     let context = context.last().unwrap();
@@ -116,20 +126,30 @@ pub fn bind(
         SubproofError::BindDifferentNumberOfBindings(l_bindings.len(), r_bindings.len())
     );
 
-    let (l_bindings, r_bindings): (IndexSet<_>, IndexSet<_>) = (
-        l_bindings.difference(&r_bindings).cloned().collect(),
-        r_bindings.difference(&r_bindings).cloned().collect(),
-    );
+    // The context can only replace variables that are bound in the left side
+    if let Some(x) = xs.iter().find(|&x| !l_bindings.contains(x)) {
+        let x = x.as_var().unwrap().to_owned();
+        return Err(SubproofError::BindUnexpectedAssignment(x).into());
+    }
 
-    // `l_bindings` should be a subset of `xs` and `r_bindigns` should be a subset of `ys`
-    if let Some(x) = l_bindings.iter().find(|&x| !xs.contains(x)) {
+    // The bindings that are not in both sides should be in the context: those of the left side in
+    // `xs`, and those of the right side in `ys`
+    if let Some(x) = l_bindings.difference(&r_bindings).find(|&x| !xs.contains(x)) {
         let x = x.as_var().unwrap().to_owned();
         return Err(SubproofError::BindingIsNotInContext(x).into());
     }
-    if let Some(y) = r_bindings.iter().find(|&y| !ys.contains(y)) {
+    if let Some(y) = r_bindings.difference(&l_bindings).find(|&y| !ys.contains(y)) {
         let y = y.as_var().unwrap().to_owned();
         return Err(SubproofError::BindingIsNotInContext(y).into());
     }
+
+    // The context must rename the bindings of the left side to those of the right side. Their order
+    // only matters if they are parameters of a function
+    let is_renaming = match l_binder {
+        Binder::Lambda => renamed.iter().eq(&r_bindings),
+        _ => renamed == r_bindings,
+    };
+    rassert!(is_renaming, SubproofError::BindIsNotRenaming);
     Ok(())
 }
 
-- 
2.43.0


From a58e7cf593717e78a237d24ae1c843d881a31271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 10/37] fix: the variables of a closed context cannot be left
 free

The rules that close a subproof allowed the variables the context replaces to
stay free in the other side of the conclusion, where they denote something
else; onepoint used points about variables of inner quantifiers; and the
skolemization rules allowed assignments to any other variable.
---
 carcara/src/checker/error.rs          |   6 +-
 carcara/src/checker/rules/subproof.rs | 181 ++++++++++++++++++--------
 2 files changed, 132 insertions(+), 55 deletions(-)

diff --git a/carcara/src/checker/error.rs b/carcara/src/checker/error.rs
index a5670bf..03bea64 100644
--- a/carcara/src/checker/error.rs
+++ b/carcara/src/checker/error.rs
@@ -393,14 +393,14 @@ pub enum SubproofError {
     #[error("premise '{0}' only holds inside the subproof")]
     PremiseInsideContext(String),
 
-    #[error("binding '{0}' appears as free variable in phi")]
-    BindBindingIsFreeVarInPhi(String),
+    #[error("binding '{0}' appears as free variable in '{1}'")]
+    BindingIsFreeVar(String, Rc<Term>),
 
     #[error("unexpected anchor argument: '{0}'")]
     BindUnexpectedVarArgument(String),
 
     #[error("context replaces '{0}', which is not a binding of the left-hand side")]
-    BindUnexpectedAssignment(String),
+    UnexpectedAssignment(String),
 
     #[error("context does not rename the bindings of the left-hand side to those of the right-hand side")]
     BindIsNotRenaming,
diff --git a/carcara/src/checker/rules/subproof.rs b/carcara/src/checker/rules/subproof.rs
index 380dd10..0e1862a 100644
--- a/carcara/src/checker/rules/subproof.rs
+++ b/carcara/src/checker/rules/subproof.rs
@@ -4,7 +4,7 @@ use super::{
 };
 use crate::{ast::*, checker::error::SubproofError};
 use indexmap::{IndexMap, IndexSet};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashSet;
 
 pub fn subproof(
     RuleArgs {
@@ -47,6 +47,32 @@ pub fn subproof(
     assert_polyeq(conclusion.last().unwrap(), &phi, polyeq_time)
 }
 
+/// Checks that a binder which binds `own` can be put around `term`, when the other side of the
+/// conclusion binds `other`: the context's substitution is as if its variables were equal to their
+/// values, so, once it is closed, none of these variables can be left free in `term`, nor be
+/// introduced in it by the substitutions of the outer contexts.
+pub(super) fn assert_no_capture(
+    pool: &mut dyn TermPool,
+    context: &mut ContextStack,
+    term: &Rc<Term>,
+    own: &IndexSet<Rc<Term>>,
+    other: &IndexSet<Rc<Term>>,
+) -> RuleResult {
+    for var in pool.free_vars(term) {
+        if own.contains(&var) {
+            continue;
+        }
+        let image = context.apply(pool, &var);
+        let mut names = pool.free_vars(&image);
+        names.insert(var);
+        if let Some(x) = names.iter().find(|&x| own.contains(x) || other.contains(x)) {
+            let x = x.as_var().unwrap().to_owned();
+            return Err(SubproofError::BindingIsFreeVar(x, term.clone()).into());
+        }
+    }
+    Ok(())
+}
+
 pub fn bind(
     RuleArgs {
         conclusion,
@@ -78,25 +104,18 @@ pub fn bind(
     assert_eq(left, phi)?;
     assert_eq(right, phi_prime)?;
 
-    // None of the bindings in the right side can appear as free variables in phi, not even after
-    // applying the substitutions of the outer contexts
-    for var in pool.free_vars(phi) {
-        if l_bindings.contains(&var) {
-            continue;
-        }
-        let image = context.apply(pool, &var);
-        let free_vars = pool.free_vars(&image);
-        if let Some(y) = r_bindings
-            .iter()
-            .find(|&y| *y == var || free_vars.contains(y))
-        {
-            let y = y.as_var().unwrap().to_owned();
-            return Err(SubproofError::BindBindingIsFreeVarInPhi(y).into());
-        }
-    }
+    assert_no_capture(pool, context, phi, &l_bindings, &r_bindings)?;
+    assert_no_capture(pool, context, phi_prime, &r_bindings, &l_bindings)?;
 
-    // What the context replaces each of the bindings in the left side by
-    let renamed: IndexSet<_> = l_bindings.iter().map(|x| context.apply(pool, x)).collect();
+    // What the context replaces each of the bindings in the left side by. The ones that are also
+    // bound in the right side must stay the same.
+    let renamed: IndexSet<_> = l_bindings
+        .iter()
+        .map(|x| context.apply(pool, x))
+        .collect();
+    let changes_common = l_bindings
+        .iter()
+        .any(|x| r_bindings.contains(x) && context.apply(pool, x) != *x);
 
     // Since we are closing a subproof, we only care about the substitutions that were introduced
     // in it
@@ -129,7 +148,7 @@ pub fn bind(
     // The context can only replace variables that are bound in the left side
     if let Some(x) = xs.iter().find(|&x| !l_bindings.contains(x)) {
         let x = x.as_var().unwrap().to_owned();
-        return Err(SubproofError::BindUnexpectedAssignment(x).into());
+        return Err(SubproofError::UnexpectedAssignment(x).into());
     }
 
     // The bindings that are not in both sides should be in the context: those of the left side in
@@ -149,7 +168,10 @@ pub fn bind(
         Binder::Lambda => renamed.iter().eq(&r_bindings),
         _ => renamed == r_bindings,
     };
-    rassert!(is_renaming, SubproofError::BindIsNotRenaming);
+    rassert!(
+        is_renaming && !changes_common,
+        SubproofError::BindIsNotRenaming
+    );
     Ok(())
 }
 
@@ -167,17 +189,7 @@ pub fn r#let(
 
     assert_clause_len(conclusion, 1)?;
 
-    // Since we are closing a subproof, we only care about the mappings that were introduced in it
-    let context = context.last().unwrap();
-    let args = &context.as_ref().unwrap().args;
-    let mappings: IndexMap<Rc<Term>, Rc<Term>> = args
-        .iter()
-        .filter_map(|arg| {
-            let (name, value) = arg.as_assign()?;
-            let var = Term::new_var(name, pool.sort(value));
-            Some((pool.add(var), value.clone()))
-        })
-        .collect();
+    let mappings = closed_mappings(pool, context);
 
     let (let_term, u_prime) = match_term_err!((= l u) = &conclusion[0])?;
     let Term::Let(let_bindings, u) = let_term.as_ref() else {
@@ -208,6 +220,14 @@ pub fn r#let(
             Ok((s, t))
         })
         .collect::<Result<_, CheckerError>>()?;
+
+    let bound: IndexSet<_> = mappings.keys().cloned().collect();
+    assert_no_capture(pool, context, u, &bound, &IndexSet::new())?;
+    assert_no_capture(pool, context, u_prime, &IndexSet::new(), &bound)?;
+    for (s, _) in &pairs {
+        assert_no_capture(pool, context, s, &IndexSet::new(), &bound)?;
+    }
+
     pairs.retain(|(s, t)| s != t); // The pairs where s == t don't need a premise to justify them
 
     assert_num_premises(premises, pairs.len())?;
@@ -225,8 +245,30 @@ pub fn r#let(
     Ok(())
 }
 
-fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)> {
+/// Returns the mappings of the subproof that is being closed.
+fn closed_mappings(
+    pool: &mut dyn TermPool,
+    context: &ContextStack,
+) -> IndexMap<Rc<Term>, Rc<Term>> {
+    // Since we are closing a subproof, we only care about the mappings that were introduced in it
+    let context = context.last().unwrap();
+    let args = &context.as_ref().unwrap().args;
+    args.iter()
+        .filter_map(|arg| {
+            let (name, value) = arg.as_assign()?;
+            let var = Term::new_var(name, pool.sort(value));
+            Some((pool.add(var), value.clone()))
+        })
+        .collect()
+}
+
+fn extract_points(
+    pool: &mut dyn TermPool,
+    quant: Binder,
+    term: &Rc<Term>,
+) -> HashSet<(String, Rc<Term>)> {
     fn find_points(
+        pool: &mut dyn TermPool,
         acc: &mut HashSet<(String, Rc<Term>)>,
         seen: &mut HashSet<(Rc<Term>, bool)>,
         polarity: bool,
@@ -239,10 +281,30 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
         seen.insert(key);
 
         if let Some(inner) = term.remove_negation() {
-            return find_points(acc, seen, !polarity, inner);
+            return find_points(pool, acc, seen, !polarity, inner);
         }
-        if let Some((_, _, inner)) = term.as_quant() {
-            return find_points(acc, seen, polarity, inner);
+        if let Some((_, bindings, inner)) = term.as_quant() {
+            // An equality that mentions the variables bound here is not a point
+            let bound: IndexSet<_> = bindings
+                .iter()
+                .map(|var| pool.add(var.clone().into()))
+                .collect();
+            let mut inner_points = HashSet::new();
+            find_points(
+                pool,
+                &mut inner_points,
+                &mut HashSet::new(),
+                polarity,
+                inner,
+            );
+            for (x, t) in inner_points {
+                let var = Term::new_var(&x, pool.sort(&t));
+                let var = pool.add(var);
+                if !bound.contains(&var) && pool.free_vars(&t).is_disjoint(&bound) {
+                    acc.insert((x, t));
+                }
+            }
+            return;
         }
         match polarity {
             true => {
@@ -255,17 +317,17 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
                     }
                 } else if let Some(args) = match_term!((and ...) = term) {
                     for a in args {
-                        find_points(acc, seen, true, a);
+                        find_points(pool, acc, seen, true, a);
                     }
                 }
             }
             false => {
                 if let Some((p, q)) = match_term!((=> p q) = term) {
-                    find_points(acc, seen, true, p);
-                    find_points(acc, seen, false, q);
+                    find_points(pool, acc, seen, true, p);
+                    find_points(pool, acc, seen, false, q);
                 } else if let Some(args) = match_term!((or ...) = term) {
                     for a in args {
-                        find_points(acc, seen, false, a);
+                        find_points(pool, acc, seen, false, a);
                     }
                 }
             }
@@ -274,7 +336,7 @@ fn extract_points(quant: Binder, term: &Rc<Term>) -> HashSet<(String, Rc<Term>)>
 
     let mut result = HashSet::new();
     let mut seen = HashSet::new();
-    find_points(&mut result, &mut seen, quant == Binder::Exists, term);
+    find_points(pool, &mut result, &mut seen, quant == Binder::Exists, term);
     result
 }
 
@@ -313,7 +375,20 @@ pub fn onepoint(
         }
     );
 
-    let points = extract_points(quant, left);
+    let point_vars: IndexSet<_> = closed_mappings(pool, context).into_keys().collect();
+    let values: Vec<_> = closed_mappings(pool, context).into_values().collect();
+    let [left_set, right_set] = [l_bindings, r_bindings].map(|b| {
+        b.iter()
+            .map(|var| pool.add(var.clone().into()))
+            .collect::<IndexSet<_>>()
+    });
+    assert_no_capture(pool, context, left, &left_set, &right_set)?;
+    assert_no_capture(pool, context, right, &right_set, &left_set)?;
+    for value in values {
+        assert_no_capture(pool, context, &value, &right_set, &point_vars)?;
+    }
+
+    let points = extract_points(pool, quant, left);
 
     // Since a substitution may use a variable introduced in a previous substitution, we apply the
     // substitution to the points in order to replace these variables by their value.
@@ -401,21 +476,23 @@ fn generic_skolemization_rule(
     assert_eq(previous_equality.0, phi)?;
     assert_eq(previous_equality.1, psi)?;
 
+    let bound: IndexSet<_> = bindings
+        .iter()
+        .map(|var| pool.add(var.clone().into()))
+        .collect();
+    assert_no_capture(pool, context, phi, &bound, &IndexSet::new())?;
+    assert_no_capture(pool, context, psi, &IndexSet::new(), &bound)?;
+
     let mut current_phi = phi.clone();
     if context.len() >= 2 {
         current_phi = context.apply_previous(pool, &current_phi);
     }
 
-    let context = context.last().unwrap();
-    let args = context.as_ref().unwrap().args.iter();
-
-    let substitution: HashMap<Rc<Term>, Rc<Term>> = args
-        .filter_map(AnchorArg::as_assign)
-        .map(|(k, v)| {
-            let var = Term::new_var(k, pool.sort(v));
-            (pool.add(var), v.clone())
-        })
-        .collect();
+    let substitution = closed_mappings(pool, context);
+    if let Some(x) = substitution.keys().find(|&x| !bound.contains(x)) {
+        let x = x.as_var().unwrap().to_owned();
+        return Err(SubproofError::UnexpectedAssignment(x).into());
+    }
 
     for (i, x) in bindings.iter().enumerate() {
         let x_term = pool.add(Term::from(x.clone()));
-- 
2.43.0


From cd56c093c4eac32e0df417158e53f01499f6af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 11/37] fix: context variables shadow those of outer contexts

Removing a mapping left stale results in the substitution's cache, and kept the
mappings to terms that mention the shadowed variable.
---
 carcara/src/ast/context.rs      |  4 +++-
 carcara/src/ast/substitution.rs | 17 +++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/carcara/src/ast/context.rs b/carcara/src/ast/context.rs
index 5c38f74..7efd3e7 100644
--- a/carcara/src/ast/context.rs
+++ b/carcara/src/ast/context.rs
@@ -179,11 +179,13 @@ impl ContextStack {
                 match a {
                     AnchorArg::Variable((name, sort)) => {
                         let var_term = pool.add(Term::new_var(name, sort.clone()));
-                        substitution.remove(&var_term);
+                        substitution.remove(pool, &var_term);
                     }
                     AnchorArg::Assign(var, value) => {
                         let var_term = pool.add(var.clone().into());
                         let new_value = substitution.apply(pool, value);
+                        // `var` shadows any variable of an outer context with the same name
+                        substitution.remove(pool, &var_term);
                         // It is safe to unwrap here because we ensure by contruction that
                         // `var_term` is a variable term, with he same sort as `value`
                         substitution
diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 8360ea0..1b98766 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -130,14 +130,19 @@ impl Substitution {
         Ok(())
     }
 
-    /// Removes a mapping from the substitution.
+    /// Removes from the substitution everything that involves the variable `x`, that is, the mapping
+    /// of `x`, and those to terms in which `x` is free. This is what must be done if `x` is shadowed
+    /// by another variable of the same name.
     ///
-    /// This will clear `self.should_be_renamed`, such that it might need to be recomputed later.
-    /// Therefore, you should avoid using this method if possible.
-    pub(super) fn remove(&mut self, x: &Rc<Term>) {
-        let was_present = self.map.swap_remove(x).is_some();
-        if was_present {
+    /// This will clear `self.should_be_renamed` and the cache, such that they might need to be
+    /// recomputed later. Therefore, you should avoid using this method if possible.
+    pub(super) fn remove(&mut self, pool: &mut dyn TermPool, x: &Rc<Term>) {
+        let old_len = self.map.len();
+        self.map
+            .retain(|k, t| k != x && !pool.free_vars(t).contains(x));
+        if self.map.len() != old_len {
             self.should_be_renamed = None;
+            self.cache.clear();
         }
     }
 
-- 
2.43.0


From e5265cbd460462154334a190d772f758a539f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 12/37] fix: substitutions over let terms, and captures by
 renamed variables

The values of let bindings were not substituted (and the first let panicked); a
renamed bound variable could capture another variable called the same.
---
 carcara/src/ast/substitution.rs | 37 +++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/carcara/src/ast/substitution.rs b/carcara/src/ast/substitution.rs
index 1b98766..072ffc1 100644
--- a/carcara/src/ast/substitution.rs
+++ b/carcara/src/ast/substitution.rs
@@ -218,8 +218,16 @@ impl Substitution {
                 self.apply_to_binder(pool, term, *binder, binding_list.as_ref(), inner)
             }
             Term::Let(binding_list, inner) => {
+                self.compute_should_be_renamed(pool);
                 let (new_bindings, mut renaming) =
-                    self.rename_binding_list(pool, binding_list, true);
+                    self.rename_binding_list(pool, binding_list, inner, true);
+
+                // The values are outside of the scope of the bindings
+                let new_bindings = new_bindings
+                    .iter()
+                    .map(|(var, value)| (var.clone(), self.apply(pool, value)))
+                    .collect();
+
                 let new_term = if renaming.is_empty() {
                     self.apply(pool, inner)
                 } else {
@@ -228,7 +236,7 @@ impl Substitution {
                     let renamed = renaming.apply(pool, inner);
                     self.apply(pool, &renamed)
                 };
-                pool.add(Term::Let(new_bindings, new_term))
+                pool.add(Term::Let(BindingList(new_bindings), new_term))
             }
             Term::Const(_) | Term::Var(..) => term.clone(),
             Term::ParamOp { op, op_args, args } => {
@@ -323,7 +331,7 @@ impl Substitution {
             return original_term.clone();
         }
 
-        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, false);
+        let (new_bindings, mut renaming) = self.rename_binding_list(pool, binding_list, inner, false);
         let new_term = if renaming.is_empty() {
             self.apply(pool, inner)
         } else {
@@ -345,10 +353,20 @@ impl Substitution {
         &mut self,
         pool: &mut dyn TermPool,
         binding_list: &[SortedVar],
+        inner: &Rc<Term>,
         is_value_list: bool,
     ) -> (BindingList, Self) {
         let mut new_substitution = Self::empty();
         let mut new_vars = IndexSet::new();
+
+        // A new name must not capture the other variables that are free in the inner term
+        let is_free_in_inner = |pool: &mut dyn TermPool, name: &String| {
+            pool.free_vars(inner)
+                .iter()
+                .filter_map(|v| v.as_var())
+                .any(|v| v == name && binding_list.iter().all(|(b, _)| b != name))
+        };
+
         let new_binding_list = binding_list
             .iter()
             .map(|(var, value)| {
@@ -367,12 +385,14 @@ impl Substitution {
                 loop {
                     if !new_vars.contains(&new_var)
                         && !self.should_be_renamed.as_ref().unwrap().contains(&new_var)
+                        && !(changed && is_free_in_inner(pool, &new_var))
                     {
                         break;
                     }
                     new_var.push('\'');
                     changed = true;
                 }
+                new_vars.insert(new_var.clone());
 
                 if changed {
                     // If the variable was renamed, we have to add this renaming to the resulting
@@ -383,17 +403,8 @@ impl Substitution {
                     // We can safely unwrap here because `old` and `new` are guaranteed to have the
                     // same sort
                     new_substitution.insert(pool, old, new).unwrap();
-                    new_vars.insert(new_var.clone());
                 }
-
-                // If the binding list is a "value" list, we need to apply the current substitution
-                // to each variable's value
-                let new_value = if is_value_list {
-                    new_substitution.apply(pool, value)
-                } else {
-                    value.clone()
-                };
-                (new_var, new_value)
+                (new_var, value.clone())
             })
             .collect();
         (BindingList(new_binding_list), new_substitution)
-- 
2.43.0


From c592650951c7dd82de26c56d97e07b8d7d132303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 13/37] fix: bind_let requires that the context does not
 replace its bindings

Otherwise the equality of the inner terms is about other variables.
---
 carcara/src/checker/rules/extras.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/carcara/src/checker/rules/extras.rs b/carcara/src/checker/rules/extras.rs
index 3fa759e..f603fb6 100644
--- a/carcara/src/checker/rules/extras.rs
+++ b/carcara/src/checker/rules/extras.rs
@@ -1,14 +1,18 @@
 //! This module contains rules that are not yet in the specification for the Alethe format.
 
 use super::{
-    assert_clause_len, assert_eq, assert_num_premises, get_premise_term, CheckerError,
-    EqualityError, RuleArgs, RuleResult,
+    assert_clause_len, assert_eq, assert_num_premises, get_premise_term, subproof::assert_no_capture,
+    CheckerError, EqualityError, RuleArgs, RuleResult,
 };
 use crate::{
     ast::*,
-    checker::{error::CongruenceError, rules::assert_operation_len},
+    checker::{
+        error::{CongruenceError, SubproofError},
+        rules::assert_operation_len,
+    },
     utils::{MultiSet, MultiSetDifference},
 };
+use indexmap::IndexSet;
 
 pub fn reordering(RuleArgs { conclusion, premises, .. }: RuleArgs) -> RuleResult {
     assert_num_premises(premises, 1)?;
@@ -114,6 +118,8 @@ pub fn bind_let(
     RuleArgs {
         conclusion,
         premises,
+        pool,
+        context,
         previous_command,
         ..
     }: RuleArgs,
@@ -153,7 +159,22 @@ pub fn bind_let(
     }
 
     assert_eq(left, phi)?;
-    assert_eq(right, phi_prime)
+    assert_eq(right, phi_prime)?;
+
+    // The contexts cannot replace the bindings, nor any other variable by them
+    let bound: IndexSet<_> = l_bindings
+        .iter()
+        .map(|(x, t)| {
+            let sort = pool.sort(t);
+            pool.add((x.clone(), sort).into())
+        })
+        .collect();
+    if let Some(x) = bound.iter().find(|&x| context.apply(pool, x) != *x) {
+        let x = x.as_var().unwrap().to_owned();
+        return Err(SubproofError::UnexpectedAssignment(x).into());
+    }
+    assert_no_capture(pool, context, phi, &bound, &bound)?;
+    assert_no_capture(pool, context, phi_prime, &bound, &bound)
 }
 
 pub fn la_mult_pos(args: RuleArgs) -> RuleResult {
-- 
2.43.0


From f4e3643b5be18109a797d2d52f15fd3eefb8dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 14/37] fix: aci_simp removes repeated arguments of idempotent
 operators only

It accepted, e.g., (= (+ x x) x).
---
 carcara/src/checker/rules/simplification.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/carcara/src/checker/rules/simplification.rs b/carcara/src/checker/rules/simplification.rs
index 230667f..f2da08d 100644
--- a/carcara/src/checker/rules/simplification.rs
+++ b/carcara/src/checker/rules/simplification.rs
@@ -757,6 +757,14 @@ fn is_assoc(op: Operator) -> bool {
     )
 }
 
+// Operators for which repeated arguments can be removed
+fn is_idempotent(op: Operator) -> bool {
+    matches!(
+        op,
+        Operator::Or | Operator::And | Operator::BvAnd | Operator::BvOr
+    )
+}
+
 // Term is given as argument as well because if the operator is
 // parametric, such as a BV operator, the width of the arguments will
 // be relevant.
@@ -861,6 +869,7 @@ fn apply_aci_simp(
     let result = match term.as_ref() {
         // flatten and remove duplicate on the result
         Term::Op(opp, args) if *opp == op => {
+            let mut seen = IndexSet::new();
             let args: Vec<_> = args
                 .iter()
                 .flat_map(|term| {
@@ -870,7 +879,7 @@ fn apply_aci_simp(
                         _ => vec![term.clone()],
                     }
                 })
-                .dedup()
+                .filter(|t| !is_idempotent(op) || seen.insert(t.clone()))
                 .filter(|t| identity.is_none() || *t.as_ref() != identity.clone().unwrap())
                 .collect();
             if args.len() == 1 {
-- 
2.43.0


From c5c3796bf104a42ee93ab9fad3b9ac2bac68bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 15/37] fix: local variables shadow the names of defined
 functions

---
 carcara/src/parser/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index e07c865..52efdef 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -212,6 +212,17 @@ impl<'a, R: BufRead> Parser<'a, R> {
         self.state.symbol_table.insert(HashCache::new(symbol), sort);
     }
 
+    /// Returns `true` if the name refers to a defined function, that is, if there is a definition
+    /// of that name, and it is not shadowed by a local variable.
+    fn is_defined_function(&self, name: &str) -> bool {
+        self.state.function_defs.contains_key(name)
+            && self
+                .state
+                .symbol_table
+                .get_with_depth(&HashCache::new(name.to_owned()))
+                .is_none_or(|(depth, _)| depth == 0)
+    }
+
     /// Shortcut for `self.problem.as_mut().unwrap().prelude`
     fn prelude(&mut self) -> &mut ProblemPrelude {
         &mut self.problem.as_mut().unwrap().prelude
@@ -1335,7 +1346,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
             (Token::String(s), _) => Term::new_string(s),
             (Token::Symbol(s), pos) => {
                 // Check to see if there is a nullary function defined with this name
-                return if let Some(func) = self.state.function_defs.get(&s) {
+                return if self.is_defined_function(&s) {
+                    let func = &self.state.function_defs[&s];
                     func.apply(self.pool, Vec::new())
                         .map_err(|err| Error::Parser(err, pos))
                 } else if let Ok(op) = Operator::from_str(&s) {
@@ -1781,7 +1793,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
                 Ok(result)
             }
-            Token::Symbol(s) if self.state.function_defs.get(s).is_some() => {
+            Token::Symbol(s) if self.is_defined_function(s) => {
                 let head_pos = self.current_position;
                 let func_name = self.expect_symbol()?;
                 let args = self.parse_sequence(Self::parse_term, true)?;
-- 
2.43.0


From 805a38581f99ae7dc08de07c15a4c4dc58561ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 16/37] fix: the body of a definition is not captured by local
 variables

---
 carcara/src/parser/error.rs |  4 ++++
 carcara/src/parser/mod.rs   | 44 ++++++++++++++++++++++++++++++++-----
 carcara/src/utils.rs        | 14 ++++++++++++
 3 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/carcara/src/parser/error.rs b/carcara/src/parser/error.rs
index 1fd03ac..665fb78 100644
--- a/carcara/src/parser/error.rs
+++ b/carcara/src/parser/error.rs
@@ -109,6 +109,10 @@ pub enum ParserError {
     #[error("{0} is not a valid sort arity")]
     InvalidSortArity(Integer),
 
+    /// A defined function is used where a symbol that appears in its definition is shadowed.
+    #[error("function '{0}' is used where the symbol '{1}' of its definition is shadowed")]
+    ShadowedDefinition(String, Rc<Term>),
+
     /// The parser encountered an empty subproof
     #[error("subproof '{0}' is empty")]
     EmptySubproof(String),
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 52efdef..2e7fcbf 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -104,6 +104,9 @@ pub fn parse_instance_with_pool<T: BufRead>(
 struct FunctionDef {
     params: Vec<SortedVar>,
     body: Rc<Term>,
+
+    /// The local variables that were shadowing a global symbol where the function was defined.
+    shadowing: Vec<SortedVar>,
 }
 
 impl FunctionDef {
@@ -223,6 +226,36 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 .is_none_or(|(depth, _)| depth == 0)
     }
 
+    /// Returns the local variables in scope that shadow a global symbol of the same sort.
+    fn shadowing_vars(&self) -> Vec<SortedVar> {
+        let table = &self.state.symbol_table;
+        table
+            .local_entries()
+            .filter(|(name, sort)| table.get_global(*name) == Some(*sort))
+            .map(|(name, sort)| (name.as_ref().clone(), sort.clone()))
+            .collect()
+    }
+
+    /// Applies the defined function with the given name. Since this replaces the name by the body
+    /// of the definition, the global symbols that appear in it must not be shadowed here.
+    fn apply_function_def(
+        &mut self,
+        name: &str,
+        args: Vec<Rc<Term>>,
+    ) -> Result<Rc<Term>, ParserError> {
+        let shadowing = self.shadowing_vars();
+        let func = &self.state.function_defs[name];
+        for var in shadowing {
+            if !func.shadowing.contains(&var) && !func.params.contains(&var) {
+                let var = self.pool.add(var.into());
+                if self.pool.free_vars(&func.body).contains(&var) {
+                    return Err(ParserError::ShadowedDefinition(name.to_owned(), var));
+                }
+            }
+        }
+        func.apply(self.pool, args)
+    }
+
     /// Shortcut for `self.problem.as_mut().unwrap().prelude`
     fn prelude(&mut self) -> &mut ProblemPrelude {
         &mut self.problem.as_mut().unwrap().prelude
@@ -1224,7 +1257,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
 
         self.expect_token(Token::CloseParen)?;
 
-        Ok((name, FunctionDef { params, body }))
+        let shadowing = self.shadowing_vars();
+        Ok((name, FunctionDef { params, body, shadowing }))
     }
 
     /// Adds the premise corresponding to a `define-fun-rec` function definition.
@@ -1347,8 +1381,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
             (Token::Symbol(s), pos) => {
                 // Check to see if there is a nullary function defined with this name
                 return if self.is_defined_function(&s) {
-                    let func = &self.state.function_defs[&s];
-                    func.apply(self.pool, Vec::new())
+                    self.apply_function_def(&s, Vec::new())
                         .map_err(|err| Error::Parser(err, pos))
                 } else if let Ok(op) = Operator::from_str(&s) {
                     let args = Vec::new();
@@ -1484,6 +1517,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                         let func_def = FunctionDef {
                             params: Vec::new(),
                             body: inner.clone(),
+                            shadowing: p.shadowing_vars(),
                         };
                         p.state.function_defs.insert(name, func_def);
                         Ok(())
@@ -1797,9 +1831,7 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 let head_pos = self.current_position;
                 let func_name = self.expect_symbol()?;
                 let args = self.parse_sequence(Self::parse_term, true)?;
-                let func = self.state.function_defs.get(&func_name).unwrap();
-
-                func.apply(self.pool, args)
+                self.apply_function_def(&func_name, args)
                     .map_err(|err| Error::Parser(err, head_pos))
             }
             Token::OpenParen => {
diff --git a/carcara/src/utils.rs b/carcara/src/utils.rs
index 3ad9401..9558150 100644
--- a/carcara/src/utils.rs
+++ b/carcara/src/utils.rs
@@ -162,6 +162,20 @@ impl<K: Eq + Hash, V> HashMapStack<K, V> {
             .find_map(|(depth, scope)| scope.get(key).map(|v| (depth, v)))
     }
 
+    /// Returns the value of a key in the outermost scope.
+    pub fn get_global<Q>(&self, key: &Q) -> Option<&V>
+    where
+        K: Borrow<Q>,
+        Q: Eq + Hash + ?Sized,
+    {
+        self.scopes[0].get(key)
+    }
+
+    /// Returns an iterator over the entries of all scopes except the outermost one.
+    pub fn local_entries(&self) -> impl Iterator<Item = (&K, &V)> {
+        self.scopes[1..].iter().flatten()
+    }
+
     pub fn insert(&mut self, key: K, value: V) {
         self.scopes.last_mut().unwrap().insert(key, value);
     }
-- 
2.43.0


From b8779e5f74dec39a29b3d90725bd7105c78564a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 17/37] fix: quote rule names and discharged ids when printing
 a step

---
 carcara/src/ast/printer.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index ba79f0d..d852450 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     ast::*,
-    parser::Token,
+    parser::{Reserved, Token},
     utils::{is_symbol_character, DedupIterator},
 };
 use indexmap::IndexMap;
@@ -10,6 +10,7 @@ use std::{
     borrow::Cow,
     collections::{HashMap, HashSet},
     fmt, io,
+    str::FromStr,
     sync::atomic::{AtomicBool, Ordering},
 };
 
@@ -377,7 +378,12 @@ impl<'a> AlethePrinter<'a> {
         }
         write!(self.inner, ")")?;
 
-        write!(self.inner, " :rule {}", step.rule)?;
+        // Rule names can be reserved words, which don't need to be quoted here
+        let rule = match Reserved::from_str(&step.rule) {
+            Ok(_) => Cow::Borrowed(step.rule.as_str()),
+            Err(_) => quote_symbol(&step.rule),
+        };
+        write!(self.inner, " :rule {}", rule)?;
 
         if let [head, tail @ ..] = step.premises.as_slice() {
             let id = iter.get_premise(*head).id();
@@ -401,7 +407,7 @@ impl<'a> AlethePrinter<'a> {
 
         if let [head, tail @ ..] = step.discharge.as_slice() {
             let id = iter.get_premise(*head).id();
-            write!(self.inner, " :discharge ({}", id)?;
+            write!(self.inner, " :discharge ({}", quote_symbol(id))?;
             for discharge in tail {
                 let id = iter.get_premise(*discharge).id();
                 write!(self.inner, " {}", quote_symbol(id))?;
@@ -436,9 +442,6 @@ where
 }
 
 fn quote_symbol(symbol: &str) -> Cow<'_, str> {
-    use crate::parser::Reserved;
-    use std::str::FromStr;
-
     assert!(symbol.chars().all(|c| c != '|'));
 
     // Any symbol that:
-- 
2.43.0


From 67e3dd14495ecf4dd5d093bda34dc14fc642d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 18/37] fix: quote symbols that would be read back as negative
 numbers

---
 carcara/src/ast/printer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index d852450..7b8efa4 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -446,12 +446,15 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
 
     // Any symbol that:
     // - is an empty string,
-    // - starts with a digit,
+    // - starts with a digit, or a minus sign and a digit,
     // - is a reserved word, or
     // - contains non-symbol characters
     // must be quoted
     if symbol.is_empty()
-        || symbol.chars().next().unwrap().is_ascii_digit()
+        || symbol
+            .strip_prefix('-')
+            .unwrap_or(symbol)
+            .starts_with(|c: char| c.is_ascii_digit())
         || Reserved::from_str(symbol).is_ok()
         || symbol.chars().any(|c| !is_symbol_character(c))
     {
-- 
2.43.0


From ab257146757460ec0e4b1b670670070d5ea581b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 19/37] fix: escape backslashes that would be read back as
 escape sequences

---
 carcara/src/ast/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 7b8efa4..20f47fb 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -465,8 +465,10 @@ fn quote_symbol(symbol: &str) -> Cow<'_, str> {
 }
 
 fn escape_string(string: &str) -> Cow<'_, str> {
-    if string.contains('"') {
-        Cow::Owned(string.replace('"', "\"\""))
+    if string.contains('"') || string.contains("\\u") {
+        // A literal `\u` must not be read back as the start of an escape sequence
+        let escaped = string.replace("\\u", "\\u{5c}u");
+        Cow::Owned(escaped.replace('"', "\"\""))
     } else {
         Cow::Borrowed(string)
     }
-- 
2.43.0


From 12e604b0bc3c5f91cd74c3d608e24fa76c03318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 20/37] fix: print qualified operators with `as`

---
 carcara/src/ast/printer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 20f47fb..9bd15d8 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -359,7 +359,10 @@ impl<'a> AlethePrinter<'a> {
                 if !args.is_empty() {
                     write!(self.inner, "(")?;
                 }
-                write!(self.inner, "(_ {}", op)?;
+                // Some operators are qualified by a sort, instead of indexed
+                let is_qualified = *op == ParamOperator::ArrayConst;
+                let prefix = if is_qualified { "as" } else { "_" };
+                write!(self.inner, "({} {}", prefix, op)?;
                 self.write_s_expr_tail(op_args)?;
                 if !args.is_empty() {
                     self.write_s_expr_tail(args)?;
-- 
2.43.0


From 4da9dfe5f0aea37be5203b84e58e3ae45c922e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:47 +0000
Subject: [PATCH 21/37] fix: printed proofs do not refer to shared terms where
 they would be captured

---
 carcara/src/ast/printer.rs | 49 +++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 9bd15d8..7f9421f 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -103,7 +103,9 @@ impl<T: PrintWithSharing> PrintWithSharing for &T {
 impl PrintWithSharing for Rc<Term> {
     fn print_with_sharing(&self, p: &mut AlethePrinter) -> io::Result<()> {
         if let Some(name) = p.defined_constants.get(self) {
-            return write!(p.inner, "{}", quote_symbol(name));
+            if !is_captured(p.pool, &p.bound_vars, self) {
+                return write!(p.inner, "{}", quote_symbol(name));
+            }
         }
         if let Some(indices) = &mut p.term_indices {
             // There are a few cases where we don't use sharing when printing a term:
@@ -123,7 +125,10 @@ impl PrintWithSharing for Rc<Term> {
                 || Rc::strong_count(self) <= 3
                 // - Terms which are not closed, that is, terms which have free variables besides
                 // the global variables, cannot be shared
-                || !self.is_closed(p.pool, &p.global_vars);
+                || !self.is_closed(p.pool, &p.global_vars)
+                // - Terms with global variables that are shadowed here, since the name of a term
+                // always stands for the term outside of any binders
+                || is_captured(p.pool, &p.bound_vars, self);
 
             if !cannot_use_sharing {
                 return if let Some(i) = indices.get(self) {
@@ -177,6 +182,14 @@ impl PrintWithSharing for ParamOperator {
     }
 }
 
+/// Returns `true` if any of the free variables of `term` is in `bound_vars`.
+fn is_captured(pool: &mut PrimitivePool, bound_vars: &[Rc<Term>], term: &Rc<Term>) -> bool {
+    !bound_vars.is_empty() && {
+        let free_vars = pool.free_vars(term);
+        bound_vars.iter().any(|x| free_vars.contains(x))
+    }
+}
+
 struct AlethePrinter<'a> {
     pool: &'a mut PrimitivePool,
     inner: &'a mut dyn io::Write,
@@ -184,6 +197,9 @@ struct AlethePrinter<'a> {
     term_sharing_variable_prefix: &'static str,
     global_vars: HashSet<Rc<Term>>,
     defined_constants: HashMap<Rc<Term>, String>,
+
+    /// The variables bound by the binders and subproofs that are currently being printed.
+    bound_vars: Vec<Rc<Term>>,
     smt_lib_strict: bool,
 }
 
@@ -203,6 +219,7 @@ impl PrintProof for AlethePrinter<'_> {
             .map(|(name, term)| (term, name))
             .collect();
         let mut iter = proof.iter();
+        let mut outer_bound_vars = Vec::new();
         while let Some(command) = iter.next() {
             match command {
                 ProofCommand::Assume { id, term } => {
@@ -210,8 +227,14 @@ impl PrintProof for AlethePrinter<'_> {
                     term.print_with_sharing(self)?;
                     write!(self.inner, ")")?;
                 }
-                ProofCommand::Step(s) => self.write_step(&mut iter, s)?,
+                ProofCommand::Step(s) => {
+                    self.write_step(&mut iter, s)?;
+                    if iter.is_end_step() {
+                        self.bound_vars.truncate(outer_bound_vars.pop().unwrap());
+                    }
+                }
                 ProofCommand::Subproof(s) => {
+                    outer_bound_vars.push(self.bound_vars.len());
                     write!(self.inner, "(anchor :step {}", quote_symbol(command.id()))?;
 
                     if !s.args.is_empty() {
@@ -228,6 +251,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, "({} ", quote_symbol(name))?;
                                     sort.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.bind_var((name.clone(), sort.clone()));
                                 }
                                 AnchorArg::Assign(var, value) => {
                                     write!(self.inner, "(:= ")?;
@@ -235,6 +259,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, " ")?;
                                     value.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
+                                    self.bind_var(var.clone());
                                 }
                             }
                         }
@@ -274,10 +299,16 @@ impl<'a> AlethePrinter<'a> {
             term_sharing_variable_prefix: "@p_",
             global_vars: global_variables,
             defined_constants: HashMap::new(),
+            bound_vars: Vec::new(),
             smt_lib_strict: false,
         }
     }
 
+    fn bind_var(&mut self, var: SortedVar) {
+        let var = self.pool.add(var.into());
+        self.bound_vars.push(var);
+    }
+
     fn write_s_expr<H, T>(&mut self, head: &H, tail: &[T]) -> io::Result<()>
     where
         H: PrintWithSharing + ?Sized,
@@ -345,14 +376,25 @@ impl<'a> AlethePrinter<'a> {
                 write!(self.inner, "({} ", binder)?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
+                let outer = self.bound_vars.len();
+                for var in bindings {
+                    self.bind_var(var.clone());
+                }
                 term.print_with_sharing(self)?;
+                self.bound_vars.truncate(outer);
                 write!(self.inner, ")")
             }
             Term::Let(bindings, term) => {
                 write!(self.inner, "(let ")?;
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
+                let outer = self.bound_vars.len();
+                for (name, value) in bindings {
+                    let sort = self.pool.sort(value);
+                    self.bind_var((name.clone(), sort));
+                }
                 term.print_with_sharing(self)?;
+                self.bound_vars.truncate(outer);
                 write!(self.inner, ")")
             }
             Term::ParamOp { op, op_args, args } => {
@@ -492,6 +534,7 @@ impl fmt::Display for Term {
             term_sharing_variable_prefix: "@p_",
             global_vars: HashSet::new(),
             defined_constants: HashMap::new(),
+            bound_vars: Vec::new(),
             smt_lib_strict: false,
         };
         printer.write_raw_term(self).unwrap();
-- 
2.43.0


From 2e3fa7e74da32d9b7b4559b74abc9f6da7beb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 22/37] fix: rational literals without a denominator are
 reported as errors

---
 carcara/src/parser/error.rs | 4 ++++
 carcara/src/parser/lexer.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/carcara/src/parser/error.rs b/carcara/src/parser/error.rs
index 665fb78..0063236 100644
--- a/carcara/src/parser/error.rs
+++ b/carcara/src/parser/error.rs
@@ -40,6 +40,10 @@ pub enum ParserError {
     #[error("invalid Unicode value: 0x'{0}'")]
     InvalidUnicode(String),
 
+    /// The lexer encountered a rational literal with no denominator, e.g. `1/`.
+    #[error("rational literal '{0}/' has no denominator")]
+    MissingDenominatorInLiteral(String),
+
     /// The lexer encountered a bitvector literal with no actual digits. This
     /// happens when the bitvector literal is just `#`, `#b` or `#x`.
     #[error("empty bitvector literal")]
diff --git a/carcara/src/parser/lexer.rs b/carcara/src/parser/lexer.rs
index 0323dc9..c87d337 100644
--- a/carcara/src/parser/lexer.rs
+++ b/carcara/src/parser/lexer.rs
@@ -385,6 +385,10 @@ impl<R: BufRead> Lexer<R> {
             }
             let r = match delimiter {
                 '/' => {
+                    if second_part.is_empty() {
+                        let e = ParserError::MissingDenominatorInLiteral(first_part);
+                        return Err(Error::Parser(e, self.position));
+                    }
                     let [numer, denom] =
                         [first_part, second_part].map(|s| s.parse::<Integer>().unwrap());
                     if denom.is_zero() {
-- 
2.43.0


From 8d2474ac53a95fbaa7aaf717427c87a69ceacca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 23/37] fix: the values of a let term can have free variables

---
 carcara/src/ast/pool/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index cdeed27..3e156b5 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -428,6 +428,10 @@ impl PrimitivePool {
                     let term = self.add_with_priorities((var.clone(), sort).into(), prior_pools);
                     vars.swap_remove(&term);
                 }
+                // The values are outside of the scope of the bindings
+                for (_, value) in bindings {
+                    vars.extend(self.free_vars_with_priorities(value, prior_pools).into_iter());
+                }
                 vars
             }
             Term::Var(..) => {
-- 
2.43.0


From dfb23ed5bd6cfbdf471cd601227a003d6b347abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:18 +0000
Subject: [PATCH 24/37] fix: terms with let can be printed outside of their
 pool

---
 carcara/src/ast/pool/mod.rs |  2 +-
 carcara/src/ast/printer.rs  | 36 ++++++++++++++++--------------------
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/carcara/src/ast/pool/mod.rs b/carcara/src/ast/pool/mod.rs
index 3e156b5..436957a 100644
--- a/carcara/src/ast/pool/mod.rs
+++ b/carcara/src/ast/pool/mod.rs
@@ -379,7 +379,7 @@ impl PrimitivePool {
                 return sort.clone();
             }
         }
-        self.sorts_cache[term].clone()
+        self.compute_sort(term)
     }
 
     // TODO: Try to workaround the lifetime specifiers and return a ref
diff --git a/carcara/src/ast/printer.rs b/carcara/src/ast/printer.rs
index 7f9421f..feda23c 100644
--- a/carcara/src/ast/printer.rs
+++ b/carcara/src/ast/printer.rs
@@ -182,12 +182,13 @@ impl PrintWithSharing for ParamOperator {
     }
 }
 
-/// Returns `true` if any of the free variables of `term` is in `bound_vars`.
-fn is_captured(pool: &mut PrimitivePool, bound_vars: &[Rc<Term>], term: &Rc<Term>) -> bool {
-    !bound_vars.is_empty() && {
-        let free_vars = pool.free_vars(term);
-        bound_vars.iter().any(|x| free_vars.contains(x))
-    }
+/// Returns `true` if the name of any of the free variables of `term` is in `bound_vars`.
+fn is_captured(pool: &mut PrimitivePool, bound_vars: &[String], term: &Rc<Term>) -> bool {
+    !bound_vars.is_empty()
+        && pool.free_vars(term).iter().any(|x| {
+            let name = x.as_var().unwrap();
+            bound_vars.iter().any(|b| b == name)
+        })
 }
 
 struct AlethePrinter<'a> {
@@ -198,8 +199,9 @@ struct AlethePrinter<'a> {
     global_vars: HashSet<Rc<Term>>,
     defined_constants: HashMap<Rc<Term>, String>,
 
-    /// The variables bound by the binders and subproofs that are currently being printed.
-    bound_vars: Vec<Rc<Term>>,
+    /// The names of the variables bound by the binders and subproofs that are currently being
+    /// printed.
+    bound_vars: Vec<String>,
     smt_lib_strict: bool,
 }
 
@@ -251,7 +253,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, "({} ", quote_symbol(name))?;
                                     sort.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
-                                    self.bind_var((name.clone(), sort.clone()));
+                                    self.bound_vars.push(name.clone());
                                 }
                                 AnchorArg::Assign(var, value) => {
                                     write!(self.inner, "(:= ")?;
@@ -259,7 +261,7 @@ impl PrintProof for AlethePrinter<'_> {
                                     write!(self.inner, " ")?;
                                     value.print_with_sharing(self)?;
                                     write!(self.inner, ")")?;
-                                    self.bind_var(var.clone());
+                                    self.bound_vars.push(var.0.clone());
                                 }
                             }
                         }
@@ -304,11 +306,6 @@ impl<'a> AlethePrinter<'a> {
         }
     }
 
-    fn bind_var(&mut self, var: SortedVar) {
-        let var = self.pool.add(var.into());
-        self.bound_vars.push(var);
-    }
-
     fn write_s_expr<H, T>(&mut self, head: &H, tail: &[T]) -> io::Result<()>
     where
         H: PrintWithSharing + ?Sized,
@@ -377,8 +374,8 @@ impl<'a> AlethePrinter<'a> {
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
                 let outer = self.bound_vars.len();
-                for var in bindings {
-                    self.bind_var(var.clone());
+                for (name, _) in bindings {
+                    self.bound_vars.push(name.clone());
                 }
                 term.print_with_sharing(self)?;
                 self.bound_vars.truncate(outer);
@@ -389,9 +386,8 @@ impl<'a> AlethePrinter<'a> {
                 bindings.print_with_sharing(self)?;
                 write!(self.inner, " ")?;
                 let outer = self.bound_vars.len();
-                for (name, value) in bindings {
-                    let sort = self.pool.sort(value);
-                    self.bind_var((name.clone(), sort));
+                for (name, _) in bindings {
+                    self.bound_vars.push(name.clone());
                 }
                 term.print_with_sharing(self)?;
                 self.bound_vars.truncate(outer);
-- 
2.43.0


From 80a9f7ee8cf97b85f4fa99f38fb529eafc93361f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 25/37] fix: eq_congruent elaboration with flipped premises
 that are also there unflipped

---
 carcara/src/elaborator/congruence.rs | 36 ++++++++++++----------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/carcara/src/elaborator/congruence.rs b/carcara/src/elaborator/congruence.rs
index c32e1e7..a8bdb94 100644
--- a/carcara/src/elaborator/congruence.rs
+++ b/carcara/src/elaborator/congruence.rs
@@ -282,6 +282,7 @@ pub fn eq_congruent(
     };
 
     let mut seen_premises = HashSet::new();
+    let mut resolution_clause = fixed_eq_congruent_step.clause().to_vec();
     let mut resolution_premises = vec![fixed_eq_congruent_step];
     let mut resolution_args = Vec::new();
 
@@ -299,44 +300,37 @@ pub fn eq_congruent(
 
         let t_eq_u = build_term!(pool, (= {t.clone()} {u.clone()}));
         let u_eq_t = build_term!(pool, (= {u.clone()} {t.clone()}));
+        let not_t_eq_u = build_term!(pool, (not {t_eq_u.clone()}));
+        let not_u_eq_t = build_term!(pool, (not {u_eq_t.clone()}));
         let eq_symmetric = Rc::new(ProofNode::Step(StepNode {
             id: ids.next_id(),
             depth: step.depth,
-            clause: vec![build_term!(pool, (= {u_eq_t.clone()} {t_eq_u.clone()}))],
+            clause: vec![build_term!(pool, (= {u_eq_t} {t_eq_u.clone()}))],
             rule: "eq_symmetric".to_owned(),
             ..StepNode::default()
         }));
         let equiv_1 = Rc::new(ProofNode::Step(StepNode {
             id: ids.next_id(),
             depth: step.depth,
-            clause: vec![build_term!(pool, (not { u_eq_t })), t_eq_u.clone()],
+            clause: vec![not_u_eq_t.clone(), t_eq_u.clone()],
             rule: "equiv1".to_owned(),
             premises: vec![eq_symmetric],
             ..StepNode::default()
         }));
         resolution_premises.push(equiv_1);
         resolution_args.extend([t_eq_u, pool.bool_false()]);
-    }
-
-    // (3) Next, we create the resolution step.
-    let resolution_clause: Vec<_> = {
-        flipped.push(false); // Add an extra `false` for the conclusion term
 
-        // The conclusion of the resolution step will be, first, all terms which are not flipped
-        // premises
-        step.clause
-            .iter()
-            .enumerate()
-            .filter(|(i, _)| !flipped[*i])
-            // ...followed by the flipped premises, which are added by resolution
-            .chain(step.clause.iter().enumerate().filter(|(i, _)| flipped[*i]))
-            .map(|(_, t)| t.clone())
-            .dedup() // ...with duplicates removed
-            .collect()
-    };
+        // Resolving with this step replaces the fixed premise by the flipped one. Note that, if the
+        // flipped premise was already there, it won't be repeated, and the fixed premise is also
+        // removed if it is there because of another premise.
+        resolution_clause.retain(|term| *term != not_t_eq_u);
+        if !resolution_clause.contains(&not_u_eq_t) {
+            resolution_clause.push(not_u_eq_t);
+        }
+    }
 
-    // If there are any duplicate premises, they were omitted in the resolution clause. We will add
-    // them back with a `weakening` step.
+    // (3) Next, we create the resolution step. If there are any duplicate premises, they were
+    // omitted in the resolution clause. We will add them back with a `weakening` step.
     let needs_weakening = step.clause.len() != resolution_clause.len();
     let resolution = Rc::new(ProofNode::Step(StepNode {
         id: ids.next_id(),
-- 
2.43.0


From 1d7e25c77c9b6bd8f97d180ddf0500c77dcf176b Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 26/37] fix: elaboration of equality modulo n-ary expansion
 builds steps that do not follow their rules

---
 carcara/src/checker/rules/clausification.rs |  32 ++--
 carcara/src/elaborator/polyeq.rs            | 179 ++++++++++++--------
 2 files changed, 120 insertions(+), 91 deletions(-)

diff --git a/carcara/src/checker/rules/clausification.rs b/carcara/src/checker/rules/clausification.rs
index b2ecf2d..e9a65c7 100644
--- a/carcara/src/checker/rules/clausification.rs
+++ b/carcara/src/checker/rules/clausification.rs
@@ -196,22 +196,13 @@ pub fn not_implies2(RuleArgs { conclusion, premises, .. }: RuleArgs) -> RuleResu
 }
 
 pub fn nary_elim(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
-    /// The three possible cases for n-ary operators: chainable, right associative and left
-    /// associative
-    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
-    enum Case {
-        Chainable,
-        RightAssoc,
-        LeftAssoc,
-    }
-
     /// A function to expand terms that fall in the right or left associative cases. For example,
     /// the term `(=> p q r s)` will be expanded into the term `(=> p (=> q (=> r s)))`.
     fn expand_assoc(
         pool: &mut dyn TermPool,
         op: Operator,
         args: &[Rc<Term>],
-        case: Case,
+        case: NaryCase,
     ) -> Rc<Term> {
         let (head, tail) = match args {
             [] => unreachable!(),
@@ -219,7 +210,7 @@ pub fn nary_elim(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
 
             // The "head" term will be the first or last term in `args`, depending on if the
             // operator is right or left associative
-            [first, rest @ ..] if case == Case::RightAssoc => (first, rest),
+            [first, rest @ ..] if case == NaryCase::RightAssoc => (first, rest),
             [rest @ .., last] => (last, rest),
         };
 
@@ -227,9 +218,9 @@ pub fn nary_elim(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         let nested = expand_assoc(pool, op, tail, case);
 
         let new_args = match case {
-            Case::RightAssoc => vec![head.clone(), nested],
-            Case::LeftAssoc => vec![nested, head.clone()],
-            Case::Chainable => unreachable!(),
+            NaryCase::RightAssoc => vec![head.clone(), nested],
+            NaryCase::LeftAssoc => vec![nested, head.clone()],
+            NaryCase::Chainable | NaryCase::Pairwise => unreachable!(),
         };
         pool.add(Term::Op(op, new_args))
     }
@@ -243,15 +234,16 @@ pub fn nary_elim(RuleArgs { conclusion, pool, .. }: RuleArgs) -> RuleResult {
         _ => return Err(CheckerError::NotValidNaryTerm(original.clone())),
     };
 
-    let case = match op {
-        Operator::Equals => Case::Chainable,
-        Operator::Add | Operator::Sub | Operator::Mult => Case::LeftAssoc,
-        Operator::Implies => Case::RightAssoc,
-        _ => return Err(CheckerError::NotValidNaryTerm(original.clone())),
+    let case = match (op, op.nary_case()) {
+        // This rule is never applied to conjunctions or disjunctions
+        (Operator::And | Operator::Or, _) | (_, None | Some(NaryCase::Pairwise)) => {
+            return Err(CheckerError::NotValidNaryTerm(original.clone()))
+        }
+        (_, Some(case)) => case,
     };
 
     let expected = match case {
-        Case::Chainable => {
+        NaryCase::Chainable => {
             let and_args: Vec<_> = args
                 .windows(2)
                 .map(|args| pool.add(Term::Op(*op, args.to_vec())))
diff --git a/carcara/src/elaborator/polyeq.rs b/carcara/src/elaborator/polyeq.rs
index f4885d9..9db384d 100644
--- a/carcara/src/elaborator/polyeq.rs
+++ b/carcara/src/elaborator/polyeq.rs
@@ -73,18 +73,22 @@ impl<'a> PolyeqElaborator<'a> {
             }
             (Term::Op(a_op, a_args), Term::Op(b_op, b_args)) => {
                 if a_op != b_op {
-                    todo!("elaborate chainable nary")
+                    if *b_op == Operator::And {
+                        self.elaborate_chainable(pool, *a_op, (&a, a_args), &b, b_args, true)
+                    } else {
+                        assert_eq!(*a_op, Operator::And);
+                        self.elaborate_chainable(pool, *b_op, (&b, b_args), &a, a_args, false)
+                    }
                 } else if a_args.len() != b_args.len() {
-                    let (nary, binary) = if a_args.len() == 2 {
-                        assert!(b_args.len() > 2);
-                        (b_args, &a)
-                    } else if b_args.len() == 2 {
+                    if b_args.len() == 2 {
                         assert!(a_args.len() > 2);
-                        (a_args, &b)
+                        self.elaborate_assoc(pool, *a_op, (&a, a_args), &b, true)
+                    } else if a_args.len() == 2 {
+                        assert!(b_args.len() > 2);
+                        self.elaborate_assoc(pool, *a_op, (&b, b_args), &a, false)
                     } else {
                         panic!("invalid associative nary case")
-                    };
-                    self.elaborate_assoc(pool, *a_op, nary, binary)
+                    }
                 } else {
                     self.build_cong(pool, (&a, &b), (a_args, b_args))
                 }
@@ -383,94 +387,127 @@ impl<'a> PolyeqElaborator<'a> {
         }
     }
 
+    /// Proves the equality between an n-ary term and its binary expansion. If `nary_is_left`, the
+    /// n-ary term is the left side of the equality; otherwise, it is the right side.
     fn elaborate_assoc(
         &mut self,
         pool: &mut PrimitivePool,
         op: Operator,
-        nary: &[Rc<Term>],
+        (nary, nary_args): (&Rc<Term>, &[Rc<Term>]),
         binary: &Rc<Term>,
+        nary_is_left: bool,
     ) -> Rc<ProofNode> {
-        assert!(matches!(
-            op.nary_case(),
-            Some(NaryCase::RightAssoc | NaryCase::LeftAssoc)
-        ));
-        let mut premises = Vec::new();
-        let mut normalized_args = self.get_assoc_premises(pool, &mut premises, op, nary, binary);
-
-        if premises.is_empty() {
-            let nary = pool.add(Term::Op(op, nary.to_vec()));
-            return Rc::new(ProofNode::Step(StepNode {
-                id: self.ids.next_id(),
-                depth: self.depth(),
-                clause: vec![build_term!(pool, (= {nary} {binary.clone()}))],
-                rule: "nary_elim".to_owned(),
-                ..Default::default()
-            }));
-        }
-
-        if op.nary_case() == Some(NaryCase::RightAssoc) {
-            normalized_args.reverse();
-        }
-
-        let nary = pool.add(Term::Op(op, nary.to_vec()));
-        let normalized = pool.add(Term::Op(op, normalized_args));
-        let cong_step = Rc::new(ProofNode::Step(StepNode {
-            id: self.ids.next_id(),
-            depth: self.depth(),
-            clause: vec![build_term!(pool, (= {nary.clone()} {normalized.clone()}))],
-            rule: "cong".to_owned(),
-            premises,
-            ..Default::default()
-        }));
+        // First, we collect the arguments of the binary expansion, which may not be syntactically
+        // identical to those of the n-ary term. The `nary_elim` step will then derive
+        // `(= (op binary_args...) binary)`. Since that rule can't be applied to conjunctions and
+        // disjunctions, we use `aci_simp` for them instead.
+        let rule = match op {
+            Operator::And | Operator::Or => "aci_simp",
+            _ => "nary_elim",
+        };
+        let binary_args = Self::get_assoc_args(op, nary_args.len(), binary);
+        let normalized = pool.add(Term::Op(op, binary_args.clone()));
         let nary_elim_step = Rc::new(ProofNode::Step(StepNode {
             id: self.ids.next_id(),
             depth: self.depth(),
             clause: vec![build_term!(pool, (= {normalized.clone()} {binary.clone()}))],
-            rule: "nary_elim".to_owned(),
+            rule: rule.to_owned(),
             ..Default::default()
         }));
 
-        add_trans_step(pool, [cong_step, nary_elim_step], self.ids.next_id())
+        if nary_is_left {
+            if normalized == *nary {
+                return nary_elim_step;
+            }
+            let cong_step = self.build_cong(pool, (nary, &normalized), (nary_args, &binary_args));
+            add_trans_step(pool, [cong_step, nary_elim_step], self.ids.next_id())
+        } else {
+            let symm_step = add_symm_step(pool, &nary_elim_step, self.ids.next_id());
+            if normalized == *nary {
+                return symm_step;
+            }
+            let cong_step = self.build_cong(pool, (&normalized, nary), (&binary_args, nary_args));
+            add_trans_step(pool, [symm_step, cong_step], self.ids.next_id())
+        }
     }
 
-    fn get_assoc_premises(
+    /// Proves the equality between a chainable n-ary term and its expansion as a conjunction. If
+    /// `chain_is_left`, the n-ary term is the left side of the equality; otherwise, it is the right
+    /// side.
+    fn elaborate_chainable(
         &mut self,
         pool: &mut PrimitivePool,
-        premises: &mut Vec<Rc<ProofNode>>,
         op: Operator,
-        nary: &[Rc<Term>],
-        binary: &Rc<Term>,
-    ) -> Vec<Rc<Term>> {
-        let is_right = op.nary_case() == Some(NaryCase::RightAssoc);
-        let (nary_head, nary_tail) = match nary {
-            [] => panic!("invalid associative nary case"),
-            [single] => {
-                if single != binary {
-                    premises.push(self.elaborate(pool, single.clone(), binary.clone()));
-                }
-                return vec![binary.clone()];
-            }
-            [first, rest @ ..] if is_right => (first, rest),
-            [rest @ .., last] => (last, rest),
-        };
+        (chain, chain_args): (&Rc<Term>, &[Rc<Term>]),
+        conjunction: &Rc<Term>,
+        conjuncts: &[Rc<Term>],
+        chain_is_left: bool,
+    ) -> Rc<ProofNode> {
+        assert_eq!(op.nary_case(), Some(NaryCase::Chainable));
+        assert_eq!(chain_args.len(), conjuncts.len() + 1);
+
+        // First, we derive the equality between the n-ary term and its expansion, whose conjuncts
+        // may not be syntactically identical to those of the conjunction.
+        let expanded_args: Vec<_> = chain_args
+            .windows(2)
+            .map(|args| pool.add(Term::Op(op, args.to_vec())))
+            .collect();
+        let expanded = pool.add(Term::Op(Operator::And, expanded_args.clone()));
+        let nary_elim_step = Rc::new(ProofNode::Step(StepNode {
+            id: self.ids.next_id(),
+            depth: self.depth(),
+            clause: vec![build_term!(pool, (= {chain.clone()} {expanded.clone()}))],
+            rule: "nary_elim".to_owned(),
+            ..Default::default()
+        }));
 
-        let (binary_head, binary_tail) = match binary.as_op() {
-            Some((inner_op, [l, r])) if inner_op == op => {
-                if is_right {
-                    (l, r)
-                } else {
-                    (r, l)
-                }
+        if chain_is_left {
+            if expanded == *conjunction {
+                return nary_elim_step;
             }
+            let cong_step =
+                self.build_cong(pool, (&expanded, conjunction), (&expanded_args, conjuncts));
+            add_trans_step(pool, [nary_elim_step, cong_step], self.ids.next_id())
+        } else {
+            let symm_step = add_symm_step(pool, &nary_elim_step, self.ids.next_id());
+            if expanded == *conjunction {
+                return symm_step;
+            }
+            let cong_step =
+                self.build_cong(pool, (conjunction, &expanded), (conjuncts, &expanded_args));
+            add_trans_step(pool, [cong_step, symm_step], self.ids.next_id())
+        }
+    }
+
+    /// Collects the `num_args` arguments of the n-ary term that has `binary` as its expansion.
+    fn get_assoc_args(op: Operator, num_args: usize, binary: &Rc<Term>) -> Vec<Rc<Term>> {
+        let is_right = match op.nary_case() {
+            Some(NaryCase::RightAssoc) => true,
+            Some(NaryCase::LeftAssoc) => false,
             _ => panic!("invalid associative nary case"),
         };
 
-        if nary_head != binary_head {
-            premises.push(self.elaborate(pool, nary_head.clone(), binary_head.clone()));
+        let mut args = Vec::with_capacity(num_args);
+        let mut current = binary;
+        while args.len() + 1 < num_args {
+            let (head, tail) = match current.as_op() {
+                Some((inner_op, [l, r])) if inner_op == op => {
+                    if is_right {
+                        (l, r)
+                    } else {
+                        (r, l)
+                    }
+                }
+                _ => panic!("invalid associative nary case"),
+            };
+            args.push(head.clone());
+            current = tail;
         }
+        args.push(current.clone());
 
-        let mut args = self.get_assoc_premises(pool, premises, op, nary_tail, binary_tail);
-        args.push(binary_head.clone());
+        if !is_right {
+            args.reverse();
+        }
         args
     }
 }
-- 
2.43.0


From cd3c7efd013632ff7abf32fd033111a38f1b70ad Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:07:44 +0000
Subject: [PATCH 27/37] fix: the parser panicked on a (@delete) application
 with no arguments

---
 carcara/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 2e7fcbf..af81ca9 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -518,8 +518,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
             }
             Operator::Cl => {}
             Operator::Delete => {
-                SortError::assert_eq(&Sort::Bool, sorts[0])?;
                 assert_num_args(&args, 1)?;
+                SortError::assert_eq(&Sort::Bool, sorts[0])?;
             }
             Operator::BvAdd
             | Operator::BvMul
-- 
2.43.0


From d232d2b8185cb3855c1196f91f281736816f35f3 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:07:44 +0000
Subject: [PATCH 28/37] fix: the arguments of an n-ary division after the
 second were dropped

---
 carcara/src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index af81ca9..cd40bfd 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -356,8 +356,10 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     SortError::assert_all_eq(&sorts)?;
                 }
 
-                if let Some(r) = self.interpret_div_as_real_lit(&args[0], &args[1]) {
-                    return Ok(r);
+                if let [a, b] = args.as_slice() {
+                    if let Some(r) = self.interpret_div_as_real_lit(a, b) {
+                        return Ok(r);
+                    }
                 }
             }
             Operator::Mod => {
-- 
2.43.0


From fefbc6e449f0b5b196b11453524e0cc13c14b7be Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:08:56 +0000
Subject: [PATCH 29/37] fix: division literals were compared ignoring further
 arguments and the order of numerator and denominator

---
 carcara/src/ast/polyeq.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 72bbc24..983879a 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -553,30 +553,36 @@ impl PolyeqComparable for Term {
             (Term::Let(binds_a, a), Term::Let(binds_b, b)) => {
                 comp.compare_binder(binds_a, binds_b, a, b)
             }
-            (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args)) => {
+            (Term::Const(Constant::Real(r)), Term::Op(Operator::RealDiv, args))
+                if args.len() == 2 =>
+            {
                 // if a is a rational and b a division literal, check
                 // if they are the same
                 match (args[0].as_ref(), args[1].as_ref()) {
                     (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r1.is_integer() && r2.is_integer() =>
+                        if r1.is_integer() && r2.is_integer() && !r2.is_zero() =>
                     {
                         Rational::from((r1.numer(), r2.numer())) == r.clone()
                     }
                     _ => false,
                 }
             }
-            (Term::Op(Operator::RealDiv, args), Term::Const(Constant::Real(r))) => {
+            (Term::Op(Operator::RealDiv, args), Term::Const(Constant::Real(r)))
+                if args.len() == 2 =>
+            {
                 // if a is a rational and b a division literal, check
                 // if they are the same
                 match (args[0].as_ref(), args[1].as_ref()) {
                     (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                        if r.is_positive() && r1.is_integer() && r2.is_integer() =>
+                        if r.is_positive()
+                            && r1.is_integer()
+                            && r2.is_integer()
+                            && !r2.is_zero() =>
                     {
                         Rational::from((r1.numer(), r2.numer())) == r.clone()
                     }
                     (Term::Op(Operator::Sub, args), Term::Const(Constant::Integer(r2)))
-                    | (Term::Const(Constant::Integer(r2)), Term::Op(Operator::Sub, args))
-                        if r.is_negative() && args.len() == 1 =>
+                        if r.is_negative() && args.len() == 1 && !r2.is_zero() =>
                     {
                         if let Term::Const(Constant::Integer(r1)) = args[0].as_ref() {
                             Rational::from((r1, r2)) == r.clone().abs()
@@ -584,6 +590,16 @@ impl PolyeqComparable for Term {
                             false
                         }
                     }
+                    (Term::Const(Constant::Integer(r1)), Term::Op(Operator::Sub, args))
+                        if r.is_negative() && args.len() == 1 =>
+                    {
+                        match args[0].as_ref() {
+                            Term::Const(Constant::Integer(r2)) if !r2.is_zero() => {
+                                Rational::from((r1, r2)) == r.clone().abs()
+                            }
+                            _ => false,
+                        }
+                    }
                     _ => false,
                 }
             }
@@ -594,7 +610,7 @@ impl PolyeqComparable for Term {
                 if let Term::Const(Constant::Integer(i2)) = args[0].as_ref() {
                     i1.clone().abs() == i2.clone()
                 } else if let Term::Const(Constant::Real(r2)) = args[0].as_ref() {
-                    i1.clone().abs() == r2.numer().clone()
+                    Rational::from(i1.clone().abs()) == *r2
                 } else {
                     false
                 }
@@ -604,10 +620,10 @@ impl PolyeqComparable for Term {
                 if r.is_negative() && args.len() == 1 =>
             {
                 match args[0].as_ref() {
-                    Term::Op(Operator::RealDiv, sub_args) => {
+                    Term::Op(Operator::RealDiv, sub_args) if sub_args.len() == 2 => {
                         match (sub_args[0].as_ref(), sub_args[1].as_ref()) {
                             (Term::Const(Constant::Real(r1)), Term::Const(Constant::Real(r2)))
-                                if r1.is_integer() && r2.is_integer() =>
+                                if r1.is_integer() && r2.is_integer() && !r2.is_zero() =>
                             {
                                 Rational::from((r1.numer(), r2.numer())) == r.clone().abs()
                             }
-- 
2.43.0


From e9ce3a8634de9e840f411e1bf2f03a36cfcb559f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 30/37] fix: bitvector widths and indices that are out of range
 made the parser panic

---
 carcara/src/parser/error.rs | 11 ++++++++++
 carcara/src/parser/mod.rs   | 40 +++++++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/carcara/src/parser/error.rs b/carcara/src/parser/error.rs
index 0063236..369d846 100644
--- a/carcara/src/parser/error.rs
+++ b/carcara/src/parser/error.rs
@@ -101,6 +101,10 @@ pub enum ParserError {
     #[error("expected argument value to be greater than {0}, got {1}")]
     WrongValueOfArgs(Range<Integer>, Integer),
 
+    /// A bitvector width or index is too large to be represented.
+    #[error("bitvector width or index is too large: {0}")]
+    BvWidthTooLarge(Integer),
+
     #[error("extract arguments do not follow restrictions. Expected: {2} > {0} and {0} >= {1} and {1} >= 0")]
     InvalidExtractArgs(usize, usize, usize),
 
@@ -191,6 +195,13 @@ where
     Ok(())
 }
 
+/// Converts a bitvector width or index into a `usize`, returning an error if it doesn't fit.
+pub fn bv_width(value: &Integer) -> Result<usize, ParserError> {
+    value
+        .to_usize()
+        .ok_or_else(|| ParserError::BvWidthTooLarge(value.clone()))
+}
+
 /// An error in sort checking.
 #[derive(Debug, Error)]
 pub struct SortError {
diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index cd40bfd..3de53ab 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -23,7 +23,7 @@ use indexmap::{IndexMap, IndexSet};
 use rug::{Integer, Rational};
 use std::{io::BufRead, str::FromStr};
 
-use self::error::assert_indexed_op_args_value;
+use self::error::{assert_indexed_op_args_value, bv_width};
 
 #[derive(Debug, Clone, Copy, Default)]
 pub struct Config {
@@ -1553,7 +1553,12 @@ impl<'a, R: BufRead> Parser<'a, R> {
         let op_symbol = self.expect_symbol()?;
 
         if let Some(value) = op_symbol.strip_prefix("bv") {
-            let parsed_value = value.parse::<Integer>().unwrap();
+            let parsed_value = value.parse::<Integer>().map_err(|_| {
+                Error::Parser(
+                    ParserError::InvalidIndexedOp(op_symbol.clone()),
+                    self.current_position,
+                )
+            })?;
             let args = self.parse_sequence(Self::parse_term, true)?;
             let mut constant_args = Vec::new();
             for arg in args {
@@ -1620,9 +1625,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 assert_num_args(&op_args, 2)?;
                 assert_num_args(&args, 0)?;
                 let value = op_args[0].as_integer().unwrap();
-                let width = op_args[1].as_integer().unwrap().to_usize().unwrap();
                 assert_indexed_op_args_value(&[op_args[0].clone()], 0..)?;
                 assert_indexed_op_args_value(&[op_args[1].clone()], 1..)?;
+                let width = bv_width(&op_args[1].as_integer().unwrap())?;
                 return Ok(self.pool.add(Term::Const(Constant::BitVec(value, width))));
             }
             ParamOperator::BvExtract => {
@@ -1647,8 +1652,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     }
                 }
                 assert_indexed_op_args_value(&op_args, 0..)?;
-                let i = op_args[0].as_integer().unwrap().to_usize().unwrap();
-                let j = op_args[1].as_integer().unwrap().to_usize().unwrap();
+                let i = bv_width(&op_args[0].as_integer().unwrap())?;
+                let j = bv_width(&op_args[1].as_integer().unwrap())?;
                 let Sort::BitVec(m) = sorts[0].clone() else {
                     unreachable!()
                 };
@@ -1666,6 +1671,8 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
                 SortError::assert_eq(&Sort::Int, sorts[0])?;
+                assert_indexed_op_args_value(&op_args, 1..)?;
+                bv_width(&op_args[0].as_integer().unwrap())?;
             }
             ParamOperator::BvBitOf
             | ParamOperator::BvIntOf
@@ -1681,10 +1688,23 @@ impl<'a, R: BufRead> Parser<'a, R> {
                 } else {
                     return Err(ParserError::ExpectedIntegerConstant(op_args[0].clone()));
                 }
-                if !matches!(sorts[0], Sort::BitVec(_)) {
+                let Sort::BitVec(m) = sorts[0] else {
                     return Err(ParserError::ExpectedBvSort(sorts[0].clone()));
-                }
+                };
                 assert_indexed_op_args_value(&op_args, 0..)?;
+
+                // The width of the resulting bitvector must be positive and representable
+                let n = op_args[0].as_integer().unwrap();
+                match op {
+                    ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
+                        bv_width(&(n + *m))?;
+                    }
+                    ParamOperator::Repeat => {
+                        assert_indexed_op_args_value(&op_args, 1..)?;
+                        bv_width(&(n * *m))?;
+                    }
+                    _ => (),
+                }
             }
             ParamOperator::RePower => {
                 assert_num_args(&op_args, 1)?;
@@ -1946,9 +1966,9 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     return Err(ParserError::WrongNumberOfArgs(1.into(), args.len()));
                 }
                 if let Some(width) = args[0].as_integer() {
-                    Ok(self
-                        .pool
-                        .add(Term::Sort(Sort::BitVec(width.to_usize().unwrap()))))
+                    assert_indexed_op_args_value(&args, 1..)?;
+                    let width = bv_width(&width)?;
+                    Ok(self.pool.add(Term::Sort(Sort::BitVec(width))))
                 } else {
                     Err(ParserError::ExpectedIntegerConstant(args[0].clone()))
                 }
-- 
2.43.0


From edd4c33ac49962ca379088ff73cbd1ad6d3f5ee1 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 31/37] fix: the sort of a term in the context pool was the
 term itself, in the pools of parallel checking

---
 carcara/src/ast/pool/advanced.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carcara/src/ast/pool/advanced.rs b/carcara/src/ast/pool/advanced.rs
index 086b12b..d765041 100644
--- a/carcara/src/ast/pool/advanced.rs
+++ b/carcara/src/ast/pool/advanced.rs
@@ -117,8 +117,8 @@ impl TermPool for LocalPool {
             sort.clone()
         }
         // A sort inserted by context
-        else if let Some(entry) = self.ctx_pool.inner.read().unwrap().storage.get(term) {
-            entry.clone()
+        else if let Some(sort) = self.ctx_pool.inner.read().unwrap().sorts_cache.get(term) {
+            sort.clone()
         } else {
             self.inner.sorts_cache[term].clone()
         }
-- 
2.43.0


From 744939ed8c4976056ddd2d31b2b6faed8870ce26 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:20:57 +0000
Subject: [PATCH 32/37] fix: asserted terms of the problem were not checked to
 be of sort Bool

---
 carcara/src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/carcara/src/parser/mod.rs b/carcara/src/parser/mod.rs
index 3de53ab..f58eb93 100644
--- a/carcara/src/parser/mod.rs
+++ b/carcara/src/parser/mod.rs
@@ -833,13 +833,14 @@ impl<'a, R: BufRead> Parser<'a, R> {
                     self.state.sort_defs.insert(name, def);
                 }
                 Token::ReservedWord(Reserved::Assert) => {
-                    let term = self.parse_term()?;
+                    let term = self.parse_term_expecting_sort(&Sort::Bool)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().insert(term);
                 }
                 Token::ReservedWord(Reserved::CheckSatAssuming) => {
                     self.expect_token(Token::OpenParen)?;
-                    let terms = self.parse_sequence(Self::parse_term, true)?;
+                    let terms = self
+                        .parse_sequence(|p| p.parse_term_expecting_sort(&Sort::Bool), true)?;
                     self.expect_token(Token::CloseParen)?;
                     self.premises().extend(terms);
                 }
-- 
2.43.0


From f51955f1cb24032ed2941732718eeebac689a89c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 33/37] fix: alpha-equivalence accepted binders with different
 numbers of variables, and let values in the scope of other bindings

---
 carcara/src/ast/polyeq.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 983879a..76432d9 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -201,26 +201,27 @@ impl Polyeq {
         a_inner: &Rc<Term>,
         b_inner: &Rc<Term>,
     ) -> bool {
-        if let Some(de_bruijn_map) = self.de_bruijn_map.as_mut() {
-            // First, we push new scopes into the De Bruijn map and the cache stack
-            de_bruijn_map.push();
-            self.cache.push_scope();
+        if self.de_bruijn_map.is_some() {
+            // First, we check that there are as many variables in both binding lists, and that
+            // their sorts (or values) are equivalent. These are outside of the scope of the
+            // variables, so we must do this before pushing any scopes
+            if a_binds.0.len() != b_binds.0.len()
+                || !a_binds
+                    .iter()
+                    .zip(b_binds.iter())
+                    .all(|(a_var, b_var)| self.eq(&a_var.1, &b_var.1))
+            {
+                return false;
+            }
 
-            // Then, we check that the binding lists and the inner terms are equivalent
+            // Then, we insert each variable in the binding lists into the De Bruijn map, and check
+            // that the inner terms are equivalent
+            let de_bruijn_map = self.de_bruijn_map.as_mut().unwrap();
+            de_bruijn_map.push();
             for (a_var, b_var) in a_binds.iter().zip(b_binds.iter()) {
-                if !self.eq(&a_var.1, &b_var.1) {
-                    // We must remember to pop the frames from the De Bruijn map and cache stack
-                    // here, so as not to leave them in a corrupted state
-                    self.de_bruijn_map.as_mut().unwrap().pop();
-                    self.cache.pop_scope();
-                    return false;
-                }
-                // We also insert each variable in the binding lists into the De Bruijn map
-                self.de_bruijn_map
-                    .as_mut()
-                    .unwrap()
-                    .insert(a_var.0.clone(), b_var.0.clone());
+                de_bruijn_map.insert(a_var.0.clone(), b_var.0.clone());
             }
+            self.cache.push_scope();
             let result = self.eq(a_inner, b_inner);
 
             // Finally, we pop the scopes we pushed
-- 
2.43.0


From 0891d1d1a17f4b2ffd9a071c73d71d2635d10e75 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 34/37] fix: alpha-equivalence reused results for terms whose
 variables have been bound again

---
 carcara/src/ast/polyeq.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 76432d9..598481d 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -481,7 +481,15 @@ impl PolyeqComparable for Rc<Term> {
         }
 
         // We first check the cache to see if these terms were already determined to be equal
-        if comp.cache.get(&(a.clone(), b.clone())).is_some() {
+        //
+        // The entries of the outer scopes can't be used, because the variables in the terms may
+        // have since been bound again
+        let current_scope = comp.cache.height() - 1;
+        if comp
+            .cache
+            .get_with_depth(&(a.clone(), b.clone()))
+            .is_some_and(|(depth, _)| depth == current_scope)
+        {
             return true;
         }
 
-- 
2.43.0


From c1d51d3dca2389fd7881691e270e7584b025654a Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 35/37] fix: polyequality modulo n-ary expansion considered the
 negation of a term equal to the term

---
 carcara/src/ast/polyeq.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 598481d..b65c940 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -312,7 +312,8 @@ impl Polyeq {
                 return None;
             };
             let (term_op, args) = term.as_op()?;
-            if term_op == op {
+            // `(- a)` is a negation, and not an n-ary application of `-`
+            if term_op == op && !(op == Operator::Sub && args.len() == 1) {
                 Some(args)
             } else {
                 None
@@ -545,6 +546,8 @@ impl PolyeqComparable for Term {
             (Term::Op(op, args), other) | (other, Term::Op(op, args))
                 if comp.is_mod_nary
                     && args.len() == 1
+                    // `(- a)` is a negation, and not the singleton case of `-`
+                    && *op != Operator::Sub
                     && op.nary_case() == Some(NaryCase::LeftAssoc)
                     // We have to check with `==` first because we are calling into `comp.eq` with
                     // `&Term`s directly (instead of `Rc<Term>`s), so the `==` check is skipped
-- 
2.43.0


From 042768094c1fc393f285d5f942cc47c10dcffc17 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 36/37] fix: polyequality modulo string concatenation ignored
 the operators of the terms

---
 carcara/src/ast/polyeq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index b65c940..2b59f8e 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -242,7 +242,7 @@ impl Polyeq {
         args_b: &[Rc<Term>],
     ) -> bool {
         // Modulo string concatenation
-        if self.is_mod_string_concat {
+        if self.is_mod_string_concat && op_a == Operator::StrConcat && op_b == Operator::StrConcat {
             let concat_args_a: Vec<Concat> = to_concat(args_a);
             let concat_args_b: Vec<Concat> = to_concat(args_b);
             return self.compare_strings(concat_args_a, concat_args_b);
-- 
2.43.0


From a859009ef1e17a7bfc4afa4741112f90db92aea0 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 37/37] fix: comparing string constants with characters of
 several bytes panicked

---
 carcara/src/ast/polyeq.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/carcara/src/ast/polyeq.rs b/carcara/src/ast/polyeq.rs
index 2b59f8e..d7321f6 100644
--- a/carcara/src/ast/polyeq.rs
+++ b/carcara/src/ast/polyeq.rs
@@ -347,11 +347,10 @@ impl Polyeq {
             (Some(a_head), Some(b_head)) => match (a_head, b_head) {
                 (Concat::Constant(a_constant), Concat::Constant(b_constant)) => {
                     let prefix_length = std::cmp::min(a_constant.len(), b_constant.len());
-                    for i in 0..prefix_length {
-                        if a_constant.chars().nth(i).unwrap() != b_constant.chars().nth(i).unwrap()
-                        {
-                            return (a, b);
-                        }
+                    if a_constant.as_bytes()[..prefix_length]
+                        != b_constant.as_bytes()[..prefix_length]
+                    {
+                        return (a, b);
                     }
                     let a_const_rem = &a_constant[prefix_length..];
                     let b_const_rem = &b_constant[prefix_length..];
-- 
2.43.0

