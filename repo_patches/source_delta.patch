From 5a914096f1a999d009745991cb77cb57a1385ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 01/42] fix: pow(pow(x, y), c) with a non-constant inner
 exponent

The inner exponent was read as a constant without checking that it is one.
---
 .../dreal/symbolic/symbolic_expression.cc            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 94ccd8f..ba68ff0 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -729,11 +729,13 @@ Expression pow(const Expression& e1, const Expression& e2) {
     //
     // only if both of exponent and e2 are integers.
     const Expression& exponent{get_second_argument(e1)};
-    const double v1{get_constant_value(exponent)};
-    const double v2{get_constant_value(e2)};
-    if (is_integer(v1) && is_integer(v2)) {
-      const Expression& base{get_first_argument(e1)};
-      return Expression{new ExpressionPow(base, v1 * v2)};
+    if (is_constant(exponent)) {
+      const double v1{get_constant_value(exponent)};
+      const double v2{get_constant_value(e2)};
+      if (is_integer(v1) && is_integer(v2)) {
+        const Expression& base{get_first_argument(e1)};
+        return Expression{new ExpressionPow(base, v1 * v2)};
+      }
     }
   }
   return Expression{new ExpressionPow(e1, e2)};
-- 
2.43.0


From edfafb18d2ed8c65ca94281e754c5996b1ba1e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 02/42] fix: merge (e1^e2)^e3 in a product only if e2 and e3
 are integers

(x^2)^0.5 was turned into x, which is wrong for a negative x.
---
 .../dreal/symbolic/symbolic_expression_cell.cc                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 3b4dfd3..782c9d8 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1039,7 +1039,7 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
     const Expression& e2{get_second_argument(base)};
     if (is_constant(e2)) {
       const double e2_value{get_constant_value(e2)};
-      if (is_integer(e2_value)) {
+      if (is_integer(e2_value) && is_integer(get_constant_value(exponent))) {
         // If base = pow(e1, e2) and both of e2 and exponent are
         // integers, then add (e1, e2 * exponent).
         //
-- 
2.43.0


From f64eb37de32793c404718650a51e0642435f3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 03/42] fix: e += e and e *= e on an unshared sum or product

The map of terms was moved out of the left-hand side before it was read
again through the right-hand side.
---
 .../dreal/symbolic/symbolic_expression.cc                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index ba68ff0..bfd56b9 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -345,7 +345,8 @@ Expression& operator+=(Expression& lhs, const Expression& rhs) {
   // ExpressionAddFactory which holds intermediate terms and does
   // simplifications internally.
   if (is_addition(lhs)) {
-    if (lhs.ptr_->use_count() == 1) {
+    // Do not move the map if lhs and rhs are the same object (`e += e`).
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionAddFactory{
                      get_constant_in_addition(lhs),
@@ -578,7 +579,8 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
   ExpressionMulFactory mul_factory{};
   if (is_multiplication(lhs)) {
     // (e_1 * ... * e_n) * rhs
-    if (lhs.ptr_->use_count() == 1) {
+    // Do not move the map if lhs and rhs are the same object (`e *= e`).
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionMulFactory{
                      get_constant_in_multiplication(lhs),
-- 
2.43.0


From 257fc9485fb111076ac848dc508acb78ffb87e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:20 +0000
Subject: [PATCH 04/42] fix: order real constants that have the same
 representative value

---
 .../dreal/symbolic/symbolic_expression_cell.cc        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 782c9d8..350b6d9 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -447,8 +447,15 @@ bool ExpressionRealConstant::EqualTo(const ExpressionCell& e) const {
 bool ExpressionRealConstant::Less(const ExpressionCell& e) const {
   // Expression::Less guarantees the following assertion.
   assert(get_kind() == e.get_kind());
-  return get_value() <
-         static_cast<const ExpressionRealConstant&>(e).get_value();
+  const auto& r = static_cast<const ExpressionRealConstant&>(e);
+  if (get_value() < r.get_value()) {
+    return true;
+  }
+  if (r.get_value() < get_value()) {
+    return false;
+  }
+  // Two different intervals may have the same representative value.
+  return lb_ < r.lb_;
 }
 
 double ExpressionRealConstant::Evaluate(const Environment&) const {
-- 
2.43.0


From c90fe9e4086c55bab18b2568dc872a48fb6918ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 05/42] fix: keep unsubstituted arguments of uninterpreted
 functions

---
 .../dreal/symbolic/symbolic_expression_cell.cc              | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 350b6d9..7511f52 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -2137,6 +2137,8 @@ Expression ExpressionUninterpretedFunction::Substitute(
   //     uf(name, {v₁, ..., vₙ}).Substitute(expr_subst, formula_subst)
   //   = uf(name, ⋃ᵢ (expr_subst[vᵢ].GetVariables() ∪ formula_subst[vᵢ])
   //
+  // where a variable vᵢ which is not in the substitutions stays as it is.
+  //
   // For example, we have:
   //     uf("uf1", {x, y, b}).Substitute({x ↦ 1, y ↦ y + z}, {b ↦ x > 0})
   //   = uf("uf1", ∅ ∪ {y, z} ∪ {x})
@@ -2146,10 +2148,14 @@ Expression ExpressionUninterpretedFunction::Substitute(
     if (var.get_type() == Variable::Type::BOOLEAN) {
       if (formula_subst.count(var) > 0) {
         new_vars += formula_subst.at(var).GetFreeVariables();
+      } else {
+        new_vars.insert(var);
       }
     } else {
       if (expr_subst.count(var) > 0) {
         new_vars += expr_subst.at(var).GetVariables();
+      } else {
+        new_vars.insert(var);
       }
     }
   }
-- 
2.43.0


From f63d392c6fba6be51023a855cdcfc732e5696d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 06/42] fix: domain of pow with a large integer exponent

---
 .../dreal/symbolic/symbolic_expression_cell.cc                | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 7511f52..310d5a6 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1460,7 +1460,9 @@ ExpressionPow::ExpressionPow(const Expression& e1, const Expression& e2)
                            determine_polynomial(e1, e2)} {}
 
 void ExpressionPow::check_domain(const double v1, const double v2) {
-  if (std::isfinite(v1) && (v1 < 0.0) && std::isfinite(v2) && !is_integer(v2)) {
+  // Note that `is_integer` is false for the integers out of the range of int.
+  if (std::isfinite(v1) && (v1 < 0.0) && std::isfinite(v2) &&
+      std::trunc(v2) != v2) {
     ostringstream oss;
     oss << "pow(" << v1 << ", " << v2
         << ") : numerical argument out of domain. " << v1
-- 
2.43.0


From 8589fba7b251faf0630c23f70ae925865f88aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 07/42] fix: Expand expands powers of products, and does not
 abort if expansion is not a fixpoint

---
 .../dreal/symbolic/symbolic_expression_cell.cc    | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 310d5a6..ae21dba 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -131,10 +131,9 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2,
 // Helper function expanding (e1 * e2). It assumes that both of e1 and e2 are
 // already expanded.
 Expression ExpandMultiplication(const Expression& e1, const Expression& e2) {
-  // Precondition: e1 and e2 are already expanded.
-  assert(e1.EqualTo(e1.Expand()));
-  assert(e2.EqualTo(e2.Expand()));
-
+  // Precondition: e1 and e2 are already expanded. Note that this does not imply
+  // `e1.EqualTo(e1.Expand())` since the simplification rules may be applicable
+  // to a product or a sum of expanded terms which include a division.
   if (is_addition(e1)) {
     //   (c0 + c1 * e_{1,1} + ... + c_n * e_{1, n}) * e2
     // = c0 * e2 + c1 * e_{1,1} * e2 + ... + c_n * e_{1,n} * e2
@@ -199,7 +198,6 @@ Expression ExpandMultiplication(const Expression& e1, const Expression& e2,
 // Helper function expanding pow(base, n). It assumes that base is expanded.
 Expression ExpandPow(const Expression& base, const int n) {
   // Precondition: base is already expanded.
-  assert(base.EqualTo(base.Expand()));
   assert(n >= 1);
   if (n == 1) {
     return base;
@@ -217,12 +215,11 @@ Expression ExpandPow(const Expression& base, const int n) {
 // and exponent are already expanded.
 Expression ExpandPow(const Expression& base, const Expression& exponent) {
   // Precondition: base and exponent are already expanded.
-  assert(base.EqualTo(base.Expand()));
-  assert(exponent.EqualTo(exponent.Expand()));
   // Expand if
-  //     1) base is an addition expression and
+  //     1) base is an addition or a multiplication expression and
   //     2) exponent is a positive integer.
-  if (!is_addition(base) || !is_constant(exponent)) {
+  if (!(is_addition(base) || is_multiplication(base)) ||
+      !is_constant(exponent)) {
     return pow(base, exponent);
   }
   const double e{get_constant_value(exponent)};
-- 
2.43.0


From 34c29cba6399945c2a3e19c2bb3e3fc983222b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 08/42] fix: is_clause and is_cnf accept negated quantified
 formulas

---
 dreal/symbolic/symbolic.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index e1339eb..880b681 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -91,12 +91,20 @@ bool is_atomic(const Formula& f) {
   DREAL_UNREACHABLE();
 }
 
+namespace {
+// Returns true if @p f is an atomic formula or the negation of one. Note that
+// `!forall` is a literal while it is not an atomic formula.
+bool is_literal(const Formula& f) {
+  return is_atomic(f) || (is_negation(f) && is_atomic(get_operand(f)));
+}
+}  // namespace
+
 bool is_clause(const Formula& f) {
-  if (is_atomic(f)) {
+  if (is_literal(f)) {
     return true;
   }
   if (is_negation(f)) {
-    return is_atomic(get_operand(f));
+    return false;
   }
   if (is_conjunction(f)) {
     return false;
@@ -105,7 +113,7 @@ bool is_clause(const Formula& f) {
     const auto& operands = get_operands(f);
     const bool result{
         all_of(operands.cbegin(), operands.cend(),
-               [](const Formula& formula) { return is_atomic(formula); })};
+               [](const Formula& formula) { return is_literal(formula); })};
     return result;
   }
   DREAL_UNREACHABLE();
@@ -129,7 +137,7 @@ bool is_cnf(const Formula& f) {
   if (is_atomic(f)) {
     return true;
   }
-  if (is_disjunction(f)) {
+  if (is_disjunction(f) || is_negation(f)) {
     return is_clause(f);
   }
   if (is_conjunction(f)) {
-- 
2.43.0


From ec16fffd92eda34f533cafadb5e59d0752302c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 09/42] fix: Tseitin transformation of conjunctions that
 simplify and of quantified formulas with unquantified clauses

---
 dreal/util/tseitin_cnfizer.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 0bb8263..337bc98 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -68,6 +68,8 @@ class TseitinCnfizerStat : public Stat {
 
 // Forward declarations for the helper functions.
 void Cnfize(const Variable& b, const Formula& f, vector<Formula>* clauses);
+void CnfizeAtomic(const Variable& b, const Formula& f,
+                  vector<Formula>* clauses);
 void CnfizeNegation(const Variable& b, const Formula& f,
                     vector<Formula>* clauses);
 void CnfizeConjunction(const Variable& b, const Formula& f,
@@ -133,12 +135,14 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   const set<Formula> clauses{
       get_clauses(naive_cnfizer_.Convert(quantified_formula))};
   const set<Formula> new_clauses{
-      ::dreal::map(clauses, [&quantified_variables](const Formula& clause) {
+      ::dreal::map(clauses, [this,
+                             &quantified_variables](const Formula& clause) {
         DREAL_ASSERT(is_clause(clause));
         if (HaveIntersection(clause.GetFreeVariables(), quantified_variables)) {
           return forall(quantified_variables, clause);
         } else {
-          return clause;
+          // This clause can be a disjunction, which is not a literal.
+          return Visit(clause);
         }
       })};
 
@@ -196,25 +200,18 @@ namespace {
 void Cnfize(const Variable& b, const Formula& f, vector<Formula>* clauses) {
   switch (f.get_kind()) {
     case FormulaKind::False:
-      DREAL_UNREACHABLE();
     case FormulaKind::True:
-      DREAL_UNREACHABLE();
     case FormulaKind::Var:
-      DREAL_UNREACHABLE();
     case FormulaKind::Eq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Neq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Gt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Geq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Lt:
-      DREAL_UNREACHABLE();
     case FormulaKind::Leq:
-      DREAL_UNREACHABLE();
     case FormulaKind::Forall:
-      DREAL_UNREACHABLE();
+      // The operands of a conjunction (disjunction) were simplified into a
+      // single literal.
+      return CnfizeAtomic(b, f, clauses);
     case FormulaKind::And:
       return CnfizeConjunction(b, f, clauses);
     case FormulaKind::Or:
@@ -238,6 +235,14 @@ void AddIff(const Formula& f1, const Formula& f2, vector<Formula>* clauses) {
   Add(imply(f2, f1), clauses);
 }
 
+// Cnfize b ⇔ f where f is atomic and add to clauses:
+//   b ⇔ f
+// = (¬b ∨ f) ∧ (¬f ∨ b)   (✓CNF)
+void CnfizeAtomic(const Variable& b, const Formula& f,
+                  vector<Formula>* clauses) {
+  AddIff(Formula{b}, f, clauses);
+}
+
 // Cnfize b ⇔ ¬b₁ using the following equalities and add to clauses:
 //   b ⇔ ¬b₁
 // = (b → ¬b₁) ∧ (¬b₁ → b)
-- 
2.43.0


From 31babfecdf23ec10c45d8eab156b15d5fcc9af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 10/42] fix: print coefficients with full precision and keep
 the precision of the stream

---
 .../symbolic/symbolic_expression_cell.cc      | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index ae21dba..7afc010 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -57,6 +57,14 @@ bool is_non_negative_integer(const double v) {
   return (v >= 0) && is_integer(v);
 }
 
+// Prints the constant @p v in @p os with the precision which is enough to
+// identify it. It does not change the precision of @p os.
+ostream& DisplayConstant(ostream& os, const double v) {
+  ostringstream oss;
+  oss << setprecision(numeric_limits<double>::max_digits10) << v;
+  return os << oss.str();
+}
+
 // Determines if the summation represented by term_to_coeff_map is
 // polynomial-convertible or not. This function is used in the
 // constructor of ExpressionAdd.
@@ -415,9 +423,7 @@ Expression ExpressionConstant::Differentiate(const Variable&) const {
 }
 
 ostream& ExpressionConstant::Display(ostream& os) const {
-  ostringstream oss;
-  oss << setprecision(numeric_limits<double>::max_digits10) << v_;
-  return os << oss.str();
+  return DisplayConstant(os, v_);
 }
 
 ExpressionRealConstant::ExpressionRealConstant(const double lb, const double ub,
@@ -633,7 +639,7 @@ ostream& ExpressionAdd::Display(ostream& os) const {
   bool print_plus{false};
   os << "(";
   if (constant_ != 0.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayConstant(os, constant_);
     print_plus = true;
   }
   for (const auto& p : expr_to_coeff_map_) {
@@ -654,13 +660,13 @@ ostream& ExpressionAdd::DisplayTerm(ostream& os, const bool print_plus,
     }
     // Do not print "1 * t"
     if (coeff != 1.0) {
-      os << coeff << " * ";
+      DisplayConstant(os, coeff) << " * ";
     }
   } else {
     // Instead of printing "+ (- E)", just print "- E".
     os << " - ";
     if (coeff != -1.0) {
-      os << (-coeff) << " * ";
+      DisplayConstant(os, -coeff) << " * ";
     }
   }
   os << term;
@@ -926,7 +932,7 @@ ostream& ExpressionMul::Display(ostream& os) const {
   bool print_mul{false};
   os << "(";
   if (constant_ != 1.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayConstant(os, constant_);
     print_mul = true;
   }
   for (const auto& p : base_to_exponent_map_) {
-- 
2.43.0


From 46db981ce62a4038dcf07c10427986abd57bfc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 11/42] fix: erasing a set of variables from itself

---
 .../dreal/symbolic/symbolic_variables.cc                    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
index 78a47c3..9b211f5 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_variables.cc
@@ -40,6 +40,12 @@ string Variables::to_string() const {
 
 Variables::size_type Variables::erase(const Variables& vars) {
   size_type num_of_erased_elements{0};
+  if (this == &vars) {
+    // Do not iterate over the set while erasing its elements.
+    num_of_erased_elements = vars_.size();
+    vars_.clear();
+    return num_of_erased_elements;
+  }
   for (const Variable& var : vars) {
     num_of_erased_elements += erase(var);
   }
-- 
2.43.0


From 38d1b7a1b07628b57f60f9b9aa0484e811652024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 12/42] fix: ScopedVector::operator< compares lexicographically
 and stays in bounds

---
 dreal/util/scoped_vector.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dreal/util/scoped_vector.h b/dreal/util/scoped_vector.h
index 4b3b747..408e7d2 100644
--- a/dreal/util/scoped_vector.h
+++ b/dreal/util/scoped_vector.h
@@ -102,12 +102,7 @@ class ScopedVector {
   reference operator[](size_type n) { return vector_[n]; }
   const_reference operator[](size_type n) const { return vector_[n]; }
   bool operator<(ScopedVector<T> const& v) const {
-    for (size_t i = 0; i < vector_.size(); i++) {
-      if (vector_[i] < v.vector_[i]) {
-        return true;
-      }
-    }
-    return false;
+    return vector_ < v.vector_;
   }
   vector get_reverse() const {
     vector tmp = vector_;
-- 
2.43.0


From db5215af6a52694bd9e5d3ff2685c89b7831ee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 13/42] fix: delta-perturbation of an equality whose sides
 differ by a constant

---
 dreal/symbolic/symbolic.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index 880b681..3c42b74 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -297,20 +297,18 @@ class DeltaStrengthenVisitor {
     } else {
       //     lhs = rhs
       // -> (lhs >= rhs) ∧ (lhs <= rhs)
-      const Expression lhs{Visit(get_lhs_expression(f), delta)};
-      const Expression rhs{Visit(get_rhs_expression(f), delta)};
-      return VisitGreaterThanOrEqualTo(lhs >= rhs, delta) &&
-             VisitLessThanOrEqualTo(lhs <= rhs, delta);
+      //
+      // Note: `lhs >= rhs` may be simplified to True or False here. So we pass
+      // f since the following functions only use its lhs and rhs.
+      return VisitGreaterThanOrEqualTo(f, delta) &&
+             VisitLessThanOrEqualTo(f, delta);
     }
   }
   Formula VisitNotEqualTo(const Formula& f, const double delta) const {
     if (delta > 0) {
       //     lhs ≠ rhs
       // -> (lhs > rhs) ∨ (lhs < rhs)
-      const Expression lhs{Visit(get_lhs_expression(f), delta)};
-      const Expression rhs{Visit(get_rhs_expression(f), delta)};
-      return VisitGreaterThan(lhs > rhs, delta) ||
-             VisitLessThan(lhs < rhs, delta);
+      return VisitGreaterThan(f, delta) || VisitLessThan(f, delta);
     } else {
       return Formula::True();
     }
-- 
2.43.0


From 0e73126a80b819efbf1c8c084ae9f707fa8beb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 14/42] fix: strict upper bounds step below the bound in
 FilterAssertion

nextafter(v, numeric_limits<double>::min()) moves towards the smallest positive
number, that is up, when v is zero or negative: x < 0 was turned into
x <= 2.2e-308, keeping points that violate the assertion.
---
 dreal/solver/filter_assertion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index ef38999..48930c0 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -132,8 +132,8 @@ FilterAssertionResult UpdateStrictUpperBound(const Variable& var,
                                              const double v, Box* const box) {
   switch (var.get_type()) {
     case Variable::Type::CONTINUOUS:
-      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::min()),
-                              box);
+      return UpdateUpperBound(
+          var, nextafter(v, numeric_limits<double>::lowest()), box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
       UpdateUpperBound(var, v, box);
-- 
2.43.0


From 520621ad99eefa4c1909b1ca5a682b130deaf81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 15/42] fix: FilterAssertion rounds bounds on integer variables

x >= 0.5 for an integer (or binary) variable x set the lower bound of the box
to 0.5 and dropped the assertion, although no integer lies between the new
bounds; an equality with a non-integer constant was accepted as well.
---
 dreal/solver/filter_assertion.cc | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index 48930c0..772ece5 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -24,9 +24,17 @@
 namespace dreal {
 namespace {
 
+using std::ceil;
+using std::floor;
 using std::nextafter;
 using std::numeric_limits;
 
+// Returns true if the values of @p var are integers.
+bool is_integral(const Variable& var) {
+  const Variable::Type type{var.get_type()};
+  return type == Variable::Type::INTEGER || type == Variable::Type::BINARY;
+}
+
 // Constrains the @p box with ` box[var].lb() == v`.
 FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
                                               const double v, Box* const box) {
@@ -36,7 +44,7 @@ FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
   if (lb == ub && lb == v) {
     return FilterAssertionResult::FilteredWithoutChange;
   }
-  if (intv.contains(v)) {
+  if (intv.contains(v) && (!is_integral(var) || ceil(v) == v)) {
     intv = v;
   } else {
     box->set_empty();
@@ -46,9 +54,12 @@ FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
 
 // Constrains the @p box with `box[var] == [lb, ub]`.
 FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
-                                              const double new_lb,
-                                              const double new_ub,
+                                              double new_lb, double new_ub,
                                               Box* const box) {
+  if (is_integral(var)) {
+    new_lb = ceil(new_lb);
+    new_ub = floor(new_ub);
+  }
   Box::Interval& intv{(*box)[var]};
   const double old_lb{intv.lb()};
   const double old_ub{intv.ub()};
@@ -63,8 +74,11 @@ FilterAssertionResult UpdateBoundsViaEquality(const Variable& var,
 }
 
 // Constrains the @p box with ` box[var].lb() >= v`.
-FilterAssertionResult UpdateLowerBound(const Variable& var, const double new_lb,
+FilterAssertionResult UpdateLowerBound(const Variable& var, double new_lb,
                                        Box* const box) {
+  if (is_integral(var)) {
+    new_lb = ceil(new_lb);
+  }
   Box::Interval& intv{(*box)[var]};
   const double lb{intv.lb()};
   const double ub{intv.ub()};
@@ -104,8 +118,11 @@ FilterAssertionResult UpdateStrictLowerBound(const Variable& var,
 }
 
 // Constrains the @p box with ` box[var].ub() <= v`.
-FilterAssertionResult UpdateUpperBound(const Variable& var, const double new_ub,
+FilterAssertionResult UpdateUpperBound(const Variable& var, double new_ub,
                                        Box* const box) {
+  if (is_integral(var)) {
+    new_ub = floor(new_ub);
+  }
   Box::Interval& intv{(*box)[var]};
   const double lb{intv.lb()};
   const double ub{intv.ub()};
-- 
2.43.0


From 53e08fd92a043b44217d1f9bff62ea38798b57a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 16/42] fix: a sequence of identity contractors is the identity

make_contractor_seq filters out identity contractors and then asserted that some
contractor is left, so GenericContractorGenerator aborted on a conjunction such
as x != 1 and y != 2.
---
 dreal/contractor/contractor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dreal/contractor/contractor.cc b/dreal/contractor/contractor.cc
index e46bcc6..752f4ff 100644
--- a/dreal/contractor/contractor.cc
+++ b/dreal/contractor/contractor.cc
@@ -133,7 +133,12 @@ Contractor make_contractor_integer(const Box& box, const Config& config) {
 
 Contractor make_contractor_seq(const vector<Contractor>& contractors,
                                const Config& config) {
-  return Contractor{make_shared<ContractorSeq>(Flatten(contractors), config)};
+  vector<Contractor> ctcs{Flatten(contractors)};
+  if (ctcs.empty()) {
+    return make_contractor_id(config);
+  } else {
+    return Contractor{make_shared<ContractorSeq>(std::move(ctcs), config)};
+  }
 }
 
 Contractor make_contractor_ibex_fwdbwd(Formula f, const Box& box,
-- 
2.43.0


From 0ffb5fa53a3246f8c31a78439382fded1632abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 17/42] fix: the worklist fixpoint honours its termination
 condition

The inner loop restarted from the front of the worklist without ever leaving, so
the termination condition at the end of the outer loop was never evaluated and a
slowly converging system of constraints was pruned one floating point number at
a time.
---
 dreal/contractor/contractor_worklist_fixpoint.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreal/contractor/contractor_worklist_fixpoint.cc b/dreal/contractor/contractor_worklist_fixpoint.cc
index bd627a2..2acfdab 100644
--- a/dreal/contractor/contractor_worklist_fixpoint.cc
+++ b/dreal/contractor/contractor_worklist_fixpoint.cc
@@ -149,7 +149,8 @@ void ContractorWorklistFixpoint::Prune(ContractorStatus* cs) const {
       }
       ctc_idx = worklist.find_next(ctc_idx);
       if (ctc_idx == DynamicBitset::npos) {
-        ctc_idx = worklist.find_first();
+        // The end of a round, check the termination condition.
+        break;
       }
     }
   } while (!term_cond_(old_iv, iv));
-- 
2.43.0


From fe8bf2aafb6044d8697fdd59e5ebecc812c9417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 18/42] fix: integral bounds before branching

The fixpoint of the contractors may stop after the bounds of an integer variable
became non-integral again; branching on that variable then hit the assertions of
Box::bisect_int (or, without assertions, produced empty boxes).
---
 dreal/solver/theory_solver.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 7d8212d..09dd0ef 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -202,7 +202,8 @@ optional<Contractor> TheorySolver::BuildContractor(
     }
   }
   // Add integer contractor.
-  ctcs.push_back(make_contractor_integer(box, config_));
+  const Contractor integer_contractor{make_contractor_integer(box, config_)};
+  ctcs.push_back(integer_contractor);
 
   if (config_.use_polytope()) {
     // Add polytope contractor.
@@ -216,12 +217,15 @@ optional<Contractor> TheorySolver::BuildContractor(
       DREAL_LOG_TRACE("TheorySolver::BuildContractor: CTCS = empty");
     }
   }
-  if (config_.use_worklist_fixpoint()) {
-    return make_contractor_worklist_fixpoint(DefaultTerminationCondition, ctcs,
-                                             config_);
-  } else {
-    return make_contractor_fixpoint(DefaultTerminationCondition, ctcs, config_);
-  }
+  const Contractor fixpoint{
+      config_.use_worklist_fixpoint()
+          ? make_contractor_worklist_fixpoint(DefaultTerminationCondition, ctcs,
+                                              config_)
+          : make_contractor_fixpoint(DefaultTerminationCondition, ctcs,
+                                     config_)};
+  // The fixpoint computation may stop right after the bounds of an integer
+  // variable became non-integral. Branching needs integral bounds.
+  return make_contractor_seq({fixpoint, integer_contractor}, config_);
 }
 
 vector<FormulaEvaluator> TheorySolver::BuildFormulaEvaluator(
-- 
2.43.0


From 8f153bc0a5188d8b1503cc7157194f44fb9365dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 19/42] fix: SatSolver::AddFormula aborts on the formulas True
 and False

The PredicateAbstractor maps them to themselves and AddLiteral expects a literal. True adds nothing, False is the empty clause.
---
 dreal/solver/sat_solver.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index f0ec9ee..fa4e542 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -215,7 +215,13 @@ void SatSolver::AddLiteral(const Formula& f) {
 }
 
 void SatSolver::DoAddClause(const Formula& f) {
-  if (is_disjunction(f)) {
+  if (is_true(f)) {
+    // It has no effect.
+    return;
+  }
+  if (is_false(f)) {
+    // f = the empty clause.
+  } else if (is_disjunction(f)) {
     // f = l₁ ∨ ... ∨ lₙ
     for (const Formula& l : get_operands(f)) {
       AddLiteral(l);
-- 
2.43.0


From 1bb963751cb6511bd3fb7a87c620b2d7d31b0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 20/42] fix: number the threads of each pool by themselves

The numbers came from one global counter, so with two pools alive the threads of the second one had numbers beyond its size. Code that indexes per-thread data by them (e.g. the contractors of the second of two solvers with several jobs) ran out of bounds.
---
 .../ThreadPool/ThreadPool.h                   | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
index d9b7cfa..42c7c45 100644
--- a/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
+++ b/third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h
@@ -20,12 +20,10 @@ class ThreadPool {
       -> std::future<typename std::result_of<F(Args...)>::type>;
   ~ThreadPool();
 
-  // Returns the thread ID.
+  // Returns the thread ID: 1, ..., n in the n workers of a pool, and 0 in other
+  // threads, such as the one that created the pool.
   // Added by Soonho Kong
-  static int get_thread_id() {
-    thread_local const int tid{global_thread_id_index_++};
-    return tid;
-  }
+  static int get_thread_id() { return thread_id(); }
 
  private:
   // need to keep track of threads so we can join them
@@ -39,17 +37,21 @@ class ThreadPool {
 
   bool stop;
 
-  // Added by Soonho Kong
+  // Not used any more. Kept for objects compiled with earlier versions of this
+  // header.
   static std::atomic<int> global_thread_id_index_;
+
+  static int& thread_id() {
+    thread_local int tid{0};
+    return tid;
+  }
 };
 
 // the constructor just launches some amount of workers
 inline ThreadPool::ThreadPool(size_t threads) : stop(false) {
-  // To make sure that the thread that created this pool gets the ID 0.
-  get_thread_id();
-
   for (size_t i = 0; i < threads; ++i)
-    workers.emplace_back([this] {
+    workers.emplace_back([this, i] {
+      thread_id() = static_cast<int>(i) + 1;
       for (;;) {
         std::function<void()> task;
 
@@ -97,10 +99,6 @@ inline ThreadPool::~ThreadPool() {
   }
   condition.notify_all();
   for (std::thread& worker : workers) worker.join();
-
-  // Reset to 1 instead of 0 since 0 is preserved for the main thread.
-  // Added by Soonho Kong
-  global_thread_id_index_ = 1;
 }
 
 #endif
-- 
2.43.0


From 502ddc47e2360cff1dfce6b0f7e93d9d394f0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 21/42] fix: keep an empty box empty when a variable is added

Context::Impl keeps the unsatisfiability of an asserted literal false as an
empty box. Declaring a variable or setting its interval afterwards turned the
box back into a non-empty one, and the false assertion was forgotten.
---
 dreal/util/box.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dreal/util/box.cc b/dreal/util/box.cc
index 7791f9b..456c375 100644
--- a/dreal/util/box.cc
+++ b/dreal/util/box.cc
@@ -80,6 +80,7 @@ void Box::Add(const Variable& v) {
     idx_to_var_ = make_shared<unordered_map<int, Variable>>(*idx_to_var_);
   }
   const int n{size()};
+  const bool was_empty{empty()};
   idx_to_var_->emplace(n, v);
   var_to_idx_->emplace(v, n);
   variables_->push_back(v);
@@ -94,6 +95,10 @@ void Box::Add(const Variable& v) {
     values_[n] =
         Interval(-numeric_limits<int>::max(), numeric_limits<int>::max());
   }
+  if (was_empty) {
+    // Adding a dimension does not add points.
+    values_.set_empty();
+  }
 }
 
 void Box::Add(const Variable& v, const double lb, const double ub) {
-- 
2.43.0


From cb55ec3d1a7bf93190f650e0ccd38d6b961e943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 22/42] fix: drop cached contractors when the variables of a
 box change

Cached contractors refer to the positions of variables in a box. After a pop
followed by declarations of other variables, the positions changed.
---
 dreal/solver/theory_solver.cc | 11 +++++++++++
 dreal/solver/theory_solver.h  |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 09dd0ef..0b2c6e7 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -15,7 +15,9 @@
 */
 #include "dreal/solver/theory_solver.h"
 
+#include <algorithm>
 #include <atomic>
+#include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
@@ -37,6 +39,7 @@
 namespace dreal {
 
 using std::cout;
+using std::equal;
 using std::make_unique;
 using std::numeric_limits;
 using std::set;
@@ -271,6 +274,14 @@ bool TheorySolver::CheckSat(const Box& box, const vector<Formula>& assertions) {
   }
 
   DREAL_LOG_DEBUG("TheorySolver::CheckSat()");
+  // Contractors depend on the positions of the variables in a box.
+  if (!equal(cached_variables_.begin(), cached_variables_.end(),
+             box.variables().begin(), box.variables().end(),
+             std::equal_to<Variable>{})) {
+    contractor_cache_.clear();
+    formula_evaluator_cache_.clear();
+    cached_variables_ = box.variables();
+  }
   ContractorStatus contractor_status(box);
 
   // Icp Step
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index e7249a7..730a100 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -64,6 +64,8 @@ class TheorySolver {
   std::set<Formula> explanation_;
   std::unordered_map<Formula, Contractor> contractor_cache_;
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
+  // The variables of the boxes for which the caches are valid.
+  std::vector<Variable> cached_variables_;
 };
 
 }  // namespace dreal
-- 
2.43.0


From e45b67d77782ffcd10407f9b05faab33524374c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 23/42] fix: respect empty boxes and integer domains in
 SetInterval

An interval without an integer for an integer variable led to a model outside
of the interval, and an empty box was revived.
---
 dreal/solver/context_impl.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 2a780f6..9619615 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -355,7 +355,18 @@ void Context::Impl::SetInfo(const string& key, const string& val) {
 void Context::Impl::SetInterval(const Variable& v, const double lb,
                                 const double ub) {
   DREAL_LOG_DEBUG("ContextImpl::SetInterval({} = [{}, {}])", v, lb, ub);
-  box()[v] = Box::Interval{lb, ub};
+  if (box().empty()) {
+    return;
+  }
+  const bool is_integral{v.get_type() == Variable::Type::INTEGER ||
+                         v.get_type() == Variable::Type::BINARY};
+  const double new_lb{is_integral ? std::ceil(lb) : lb};
+  const double new_ub{is_integral ? std::floor(ub) : ub};
+  if (new_lb <= new_ub) {
+    box()[v] = Box::Interval{new_lb, new_ub};
+  } else {
+    box().set_empty();
+  }
 }
 
 void Context::Impl::SetLogic(const Logic& logic) {
-- 
2.43.0


From 9b12aa14081d78da500a35f78a0fc2b069abe3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 24/42] fix: return models over the model variables only

Comparing the numbers of variables is not enough. After a pop, the box can have
as many variables as there are model variables while some of them differ.
---
 dreal/solver/context_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 9619615..14ccc7e 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -35,6 +35,7 @@
 
 namespace dreal {
 
+using std::all_of;
 using std::find_if;
 using std::isfinite;
 using std::ostringstream;
@@ -430,7 +431,8 @@ void Context::Impl::SetOption(const string& key, const string& val) {
 }
 
 Box Context::Impl::ExtractModel(const Box& box) const {
-  if (static_cast<int>(model_variables_.size()) == box.size()) {
+  if (all_of(box.variables().begin(), box.variables().end(),
+             [this](const Variable& v) { return is_model_variable(v); })) {
     // Every variable is a model variable. Simply return the @p box.
     return box;
   }
-- 
2.43.0


From 66aeb10bcf5a81d6075910154403810d8d5a38f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 25/42] fix: forget learned clauses at the next check

A learned clause holds for the box of its check only. After a SetInterval which
widens the box, it excluded models.
---
 dreal/solver/context_impl.cc |  2 ++
 dreal/solver/sat_solver.cc   | 15 +++++++++++++++
 dreal/solver/sat_solver.h    |  6 ++++++
 3 files changed, 23 insertions(+)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 14ccc7e..74cca73 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -144,6 +144,8 @@ optional<Box> Context::Impl::CheckSatCore(const ScopedVector<Formula>& stack,
     DREAL_LOG_DEBUG("ContextImpl::CheckSatCore() - Found Model\n{}", box);
     return box;
   }
+  // They hold for the box of the previous check only.
+  sat_solver->ForgetLearnedClauses();
   while (true) {
     // Note that 'DREAL_CHECK_INTERRUPT' is only defined in setup.py,
     // when we build dReal python package.
diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index fa4e542..ddd8384 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -71,12 +71,24 @@ void SatSolver::AddFormulas(const vector<Formula>& formulas) {
 }
 
 void SatSolver::AddLearnedClause(const set<Formula>& formulas) {
+  if (learned_clause_guard_ == 0) {
+    learned_clause_guard_ = picosat_inc_max_var(sat_);
+  }
   for (const Formula& f : formulas) {
     AddLiteral(!predicate_abstractor_.Convert(f));
   }
+  picosat_add(sat_, -learned_clause_guard_);
   picosat_add(sat_, 0);
 }
 
+void SatSolver::ForgetLearnedClauses() {
+  if (learned_clause_guard_ != 0) {
+    picosat_add(sat_, -learned_clause_guard_);
+    picosat_add(sat_, 0);
+    learned_clause_guard_ = 0;
+  }
+}
+
 void SatSolver::AddClauses(const vector<Formula>& formulas) {
   for (const Formula& f : formulas) {
     AddClause(f);
@@ -124,6 +136,9 @@ optional<SatSolver::Model> SatSolver::CheckSat() {
                   picosat_added_original_clauses(sat_));
   stat.num_check_sat_++;
   // Call SAT solver.
+  if (learned_clause_guard_ != 0) {
+    picosat_assume(sat_, learned_clause_guard_);
+  }
   TimerGuard check_sat_timer_guard(&stat.timer_check_sat_,
                                    DREAL_LOG_INFO_ENABLED);
   const int ret{picosat_sat(sat_, -1 /* decision_limit == no limit */)};
diff --git a/dreal/solver/sat_solver.h b/dreal/solver/sat_solver.h
index 71163b4..18f3d02 100644
--- a/dreal/solver/sat_solver.h
+++ b/dreal/solver/sat_solver.h
@@ -73,6 +73,9 @@ class SatSolver {
   /// the solver.
   void AddLearnedClause(const std::set<Formula>& formulas);
 
+  /// Removes the clauses added by `AddLearnedClause` so far.
+  void ForgetLearnedClauses();
+
   /// Checks the satisfiability of the current configuration.
   ///
   /// @returns a witness, satisfying model if the problem is satisfiable.
@@ -127,6 +130,9 @@ class SatSolver {
   // Map int (Variable type in PicoSat) → symbolic::Variable.
   ScopedUnorderedMap<int, Variable> to_sym_var_;
 
+  /// PicoSat variable which activates the learned clauses. 0 if there is none.
+  int learned_clause_guard_{0};
+
   /// Set of temporary Boolean variables introduced by Tseitin
   /// transformations.
   ScopedUnorderedSet<Variable::Id> tseitin_variables_;
-- 
2.43.0


From 0740488a521063515aecad086b408b777343153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 26/42] fix: accept a comment at the end of the input

---
 dreal/dr/scanner.ll   | 4 ++--
 dreal/smt2/scanner.ll | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dreal/dr/scanner.ll b/dreal/dr/scanner.ll
index 4655ca0..cf87498 100644
--- a/dreal/dr/scanner.ll
+++ b/dreal/dr/scanner.ll
@@ -73,8 +73,8 @@ dr_yycolumn += yyleng;
 
  /*** BEGIN - lexer rules ***/
 
-"#".*[\n\r]+ {
-    dr_yycolumn=1;
+"#".* {
+    yylloc->step();
 }
 
 "var"                   { return DrParser::token::TK_VAR; }
diff --git a/dreal/smt2/scanner.ll b/dreal/smt2/scanner.ll
index 28734f8..d34b386 100644
--- a/dreal/smt2/scanner.ll
+++ b/dreal/smt2/scanner.ll
@@ -87,8 +87,8 @@ simple_symbol   {sym_begin}{sym_continue}*
 
  /*** BEGIN - lexer rules ***/
 
-";".*[\n\r]+ {
-    smt2_yycolumn=1;
+";".* {
+    yylloc->step();
 }
 
 "!"                     { return Smt2Parser::token::TK_EXCLAMATION; }
-- 
2.43.0


From 16453a91f6e8c3b861ce462379d151473677eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 27/42] fix: quantify over all variables of the domain in
 forall

---
 dreal/smt2/parser.yy | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index b3f8d5a..652334e 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -369,7 +369,9 @@ term:           TK_TRUE { $$ = Formula::True(); }
 	    if (quantified_variables.empty()) {
 	        $$ = body;
 	    } else {
-                $$ = forall(quantified_variables, imply(domain, body));
+                // The domain may mention variables which the body does not.
+                const Formula f{imply(domain, body)};
+                $$ = forall(intersect(vars, f.GetFreeVariables()), f);
 	    }
         }
         |       '(' TK_LET enter_scope let_binding_list term exit_scope ')' {
-- 
2.43.0


From f58f01671dfa1a5e8c00231cdb7c49fe435c53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 28/42] fix: expand let-bindings over bound variables instead
 of asserting them

---
 dreal/smt2/driver.cc | 20 ++++++++++++++++++++
 dreal/smt2/driver.h  | 14 ++++++++++++++
 dreal/smt2/parser.yy | 17 ++++++++++++++---
 3 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 798d3aa..48bdf2b 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -308,6 +308,26 @@ Variable Smt2Driver::DeclareLocalVariable(const string& name, const Sort sort) {
   return v;
 }
 
+Variable Smt2Driver::DeclareParameter(const string& name, const Sort sort) {
+  const Variable v{DeclareLocalVariable(name, sort)};
+  bound_variables_.insert(v);
+  return v;
+}
+
+Variable Smt2Driver::RegisterBoundVariable(const string& name,
+                                           const Sort sort) {
+  const Variable v{RegisterVariable(name, sort)};
+  bound_variables_.insert(v);
+  return v;
+}
+
+bool Smt2Driver::DependsOnBoundVariables(const Term& term) const {
+  const Variables vars{term.type() == Term::Type::FORMULA
+                           ? term.formula().GetFreeVariables()
+                           : term.expression().GetVariables()};
+  return !intersect(vars, bound_variables_).empty();
+}
+
 const Variable& Smt2Driver::lookup_variable(const string& name) {
   const auto it = scope_.find(name);
   if (it == scope_.cend()) {
diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index 3bce3be..c30cd2a 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -106,6 +106,17 @@ class Smt2Driver {
   /// cannot occur in an SMT-LIBv2 file.
   Variable DeclareLocalVariable(const std::string& name, Sort sort);
 
+  /// Declare a function parameter, like DeclareLocalVariable.
+  Variable DeclareParameter(const std::string& name, Sort sort);
+
+  /// Register a variable which is bound in a term -- it is quantified or it
+  /// stands for a term over bound variables.
+  Variable RegisterBoundVariable(const std::string& name, Sort sort);
+
+  /// Returns true if @p term includes a quantified variable or a function
+  /// parameter.
+  bool DependsOnBoundVariables(const Term& term) const;
+
   /// Handles define-fun.
   void DefineFun(const std::string& name,
                  const std::vector<Variable>& parameters, Sort return_type,
@@ -177,6 +188,9 @@ class Smt2Driver {
   /** Scoped map from a string to a corresponding Variable. */
   ScopedUnorderedMap<std::string, FunctionDefinition> function_definition_map_;
 
+  /** Quantified variables and function parameters. */
+  Variables bound_variables_;
+
   /// Sequential value concatenated to names to make them unique.
   int64_t nextUniqueId_{};
 
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 652334e..9c27bfe 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -101,6 +101,7 @@
 %type <std::pair<Variables, Formula>>             variable_sort_list
 %type <std::vector<std::pair<std::string, Term>>> var_binding_list
 %type <std::pair<std::string, Term>>              var_binding
+%type <std::vector<std::pair<Variable, Term>>>    let_binding_list
 
 %type <Variable>              name_sort
 %type <std::vector<Variable>> name_sort_list
@@ -375,7 +376,11 @@ term:           TK_TRUE { $$ = Formula::True(); }
 	    }
         }
         |       '(' TK_LET enter_scope let_binding_list term exit_scope ')' {
+            // Locals that depend on bound variables are replaced by their terms.
             $$ = $5;
+            for (const auto& binding : $4) {
+                $$ = $$.Substitute(binding.first, binding.second);
+            }
         }
         |       DOUBLE {
             const Box::Interval i{StringToInterval($1)};
@@ -496,6 +501,12 @@ let_binding_list: '(' var_binding_list ')' {
                 const Term& term{ binding.second };
                 const bool is_formula = term.type() == Term::Type::FORMULA;
                 const Sort sort = is_formula ? Sort::Bool : Sort::Real;
+                if (driver.DependsOnBoundVariables(term)) {
+                    // The context has no value for it.
+                    $$.emplace_back(driver.RegisterBoundVariable(name, sort),
+                                    term);
+                    continue;
+                }
                 const Variable v{ driver.DeclareLocalVariable(name, sort) };
                 if (is_formula) {
                     const Formula fv{v};
@@ -519,7 +530,7 @@ exit_scope: /* */ {
         ;
 
 name_sort: '(' SYMBOL sort ')' {
-            $$ = Variable{driver.DeclareLocalVariable($2, $3)};
+            $$ = Variable{driver.DeclareParameter($2, $3)};
         }
         ;
 
@@ -549,12 +560,12 @@ variable_sort_list: /* empty list */ { $$ = std::pair<Variables, Formula>(Variab
         ;
 
 variable_sort: '(' SYMBOL sort ')' {
-            const Variable v = driver.RegisterVariable($2, $3);
+            const Variable v = driver.RegisterBoundVariable($2, $3);
             const double inf = std::numeric_limits<double>::infinity();
             $$ = std::tuple<Variable, double, double>(v, -inf, inf);
         }
         |       '(' SYMBOL sort '[' term ',' term ']' ')' {
-            const Variable v = driver.RegisterVariable($2, $3);
+            const Variable v = driver.RegisterBoundVariable($2, $3);
             const double lb = $5.expression().Evaluate();
             const double ub = $7.expression().Evaluate();
             $$ = std::tuple<Variable, double, double>(v, lb, ub);
-- 
2.43.0


From de81318ae6d8dd214c84cd5abdccdc7dd3c5ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 29/42] fix: restore names and functions at (pop)

---
 dreal/smt2/driver.cc | 14 ++++++++++++++
 dreal/smt2/driver.h  |  7 +++++++
 dreal/smt2/parser.yy |  4 ++--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 48bdf2b..79b3113 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -258,6 +258,20 @@ void Smt2Driver::GetOption(const string& key) const {
   cout.flush();
 }
 
+void Smt2Driver::Push(int n) {
+  context_.Push(n);
+  while (n-- > 0) {
+    PushScope();
+  }
+}
+
+void Smt2Driver::Pop(int n) {
+  context_.Pop(n);
+  while (n-- > 0) {
+    PopScope();
+  }
+}
+
 Variable Smt2Driver::RegisterVariable(const string& name, const Sort sort) {
   Variable v{ParseVariableSort(name, sort)};
   scope_.insert(v.get_name(), v);
diff --git a/dreal/smt2/driver.h b/dreal/smt2/driver.h
index c30cd2a..c6506ea 100644
--- a/dreal/smt2/driver.h
+++ b/dreal/smt2/driver.h
@@ -138,6 +138,13 @@ class Smt2Driver {
   /// @throws if no variable is associated with @p name.
   const Variable& lookup_variable(const std::string& name);
 
+  /// Handles `(push n)`.
+  void Push(int n);
+
+  /// Handles `(pop n)`. It forgets the names introduced since the
+  /// corresponding push.
+  void Pop(int n);
+
   void PushScope() {
     scope_.push();
     function_definition_map_.push();
diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 9c27bfe..4bfa5f8 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -273,12 +273,12 @@ command_get_option:
 
 
 command_push:   '(' TK_PUSH INT ')' {
-                    driver.mutable_context().Push(convert_int64_to_int($3));
+                    driver.Push(convert_int64_to_int($3));
                 }
                 ;
 
 command_pop:    '(' TK_POP INT ')' {
-                    driver.mutable_context().Pop(convert_int64_to_int($3));
+                    driver.Pop(convert_int64_to_int($3));
                 }
                 ;
 
-- 
2.43.0


From fc173b0ca651e05544b07d7479d417d49946dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 30/42] fix: do not crash in get-value without a model or with
 infinite values

---
 dreal/smt2/driver.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dreal/smt2/driver.cc b/dreal/smt2/driver.cc
index 79b3113..780c563 100644
--- a/dreal/smt2/driver.cc
+++ b/dreal/smt2/driver.cc
@@ -15,6 +15,7 @@
 */
 #include "dreal/smt2/driver.h"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -178,6 +179,9 @@ string ToString(const mpz_class& z) {
 }
 
 string ToRational(const double d) {
+  if (!std::isfinite(d)) {
+    return fmt::format("{}", d);
+  }
   const mpq_class r{d};
   if (r.get_den() == 1) {
     return fmt::format("{}", ToString(r.get_num()));
@@ -211,6 +215,11 @@ void Smt2Driver::GetModel() const {
 
 void Smt2Driver::GetValue(const vector<Term>& term_list) const {
   const Box& box{context_.get_model()};
+  if (box.empty()) {
+    cout << "(error \"model is not available\")\n";
+    cout.flush();
+    return;
+  }
   fmt::print("(\n");
   for (const auto& term : term_list) {
     string term_str;
-- 
2.43.0


From 06004a162c6658363c2cfd7bc030eae9da5f39f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 31/42] fix: set only the variables of the formula in
 ForallFormulaEvaluator

---
 dreal/solver/forall_formula_evaluator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/forall_formula_evaluator.cc b/dreal/solver/forall_formula_evaluator.cc
index e9a8877..4fbfa67 100644
--- a/dreal/solver/forall_formula_evaluator.cc
+++ b/dreal/solver/forall_formula_evaluator.cc
@@ -100,7 +100,10 @@ ForallFormulaEvaluator::ForallFormulaEvaluator(Formula f, const double epsilon,
 FormulaEvaluationResult ForallFormulaEvaluator::operator()(
     const Box& box) const {
   Context& context{GetContext()};
-  for (const Variable& v : box.variables()) {
+  const Variables exist_vars{formula().GetFreeVariables()};
+  // Note that box may include variables which the formula (thus the context)
+  // does not have.
+  for (const Variable& v : exist_vars) {
     context.SetInterval(v, box[v].lb(), box[v].ub());
   }
   optional<Box> counterexample = context.CheckSat();
@@ -108,7 +111,7 @@ FormulaEvaluationResult ForallFormulaEvaluator::operator()(
   if (counterexample) {
     DREAL_LOG_DEBUG("ForallFormulaEvaluator::operator()  --  CE found: ",
                     *counterexample);
-    for (const Variable& exist_var : box.variables()) {
+    for (const Variable& exist_var : exist_vars) {
       (*counterexample)[exist_var] = box[exist_var];
     }
     double max_diam = 0.0;
-- 
2.43.0


From 94033ad997463cdc8373ad22683df7f9a632dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 32/42] fix: reject unknown variables in Box lookups

---
 dreal/util/box.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dreal/util/box.cc b/dreal/util/box.cc
index 456c375..390da0f 100644
--- a/dreal/util/box.cc
+++ b/dreal/util/box.cc
@@ -128,14 +128,14 @@ Box::Interval& Box::operator[](const int i) {
   return values_[i];
 }
 Box::Interval& Box::operator[](const Variable& var) {
-  return values_[(*var_to_idx_)[var]];
+  return values_[var_to_idx_->at(var)];
 }
 const Box::Interval& Box::operator[](const int i) const {
   DREAL_ASSERT(i < size());
   return values_[i];
 }
 const Box::Interval& Box::operator[](const Variable& var) const {
-  return values_[(*var_to_idx_)[var]];
+  return values_[var_to_idx_->at(var)];
 }
 
 const vector<Variable>& Box::variables() const { return *variables_; }
@@ -146,7 +146,7 @@ bool Box::has_variable(const Variable& var) const {
   return var_to_idx_->count(var) > 0;
 }
 
-int Box::index(const Variable& var) const { return (*var_to_idx_)[var]; }
+int Box::index(const Variable& var) const { return var_to_idx_->at(var); }
 
 const Box::IntervalVector& Box::interval_vector() const { return values_; }
 Box::IntervalVector& Box::mutable_interval_vector() { return values_; }
-- 
2.43.0


From f041a3d49f9fcb1a3b096726c0d33d22c1214837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 33/42] fix: solve a dr file only once it has been read
 completely

---
 dreal/dr/parser.yy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dreal/dr/parser.yy b/dreal/dr/parser.yy
index 6df1b03..e545951 100644
--- a/dreal/dr/parser.yy
+++ b/dreal/dr/parser.yy
@@ -104,6 +104,7 @@
 script:         var_decl_sec
                 opt_ctr_decl_sec
 		opt_cost_decl_sec
+		END
 		{
                     driver.Solve();
 		}
-- 
2.43.0


From 28f6b053d350839dcdbbfe4bed647e891418b80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 34/42] fix: filter only bounds of universal variables in
 CounterexampleRefiner

---
 dreal/contractor/counterexample_refiner.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dreal/contractor/counterexample_refiner.cc b/dreal/contractor/counterexample_refiner.cc
index 62e8bfe..db0768f 100644
--- a/dreal/contractor/counterexample_refiner.cc
+++ b/dreal/contractor/counterexample_refiner.cc
@@ -38,19 +38,25 @@ CounterexampleRefiner::CounterexampleRefiner(const Formula& query,
 
   // 1. Filter bound constraints.
   Box box{forall_vec_};
+  // Note that box does not have the exist variables.
+  auto filter = [this, &box](const Formula& f) {
+    return f.GetFreeVariables().IsSubsetOf(forall_variables_)
+               ? FilterAssertion(f, &box)
+               : FilterAssertionResult::NotFiltered;
+  };
   vector<Formula> formulas;
   if (is_conjunction(query)) {
     formulas.reserve(get_operands(query).size());
     for (const Formula& f : get_operands(query)) {
       DREAL_ASSERT(is_relational(f));
-      const FilterAssertionResult result{FilterAssertion(f, &box)};
+      const FilterAssertionResult result{filter(f)};
       if (result == FilterAssertionResult::NotFiltered) {
         formulas.push_back(f);
       }
     }
   } else {
     DREAL_ASSERT(is_relational(query));
-    const FilterAssertionResult result{FilterAssertion(query, &box)};
+    const FilterAssertionResult result{filter(query)};
     if (result == FilterAssertionResult::NotFiltered) {
       formulas.push_back(query);
     }
-- 
2.43.0


From ae744adc4609708447c509d9652133c1bc2185db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 35/42] fix: do not refine counterexamples with integer
 variables

---
 dreal/contractor/counterexample_refiner.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dreal/contractor/counterexample_refiner.cc b/dreal/contractor/counterexample_refiner.cc
index db0768f..8421ea2 100644
--- a/dreal/contractor/counterexample_refiner.cc
+++ b/dreal/contractor/counterexample_refiner.cc
@@ -36,6 +36,16 @@ CounterexampleRefiner::CounterexampleRefiner(const Formula& query,
     forall_vec_.push_back(var);
   }
 
+  // The optimizer does not know about integrality: moving an integer variable
+  // to a non-integer value gives a point which is not a counterexample.
+  for (const Variable& var : forall_vec_) {
+    if (var.get_type() == Variable::Type::INTEGER ||
+        var.get_type() == Variable::Type::BINARY) {
+      DREAL_ASSERT(!opt_);
+      return;
+    }
+  }
+
   // 1. Filter bound constraints.
   Box box{forall_vec_};
   // Note that box does not have the exist variables.
-- 
2.43.0


From ca18855cce5afef9626c526bf2bcd46e16243f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 36/42] fix: minimize over all values of integer variables

---
 dreal/solver/context_impl.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 74cca73..39231e3 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -302,8 +302,14 @@ void Context::Impl::Minimize(const vector<Expression>& functions) {
     // If `box()[x_i]` has a finite bound, let's add that information in
     // set_of_negated_phi as a constraint on y_i.
     const Box::Interval& bound_on_x_i{box()[x_i]};
-    const double lb_x_i{bound_on_x_i.lb()};
-    const double ub_x_i{bound_on_x_i.ub()};
+    // The constraints on y_i will be strengthened. We widen the bounds on an
+    // integer variable so that this does not exclude its smallest and largest
+    // values.
+    const bool is_integral{x_i.get_type() == Variable::Type::INTEGER ||
+                           x_i.get_type() == Variable::Type::BINARY};
+    const double slack{is_integral ? 0.5 : 0.0};
+    const double lb_x_i{bound_on_x_i.lb() - slack};
+    const double ub_x_i{bound_on_x_i.ub() + slack};
     if (isfinite(lb_x_i)) {
       set_of_negated_phi.insert(!(lb_x_i <= y_i));
     }
-- 
2.43.0


From 4c6cd3c64c3370fafa114237acf9f7c03ad32458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 37/42] fix: expand if-then-else in quantified formulas

An equality v = e introduced for an if-then-else term under forall turns
into false when the counterexample search strengthens the formula.  The
branches are now expanded under quantifiers.
---
 dreal/solver/context_impl.cc          |  3 +-
 dreal/util/if_then_else_eliminator.cc | 77 +++++++++++++++++++++++++++
 dreal/util/if_then_else_eliminator.h  | 22 ++++++++
 3 files changed, 101 insertions(+), 1 deletion(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 39231e3..e5b3d41 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -110,7 +110,8 @@ void Context::Impl::Assert(const Formula& f) {
   if (FilterAssertion(f, &box()) == FilterAssertionResult::NotFiltered) {
     DREAL_LOG_DEBUG("ContextImpl::Assert: {} is added.", f);
     IfThenElseEliminator ite_eliminator;
-    const Formula no_ite{ite_eliminator.Process(f)};
+    const Formula no_ite{
+        ite_eliminator.Process(IfThenElseEliminator::ExpandInForall(f))};
     for (const Variable& ite_var : ite_eliminator.variables()) {
       // Note that the following does not mark `ite_var` as a model variable.
       AddToBox(ite_var);
diff --git a/dreal/util/if_then_else_eliminator.cc b/dreal/util/if_then_else_eliminator.cc
index ccf7f9d..a7054c6 100644
--- a/dreal/util/if_then_else_eliminator.cc
+++ b/dreal/util/if_then_else_eliminator.cc
@@ -20,6 +20,7 @@
 #include <set>
 #include <stdexcept>
 #include <string>
+#include <vector>
 
 #include "dreal/util/logging.h"
 #include "dreal/util/nnfizer.h"
@@ -30,6 +31,7 @@ using std::cout;
 using std::set;
 using std::to_string;
 using std::unordered_set;
+using std::vector;
 
 namespace dreal {
 
@@ -225,6 +227,21 @@ Expression IfThenElseEliminator::VisitMax(const Expression& e,
 
 Expression IfThenElseEliminator::VisitIfThenElse(const Expression& e,
                                                  const Formula& guard) {
+  if (expand_) {
+    const size_t i{num_visited_++};
+    if (i == branches_.size()) {
+      branches_.push_back(true);
+    }
+    const Formula& c{get_conditional_formula(e)};
+    const Formula new_c{Visit(c, guard)};
+    if (branches_[i]) {
+      conditions_ = conditions_ && new_c;
+      return Visit(get_then_expression(e), guard);
+    } else {
+      conditions_ = conditions_ && !new_c;
+      return Visit(get_else_expression(e), guard);
+    }
+  }
   static int counter{0};
   const Variable new_var{"ITE" + to_string(counter++),
                          Variable::Type::CONTINUOUS};
@@ -241,6 +258,66 @@ Expression IfThenElseEliminator::VisitIfThenElse(const Expression& e,
   return new_var;
 }
 
+Formula IfThenElseEliminator::ExpandInForall(const Formula& f) {
+  if (!f.include_ite()) {
+    return f;
+  }
+  if (is_forall(f)) {
+    return forall(get_quantified_variables(f),
+                  Expand(get_quantified_formula(f)));
+  }
+  if (is_negation(f)) {
+    return !ExpandInForall(get_operand(f));
+  }
+  if (is_conjunction(f) || is_disjunction(f)) {
+    set<Formula> operands;
+    for (const Formula& f_i : get_operands(f)) {
+      operands.insert(ExpandInForall(f_i));
+    }
+    return is_conjunction(f) ? make_conjunction(operands)
+                             : make_disjunction(operands);
+  }
+  return f;
+}
+
+Formula IfThenElseEliminator::Expand(const Formula& f) {
+  if (!f.include_ite()) {
+    return f;
+  }
+  if (is_forall(f)) {
+    return ExpandInForall(f);
+  }
+  if (is_negation(f)) {
+    return !Expand(get_operand(f));
+  }
+  if (is_conjunction(f) || is_disjunction(f)) {
+    set<Formula> operands;
+    for (const Formula& f_i : get_operands(f)) {
+      operands.insert(Expand(f_i));
+    }
+    return is_conjunction(f) ? make_conjunction(operands)
+                             : make_disjunction(operands);
+  }
+  // f is atomic. Go through all combinations of branches.
+  IfThenElseEliminator eliminator;
+  eliminator.expand_ = true;
+  Formula ret{Formula::True()};
+  while (true) {
+    eliminator.num_visited_ = 0;
+    eliminator.conditions_ = Formula::True();
+    const Formula f_i{eliminator.Visit(f, Formula::True())};
+    ret = ret && imply(eliminator.conditions_, f_i);
+    vector<bool>& branches{eliminator.branches_};
+    while (!branches.empty() && !branches.back()) {
+      branches.pop_back();
+    }
+    if (branches.empty()) {
+      return ret;
+    }
+    branches.back() = false;
+  }
+}
+
 Expression IfThenElseEliminator::VisitUninterpretedFunction(const Expression& e,
                                                             const Formula&) {
   return e;
diff --git a/dreal/util/if_then_else_eliminator.h b/dreal/util/if_then_else_eliminator.h
index 807a875..8f1809c 100644
--- a/dreal/util/if_then_else_eliminator.h
+++ b/dreal/util/if_then_else_eliminator.h
@@ -35,7 +35,21 @@ class IfThenElseEliminator {
   Formula Process(const Formula& f);
   const std::unordered_set<Variable, hash_value<Variable>>& variables() const;
 
+  /// Returns a formula equivalent to @p f whose quantified formulas do not
+  /// have if-then-else expressions. It distinguishes cases, for example,
+  ///
+  ///     ∀y. ITE(c, e₁, e₂) > 0  =>  ∀y. (c → e₁ > 0) ∧ (¬c → e₂ > 0).
+  ///
+  /// @note Process() introduces equalities `v = eᵢ` for universally quantified
+  /// `v`. When a quantified formula is negated and δ-strengthened to find a
+  /// counterexample, those equalities become false and hide all of the
+  /// counterexamples.
+  static Formula ExpandInForall(const Formula& f);
+
  private:
+  // Expands if-then-else expressions in @p f.
+  static Formula Expand(const Formula& f);
+
   // Handle expressions.
   Expression Visit(const Expression& e, const Formula& guard);
   Expression VisitVariable(const Expression& e, const Formula& guard);
@@ -90,6 +104,14 @@ class IfThenElseEliminator {
   // The variables introduced by the elimination process.
   std::unordered_set<Variable, hash_value<Variable>> ite_variables_;
 
+  // Used by `Expand`. The branches to take (true := then), the number of
+  // if-then-else expressions visited so far, and the conditions of the branches
+  // taken.
+  bool expand_{false};
+  std::vector<bool> branches_;
+  size_t num_visited_{0};
+  Formula conditions_;
+
   // Makes VisitFormula a friend of this class so that it can use private
   // operator()s.
   friend Formula drake::symbolic::VisitFormula<Formula>(IfThenElseEliminator*,
-- 
2.43.0


From d934e1797be14a90ce32bcc5b633709959120b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 38/42] fix: drop cached contractors when the precision changes

---
 dreal/solver/theory_solver.cc | 7 +++++--
 dreal/solver/theory_solver.h  | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/theory_solver.cc b/dreal/solver/theory_solver.cc
index 0b2c6e7..b94dff7 100644
--- a/dreal/solver/theory_solver.cc
+++ b/dreal/solver/theory_solver.cc
@@ -274,13 +274,16 @@ bool TheorySolver::CheckSat(const Box& box, const vector<Formula>& assertions) {
   }
 
   DREAL_LOG_DEBUG("TheorySolver::CheckSat()");
-  // Contractors depend on the positions of the variables in a box.
-  if (!equal(cached_variables_.begin(), cached_variables_.end(),
+  // Contractors depend on the positions of the variables in a box. The ones for
+  // quantified formulas depend on the precision as well.
+  if (config_.precision() != cached_precision_ ||
+      !equal(cached_variables_.begin(), cached_variables_.end(),
              box.variables().begin(), box.variables().end(),
              std::equal_to<Variable>{})) {
     contractor_cache_.clear();
     formula_evaluator_cache_.clear();
     cached_variables_ = box.variables();
+    cached_precision_ = config_.precision();
   }
   ContractorStatus contractor_status(box);
 
diff --git a/dreal/solver/theory_solver.h b/dreal/solver/theory_solver.h
index 730a100..b50b108 100644
--- a/dreal/solver/theory_solver.h
+++ b/dreal/solver/theory_solver.h
@@ -66,6 +66,8 @@ class TheorySolver {
   std::unordered_map<Formula, FormulaEvaluator> formula_evaluator_cache_;
   // The variables of the boxes for which the caches are valid.
   std::vector<Variable> cached_variables_;
+  // The precision for which the caches are valid.
+  double cached_precision_{0.0};
 };
 
 }  // namespace dreal
-- 
2.43.0


From b2c5bda326762c802fdc7f62abab59019c76b821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 39/42] fix: integral bounds in ContractorForall before the
 next counterexample

---
 dreal/contractor/contractor_forall.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dreal/contractor/contractor_forall.h b/dreal/contractor/contractor_forall.h
index 683d8ee..8c4eb14 100644
--- a/dreal/contractor/contractor_forall.h
+++ b/dreal/contractor/contractor_forall.h
@@ -81,6 +81,7 @@ class ContractorForall : public ContractorCell {
         strengthend_negated_nested_f_{Nnfizer{}.Convert(
             DeltaStrengthen(!get_quantified_formula(f_), epsilon), true)},
         contractor_{config /* This one will be updated anyway. */},
+        integer_contractor_{make_contractor_integer(box, config)},
         context_for_counterexample_{config} {
     DREAL_ASSERT(epsilon > 0.0);
     DREAL_ASSERT(inner_delta > 0.0);
@@ -198,6 +199,13 @@ class ContractorForall : public ContractorCell {
       }
 #endif
 
+      // 0. The bounds of integer variables may be non-integral after the
+      // previous iteration. There is nothing to do if no integer is left.
+      integer_contractor_.Prune(cs);
+      if (current_box.empty()) {
+        break;
+      }
+
       // 1. Find Counterexample.
       for (const Variable& exist_var : current_box.variables()) {
         context_for_counterexample_.SetInterval(exist_var,
@@ -248,6 +256,8 @@ class ContractorForall : public ContractorCell {
   const Formula strengthend_negated_nested_f_;  // (¬φ)⁻ᵟ¹
   // To compute `B' = Contract(φ(x₁, ..., xₙ, b₁, ..., bₘ), B)`.
   Contractor contractor_;
+  // To keep the bounds of integer variables in B integral.
+  const Contractor integer_contractor_;
   // Context to do `Solve(¬φ', δ₂)`.
   mutable ContextType context_for_counterexample_;
   const bool use_local_optimization_{false};
-- 
2.43.0


From d2f77ffd3b9a2191738a375084742e5989471555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 40/42] fix: quoted symbols in SMT-LIB

|x| denotes the same symbol as x. A backslash is not allowed in a quoted
symbol; it was accepted and everything before it was dropped from the name.
---
 dreal/smt2/scanner.ll | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dreal/smt2/scanner.ll b/dreal/smt2/scanner.ll
index d34b386..5fbeabc 100644
--- a/dreal/smt2/scanner.ll
+++ b/dreal/smt2/scanner.ll
@@ -229,6 +229,11 @@ simple_symbol   {sym_begin}{sym_continue}*
 }
 <str>.                  { yymore(); }
 
+\|{simple_symbol}\|      {
+    // |abc| and abc are the same symbol.
+    yylval->build<std::string>(std::string(yytext + 1, yyleng - 2));
+    return token::SYMBOL;
+}
 \|                      { BEGIN quoted; yymore(); }
 <quoted>[\n\r]+         { yymore(); }
 <quoted>\|              {
@@ -236,7 +241,11 @@ simple_symbol   {sym_begin}{sym_continue}*
     yylval->build<std::string>(std::string(yytext, yyleng));
     return token::SYMBOL;
 }
-<quoted>\\              { }
+<quoted>\\              {
+    // A backslash is not allowed in a quoted symbol.
+    BEGIN 0;
+    return static_cast<token_type>('\\');
+}
 <quoted>.               { yymore(); }
 
  /* pass all other characters up to bison */
-- 
2.43.0


From fbab1a42857be92ea7c5bc3475fc927aa3a24347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 41/42] fix: NloptOptimizer ignored the negation of a negated
 constraint

AddConstraint converted the operand of the negation instead of the
negation itself, so that !(x < 1) was passed to NLopt as x < 1.
---
 dreal/optimization/nlopt_optimizer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreal/optimization/nlopt_optimizer.cc b/dreal/optimization/nlopt_optimizer.cc
index 89f328a..1f35e73 100644
--- a/dreal/optimization/nlopt_optimizer.cc
+++ b/dreal/optimization/nlopt_optimizer.cc
@@ -121,7 +121,8 @@ void NloptOptimizer::AddConstraint(const Formula& formula) {
   if (is_negation(formula)) {
     const Formula& negated_formula{get_operand(formula)};
     if (is_relational(negated_formula)) {
-      return AddRelationalConstraint(nnfizer_.Convert(negated_formula));
+      return AddRelationalConstraint(
+          nnfizer_.Convert(formula, true /* push negations into relations */));
     }
   }
   throw DREAL_RUNTIME_ERROR(
-- 
2.43.0


From a9f19493585f6ad06f88f77282afe4c64c75062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 42/42] fix: the options :forall_polytope and
 :local_optimization were ignored

Their keys lacked the colon, unlike the ones of the other options.
---
 dreal/solver/context_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index e5b3d41..baac035 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -417,11 +417,11 @@ void Context::Impl::SetOption(const string& key, const string& val) {
     return config_.mutable_use_polytope().set_from_file(
         ParseBooleanOption(key, val));
   }
-  if (key == ":forall-polytope" || key == "forall_polytope") {
+  if (key == ":forall-polytope" || key == ":forall_polytope") {
     return config_.mutable_use_polytope_in_forall().set_from_file(
         ParseBooleanOption(key, val));
   }
-  if (key == ":local-optimization" || key == "local_optimization") {
+  if (key == ":local-optimization" || key == ":local_optimization") {
     return config_.mutable_use_local_optimization().set_from_file(
         ParseBooleanOption(key, val));
   }
-- 
2.43.0

