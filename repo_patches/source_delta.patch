From d992eb92eb5300d4a571af8c187f7f5b2c828dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 01/32] fix: Long_fraction::inv() for values without a word
 representation of the result

---
 src/lra/Long_fraction.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 6025818..19b7232 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -418,13 +418,7 @@ public:
         return r;
     }
 
-    inline Long_fraction inv() const {
-        if (sign() >= 0) {
-            return {static_cast<word>(den), static_cast<uword>(num)};
-        } else {
-            return {static_cast<word>(-den), static_cast<uword>(-num)};
-        }
-    }
+    inline Long_fraction inv() const { return inverse(); }
 };
 
 Long_fraction fastrat_fdiv_q(Long_fraction const & n, Long_fraction const & d);
-- 
2.43.0


From dc4f88a554c408b048aacea1698de400fd54701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 02/32] fix: substitute arguments into the whole body of a
 defined function

---
 src/terms/Term_rewriter.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 930d1d3..909a4ab 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -5,6 +5,7 @@
 #include <unordered_map>
 
 #include "Term_manager.h"
+#include "Terms.h"
 
 namespace yaga::terms {
 
@@ -41,12 +42,14 @@ public:
             {
                 term_t next_child = children[current_entry.next_child];
                 ++current_entry.next_child;
-                if (is_processed(next_child)) { toProcess.emplace_back(next_child); }
+                if (not is_processed(next_child)) { toProcess.emplace_back(next_child); }
                 continue;
             }
             // If we are here, we have already processed all children
             assert(substitutions.count(current_term) == 0);
             bool needs_change = false;
+            // `get_args()` does not include the symbol of a function application, `mk_term()` needs it
+            if (tm.is_app(current_term)) { aux_args.push_back(tm.get_fnc_symbol(current_term)); }
             for (term_t child : children)
             {
                 auto it = substitutions.find(child);
@@ -57,6 +60,8 @@ public:
                 aux_args.push_back(newChild);
             }
             term_t newTerm = needs_change ? tm.mk_term(tm.get_kind(current_term), aux_args) : current_term;
+            // arguments do not include the polarity of the original term
+            if (needs_change and tm.is_negated(current_term)) { newTerm = opposite_term(newTerm); }
             aux_args.clear();
             term_t rewritten = cfg.rewrite(newTerm);
             if (rewritten != newTerm or needs_change) {
@@ -90,11 +95,11 @@ public:
 
     term_t rewrite(term_t term) override
     {
-        if (not is_negated(term) and tm.get_kind(term) == Kind::UNINTERPRETED_TERM)
+        if (tm.get_kind(term) == Kind::UNINTERPRETED_TERM)
         {
-            if (auto it = subst_map.find(term); it != subst_map.end())
+            if (auto it = subst_map.find(tm.positive_term(term)); it != subst_map.end())
             {
-                return it->second;
+                return tm.is_negated(term) ? opposite_term(it->second) : it->second;
             }
         }
         return term;
-- 
2.43.0


From eb114881a450c73bd4ccfc46eb207ede43ae5b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 03/32] fix: canonical form of a product whose coefficient
 becomes one

---
 src/terms/Term_manager.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 293e60a..0337823 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -426,7 +426,10 @@ term_t Term_manager::mk_arithmetic_eq(term_t t1, term_t t2)
     auto p = term_to_poly(t1);
     auto other = term_to_poly(t2);
     p.merge(other, -1);
-    assert(p.size() != 0);
+    if (p.size() == 0)
+    {
+        return true_term;
+    }
     if (p.size() <= 2)
     {
         if (p.size() == 1)
@@ -647,8 +650,8 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
         return term_table->arithmetic_product(val, *pit);
     case Kind::ARITH_PRODUCT: {
         term_t var = term_table->var_of_product(poly_term);
-        auto const& coeff = term_table->coeff_of_product(poly_term);
-        return term_table->arithmetic_product(coeff * val, var);
+        auto coeff = term_table->coeff_of_product(poly_term) * val;
+        return coeff == 1 ? var : term_table->arithmetic_product(coeff, var);
     }
     case Kind::ARITH_POLY:
     {
-- 
2.43.0


From 6d66ad617cfd4bb2ff87a0e72be75b1d1c23ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 04/32] fix: operators applied to more than two arguments

---
 src/terms/Term_manager.cpp | 49 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 0337823..7b46544 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -159,8 +159,57 @@ term_t Term_manager::mk_term(Kind kind, std::span<term_t> args)
     }
 }
 
+namespace {
+
+// (op a b c) stands for (and (op a b) (op b c))
+bool is_chainable(std::string const& op)
+{
+    return op == "=" or op == "<" or op == "<=" or op == ">" or op == ">=";
+}
+
+// (op a b c) stands for (op (op a b) c)
+bool is_left_assoc(std::string const& op)
+{
+    return op == "-" or op == "*" or op == "/" or op == "xor";
+}
+
+// (op a b c) stands for (op a (op b c))
+bool is_right_assoc(std::string const& op)
+{
+    return op == "=>";
+}
+
+}
+
 term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool not_app /* = false */)
 {
+    if (args.size() > 2)
+    {
+        auto mk_binary = [&](term_t lhs, term_t rhs) {
+            std::array<term_t, 2> binary_args{lhs, rhs};
+            return mk_term(op, binary_args, not_app);
+        };
+
+        if (is_chainable(op))
+        {
+            std::vector<term_t> chain;
+            for (std::size_t i = 1; i < args.size(); ++i)
+            {
+                chain.push_back(mk_binary(args[i - 1], args[i]));
+            }
+            return mk_and(chain);
+        }
+        if (is_left_assoc(op))
+        {
+            return std::accumulate(args.begin() + 1, args.end(), args.front(), mk_binary);
+        }
+        if (is_right_assoc(op))
+        {
+            return std::accumulate(args.rbegin() + 1, args.rend(), args.back(),
+                                   [&](term_t rhs, term_t lhs) { return mk_binary(lhs, rhs); });
+        }
+    }
+
     if (op == ">=")
     {
         assert(args.size() == 2);
-- 
2.43.0


From 844249ae5d384af09102ad7dd4df9512046471cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 05/32] fix: do not push an effectively decided variable to the
 queue twice

---
 src/variable_order/Generalized_vsids.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index df10383..1485d1a 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -82,7 +82,10 @@ std::optional<Variable> Generalized_vsids::pick_effectively_decided(Trail& trail
     for (int var_ord : lra->effectively_decided())
     {
         Variable var{var_ord, Variable::rational};
-        effectively_decided.push(var, score(var));
+        if (!effectively_decided.contains(var))
+        {
+            effectively_decided.push(var, score(var));
+        }
     }
 
     // decide effectively decided variables first
-- 
2.43.0


From bd1d7f2041c3d1200e0d4966e90a65b642b840bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 06/32] fix: strictness of bounds deduced through more than one
 constraint

---
 src/lra/Lra_conflict_analysis.cpp | 2 +-
 src/lra/Variable_bounds.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lra/Lra_conflict_analysis.cpp b/src/lra/Lra_conflict_analysis.cpp
index e8de2e4..ae7216a 100644
--- a/src/lra/Lra_conflict_analysis.cpp
+++ b/src/lra/Lra_conflict_analysis.cpp
@@ -209,7 +209,7 @@ std::optional<Clause> Inequality_conflict_analysis::analyze(Trail& trail, Bounds
 
     // check if `L <= x` and `x <= U` and L, U evaluate to the same value where `x` is the
     // check, unassigned variable
-    if (lb->value() != ub->value() || lb->reason().is_strict() || ub->reason().is_strict())
+    if (lb->value() != ub->value() || lb->is_strict() || ub->is_strict())
     {
         return {};
     }
diff --git a/src/lra/Variable_bounds.h b/src/lra/Variable_bounds.h
index 89760a6..8fb9b23 100644
--- a/src/lra/Variable_bounds.h
+++ b/src/lra/Variable_bounds.h
@@ -134,7 +134,7 @@ public:
     {
         return reason().is_strict() ||
                std::any_of(deps.begin(), deps.end(), [](auto const& other_bound) {
-                   return other_bound.reason().is_strict();
+                   return other_bound.is_strict();
                });
     }
 
-- 
2.43.0


From cdb17b8151d7889d285f3781eee16821519d163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 07/32] fix: negated boolean terms in function applications

---
 src/parser/Solver_wrapper.cpp      |  1 +
 src/uf/Uninterpreted_functions.cpp | 20 +++++++++++++++-----
 src/uf/Uninterpreted_functions.h   |  7 +++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 08a1f76..725fef8 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -223,6 +223,7 @@ void Internalizer_config::visit(term_t t)
         return;
     }
     case terms::Kind::APP_TERM: {
+        t = term_manager.positive_term(t);
         terms::type_t term_type = term_manager.get_type(t);
         Variable::Type var_type;
         switch (term_type) {
diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 83008c5..92fcdcf 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -74,11 +74,9 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
         break;
     }
     case terms::types::bool_type: {
-        auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == t; };
-        auto found = std::ranges::find_if(bool_vars, key_equal);
-        if (found != bool_vars.end())
+        if (auto lit = term_to_literal(t))
         {
-            return found->second.var();
+            return lit->var();
         }
         break;
     }
@@ -87,6 +85,18 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
     return std::nullopt;
 }
 
+std::optional<Literal> Uninterpreted_functions::term_to_literal(terms::term_t t) {
+    // only positive terms are mapped to literals
+    terms::term_t positive_term = term_manager.positive_term(t);
+    auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == positive_term; };
+    auto found = std::ranges::find_if(bool_vars, key_equal);
+    if (found == bool_vars.end())
+    {
+        return std::nullopt;
+    }
+    return term_manager.is_negated(t) ? ~found->second : found->second;
+}
+
 std::vector<Variable> Uninterpreted_functions::vars_to_watch(terms::term_t t) {
     std::vector<Variable> result;
 
@@ -168,7 +178,7 @@ Uninterpreted_functions::Term_evaluation Uninterpreted_functions::evaluate(const
         case terms::types::bool_type: {
             Model<bool> const& b_model = trail.model<bool>(Variable::boolean);
             bool bool_model_value = b_model.value(maybe_var.value().ord());
-            result.value = bool_model_value;
+            result.value = term_to_literal(t)->is_negation() ? !bool_model_value : bool_model_value;
             break;
         }
         }
diff --git a/src/uf/Uninterpreted_functions.h b/src/uf/Uninterpreted_functions.h
index 5b604f9..aec3fb3 100644
--- a/src/uf/Uninterpreted_functions.h
+++ b/src/uf/Uninterpreted_functions.h
@@ -152,6 +152,13 @@ private:
      */
     std::optional<Variable> term_to_var(terms::term_t t);
 
+    /** Get the literal which represents boolean term @p t
+     *
+     * @param t boolean term to check
+     * @return literal which is true iff @p t is true or std::nullopt if there is none
+     */
+    std::optional<Literal> term_to_literal(terms::term_t t);
+
     /** Store the value of the application term @p t and check for potential function application
      * conflicts
      *
-- 
2.43.0


From 2b0763b5c4b9f2aa7fdaad43c38567a447d6dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 08/32] fix: explain function conflicts with boolean arguments
 and values

---
 src/uf/Uninterpreted_functions.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 92fcdcf..d2cf27f 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -280,6 +280,19 @@ utils::Linear_polynomial Uninterpreted_functions::term_to_poly(terms::term_t t)
 void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u, Trail& trail, Clause& result_clause, bool make_equal) {
     assert(term_manager.get_type(t) == term_manager.get_type(u));
     switch(term_manager.get_type(t)) {
+    case terms::types::bool_type:
+        if (t == u) {
+            return;
+        }
+
+        // the terms keep their current (dis)equality as long as neither of them changes its value
+        for (terms::term_t term : {t, u}) {
+            if (auto lit = term_to_literal(term)) {
+                bool is_true = std::get<bool>(evaluate(term, trail).value);
+                result_clause.push_back(is_true ? ~lit.value() : lit.value());
+            }
+        }
+        break;
     case terms::types::real_type:
         // polynomial p == (t - u)
         utils::Linear_polynomial p = term_to_poly(t);
-- 
2.43.0


From b03840981d9c5e3592aff90aa619fe5013afa5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 09/32] fix: function values lost or kept by mistake after
 backtracking

---
 src/uf/Uninterpreted_functions.cpp | 32 +++++++++++++++++++-----------
 src/uf/Uninterpreted_functions.h   |  2 ++
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index d2cf27f..740fc8a 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -40,6 +40,20 @@ Uninterpreted_functions::Uninterpreted_functions(terms::Term_manager const& tm,
 std::vector<Clause> Uninterpreted_functions::propagate(Database&, Trail& trail) {
     std::vector<Clause> result;
 
+    if (rescan) {
+        rescan = false;
+        for (Assignment_watchlist& w_list : watchlists) {
+            if (trail.decision_level(w_list.get_watched_var()).has_value()) {
+                w_list.on_assign(trail);
+
+                if (w_list.all_assigned(trail)) {
+                    std::vector<Clause> function_conflict = add_function_value(w_list.get_term(), trail);
+                    result.insert(result.end(), function_conflict.begin(), function_conflict.end());
+                }
+            }
+        }
+    }
+
     std::vector<Trail::Assignment> assignments = trail.assigned(trail.decision_level());
     //std::vector<Trail::Assignment> assignments = trail.recent();
     for (Trail::Assignment const& assignment : assignments) {
@@ -146,18 +160,12 @@ void Uninterpreted_functions::register_solver(yaga::Yaga* s) {
     solver = s;
 }
 
-void Uninterpreted_functions::on_before_backtrack(Database&, Trail&, int new_lvl) {
-    for (auto & [_, function] : functions) {
-        std::vector<std::vector<terms::var_value_t>> to_erase;
-        for (auto & [arg_values, application] : function) {
-            if (application.decision_level > new_lvl) {
-                to_erase.push_back(arg_values);
-            }
-        }
-        for (auto const& arg_values : to_erase) {
-            function.erase(arg_values);
-        }
-    }
+void Uninterpreted_functions::on_before_backtrack(Database&, Trail&, int) {
+    // A value is recorded only by the first application with the same argument values. If that
+    // application becomes unassigned, the value can still be defined by another application.
+    // Applications assigned after backtracking are registered again in the next propagate().
+    functions.clear();
+    rescan = true;
 }
 
 Uninterpreted_functions::Term_evaluation Uninterpreted_functions::evaluate(const terms::term_t t, Trail& trail) {
diff --git a/src/uf/Uninterpreted_functions.h b/src/uf/Uninterpreted_functions.h
index aec3fb3..29bce28 100644
--- a/src/uf/Uninterpreted_functions.h
+++ b/src/uf/Uninterpreted_functions.h
@@ -128,6 +128,8 @@ private:
     std::vector<Assignment_watchlist> watchlists;
     std::unordered_map<terms::term_t, function_application_map_t> functions;
     std::unordered_map<terms::term_t, function_value_map_t> model;
+    // true iff values of all assigned applications have to be registered in `functions` again
+    bool rescan = false;
     Yaga* solver;
 
     /** Evaluate term @p t with respect to current @p trail
-- 
2.43.0


From fa5fcbe185a722f44c70d79a70d558b28dd550fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 10/32] fix: decision level of an argument (dis)equality
 propagated by the UF plugin

---
 src/uf/Uninterpreted_functions.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 740fc8a..0c6adfd 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -336,7 +336,12 @@ void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u,
             Term_evaluation u_eval = evaluate(u, trail);
             assert(are_equal == (t_eval.value == u_eval.value));
 
-            int propagation_level = std::max<int>(t_eval.decision_level, u_eval.decision_level);
+            // variables which cancel out in (t - u) have no effect on the value of the constraint
+            int propagation_level = 0;
+            for (int var : p.vars) {
+                int level = trail.decision_level(Variable{var, Variable::rational}).value();
+                propagation_level = std::max<int>(propagation_level, level);
+            }
             trail.propagate(lit.var(), nullptr, propagation_level);
             trail_model.set_value(lit.var().ord(), are_equal);
         }
-- 
2.43.0


From a67e3c8b7c3610b752100ecbfb6b01382fce209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 11/32] fix: constant false as an argument of an uninterpreted
 function

---
 src/parser/Solver_wrapper.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 725fef8..aaa30ff 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -324,15 +324,7 @@ void Internalizer_config::visit(term_t t)
         return;
     }
 
-    case terms::Kind::CONSTANT_TERM:
-    {
-        if (t != terms::true_term)
-        {
-            throw std::logic_error("Unhandled internalize case!");
-        }
-        return;
-    }
-
+    case terms::Kind::CONSTANT_TERM: // true or false (e.g., an argument of a function)
     case terms::Kind::ARITH_CONSTANT:
     case terms::Kind::ARITH_PRODUCT:
     case terms::Kind::ARITH_POLY:
-- 
2.43.0


From 19a744a4034dcf7d37758042811c25a5ef8d3950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 12/32] fix: start every check-sat with a new solver

---
 src/Yaga.h                    |  4 ++--
 src/parser/Solver_wrapper.cpp | 24 ++++++++++++++++++------
 src/parser/Solver_wrapper.h   | 16 +++++++++++++---
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/Yaga.h b/src/Yaga.h
index da2588c..29b556b 100644
--- a/src/Yaga.h
+++ b/src/Yaga.h
@@ -216,10 +216,10 @@ private:
     Solver smt;
 
     // pointer to the LRA plugin or nullptr if this solver does not support LRA
-    Linear_arithmetic* lra;
+    Linear_arithmetic* lra = nullptr;
 
     // pointer to the UF plugin or nullptr if this solver does not support UF
-    Uninterpreted_functions* uf;
+    Uninterpreted_functions* uf = nullptr;
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, int> > real_mapping;
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, Literal> > bool_mapping;
 };
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index aaa30ff..d0907ae 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -8,16 +8,20 @@ namespace yaga::parser
 using term_t = terms::term_t;
 
 Solver_wrapper::Solver_wrapper(terms::Term_manager& term_manager, Options const& opts)
-    : term_manager(term_manager), options(opts),
-      internalizer_config(term_manager, solver), internalizer(term_manager, internalizer_config),
+    : term_manager(term_manager), options(opts) {}
+
+Solver_wrapper::Session::Session(terms::Term_manager const& term_manager)
+    : internalizer_config(term_manager, solver), internalizer(term_manager, internalizer_config),
       solver(term_manager, internalizer_config.rational_vars(), internalizer_config.bool_vars()) {}
 
 void Solver_wrapper::set_logic(Initializer const& init) {
-    solver.set_logic(init, options);
+    logic = &init;
+    session = std::make_unique<Session>(term_manager);
+    session->solver.set_logic(*logic, options);
 }
 
 bool Solver_wrapper::has_uf() {
-    return solver.has_uf();
+    return session && session->solver.has_uf();
 }
 
 Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
@@ -27,9 +31,16 @@ Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
         return Solver_answer::UNSAT;
     }
 
-    // Cnfize and assert clauses to the solver
-    solver.init();
+    if (!logic)
+    {
+        throw std::logic_error("Logic is not set!");
+    }
+
+    // remove all variables and clauses from the previous check
+    set_logic(*logic);
+    auto& [internalizer_config, internalizer, solver] = *session;
 
+    // Cnfize and assert clauses to the solver
     internalizer.visit(assertions);
 
     // add top level assertions to the solver
@@ -89,6 +100,7 @@ Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
 
 void Solver_wrapper::model(Default_model_visitor& visitor)
 {
+    auto& solver = session->solver;
     auto& bool_model = solver.solver().trail().model<bool>(Variable::boolean);
     auto& lra_model = solver.solver().trail().model<Rational>(Variable::rational);
 
diff --git a/src/parser/Solver_wrapper.h b/src/parser/Solver_wrapper.h
index fce7583..d117a85 100644
--- a/src/parser/Solver_wrapper.h
+++ b/src/parser/Solver_wrapper.h
@@ -1,6 +1,7 @@
 #ifndef YAGA_SOLVER_WRAPPER_H
 #define YAGA_SOLVER_WRAPPER_H
 
+#include <memory>
 #include <optional>
 #include <vector>
 #include <ranges>
@@ -126,10 +127,19 @@ class Solver_wrapper
     Options const& options;
     std::unordered_map<terms::term_t, Variable> variables;
 
-    Internalizer_config internalizer_config;
-    terms::Visitor<Internalizer_config> internalizer;
+    // state of the solver created from scratch for each check
+    struct Session {
+        Internalizer_config internalizer_config;
+        terms::Visitor<Internalizer_config> internalizer;
 
-    Yaga solver;
+        Yaga solver;
+
+        Session(terms::Term_manager const& term_manager);
+    };
+
+    std::unique_ptr<Session> session;
+    // initializer of the current logic or nullptr if no logic has been set
+    Initializer const* logic = nullptr;
 
 public:
     Solver_wrapper(terms::Term_manager& term_manager, Options const& options);
-- 
2.43.0


From 43412533f8fd9d649c2c1c2c17f3388521535fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 13/32] fix: report an error for ill-formed applications of
 builtin operators

---
 src/terms/Term_manager.cpp | 75 +++++++++++++++++++++++++++++++++++++-
 src/terms/Term_manager.h   |  8 ++++
 2 files changed, 81 insertions(+), 2 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 7b46544..aa8095b 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -179,10 +179,71 @@ bool is_right_assoc(std::string const& op)
     return op == "=>";
 }
 
+bool is_arithmetic(std::string const& op)
+{
+    return op == "<" or op == "<=" or op == ">" or op == ">=" or op == "+" or op == "-" or
+           op == "*" or op == "/";
+}
+
+bool is_logical(std::string const& op)
+{
+    return op == "not" or op == "and" or op == "or" or op == "=>" or op == "xor";
+}
+
+}
+
+void Term_manager::check_args(std::string const& op, std::span<const term_t> args) const
+{
+    bool is_arity_ok = true;
+    if (op == "not")
+    {
+        is_arity_ok = args.size() == 1;
+    }
+    else if (op == "ite")
+    {
+        is_arity_ok = args.size() == 3;
+    }
+    else if (op == "-")
+    {
+        is_arity_ok = args.size() >= 1;
+    }
+    else if (is_chainable(op) or is_left_assoc(op) or is_right_assoc(op) or op == "distinct")
+    {
+        // (* x) is a valid term
+        is_arity_ok = args.size() >= 2 or op == "*";
+    }
+
+    if (!is_arity_ok)
+    {
+        throw std::logic_error("Wrong number of arguments of: " + op);
+    }
+
+    bool are_types_ok = true;
+    if (is_arithmetic(op))
+    {
+        are_types_ok = std::ranges::all_of(
+            args, [&](term_t arg) { return get_type(arg) == types::real_type; });
+    }
+    else if (is_logical(op))
+    {
+        are_types_ok = std::ranges::all_of(
+            args, [&](term_t arg) { return get_type(arg) == types::bool_type; });
+    }
+    else if (op == "ite")
+    {
+        are_types_ok = get_type(args[0]) == types::bool_type;
+    }
+
+    if (!are_types_ok)
+    {
+        throw std::logic_error("Wrong type of an argument of: " + op);
+    }
 }
 
 term_t Term_manager::mk_term(std::string const& op, std::span<term_t> args, bool not_app /* = false */)
 {
+    check_args(op, args);
+
     if (args.size() > 2)
     {
         auto mk_binary = [&](term_t lhs, term_t rhs) {
@@ -668,7 +729,10 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
     assert(args.size() == 2);
     auto pit = std::partition(args.begin(), args.end(),[this](term_t arg) { return this->term_table->is_arithmetic_constant(arg); });
     // constants are from begin to it, non-constants are from pit (included) until end
-    assert(args.end() - pit <= 1);
+    if (args.end() - pit > 1)
+    {
+        throw std::logic_error("Non-linear multiplication is not supported");
+    }
 
     // fold all constants into a single value
     Rational val = 1;
@@ -717,8 +781,15 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
 
 term_t Term_manager::mk_divides(term_t t1, term_t t2)
 {
-    assert(term_table->is_arithmetic_constant(t2));
+    if (!term_table->is_arithmetic_constant(t2))
+    {
+        throw std::logic_error("Division by a non-constant term is not supported");
+    }
     Rational const& value = term_table->arithmetic_constant_value(t2);
+    if (value == 0)
+    {
+        throw std::logic_error("Division by zero is not supported");
+    }
     if (term_table->is_arithmetic_constant(t1))
     {
         return term_table->arithmetic_constant(term_table->arithmetic_constant_value(t1) / value);
diff --git a/src/terms/Term_manager.h b/src/terms/Term_manager.h
index 313d668..bb6bc1a 100644
--- a/src/terms/Term_manager.h
+++ b/src/terms/Term_manager.h
@@ -38,6 +38,14 @@ public:
      */
     term_t mk_term(std::string const& op, std::span<term_t> args, bool not_app = false);
 
+    /**
+     * Checks the number and types of arguments of a builtin operation
+     * @param op name of the operation (function symbol)
+     * @param args argument list
+     * @throws std::logic_error if the operation cannot be applied to @p args
+     */
+    void check_args(std::string const& op, std::span<const term_t> args) const;
+
     /**
      * Gets the term of the specified kind with the given list of argument terms
      * @param kind the kind of the term
-- 
2.43.0


From 242863e8ce26057f30f46e7e64216d21a22cab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 14/32] fix: report an error for undeclared symbols and
 ill-formed applications of user-defined symbols

---
 src/parser/Parser_context.cpp   | 51 ++++++++++++++++++++++++++++-----
 src/parser/Parser_context.h     |  3 ++
 src/parser/Smt2_parser.cpp      |  4 +++
 src/parser/Smt2_term_parser.cpp |  5 ++--
 4 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/src/parser/Parser_context.cpp b/src/parser/Parser_context.cpp
index 9180c6a..b68272d 100644
--- a/src/parser/Parser_context.cpp
+++ b/src/parser/Parser_context.cpp
@@ -38,11 +38,21 @@ term_t Parser_context::get_term_for_symbol(std::string const& symbol)
     if (defined_functions.has(symbol))
     {
         auto defined = defined_functions.get(symbol);
-        assert(defined.signature.args.empty());
+        if (!defined.signature.args.empty())
+        {
+            throw std::logic_error("Missing arguments of function: " + symbol);
+        }
         return defined.body;
     }
+    if (declared_functions.has(symbol))
+    {
+        throw std::logic_error("Missing arguments of function: " + symbol);
+    }
     auto t = term_manager.get_term_by_name(symbol);
-    assert(t.has_value());
+    if (!t.has_value())
+    {
+        throw std::logic_error("Undeclared symbol: " + symbol);
+    }
     return t.value();
 }
 
@@ -77,6 +87,7 @@ void Parser_context::model(Default_model_visitor& visitor)
 
 term_t Parser_context::declare_uninterpreted_constant(terms::type_t sort, std::string const& name)
 {
+    check_not_declared(name);
     term_t term = term_manager.mk_uninterpreted_constant(sort);
     term_manager.set_term_name(term, name);
     return term;
@@ -84,6 +95,7 @@ term_t Parser_context::declare_uninterpreted_constant(terms::type_t sort, std::s
 
 void Parser_context::declare_uninterpreted_function(terms::type_t ret_type, std::vector<terms::type_t> && arg_sorts, std::string const& name)
 {
+    check_not_declared(name);
     term_t fnc_term = term_manager.mk_uninterpreted_constant(ret_type);
     term_manager.set_term_name(fnc_term, name);
 
@@ -108,13 +120,17 @@ term_t Parser_context::resolve_term(std::string const& name, std::vector<term_t>
     } else if (declared_functions.has(name))
     {
         auto declared_function = declared_functions.get(name);
-        auto expected_count = declared_function.arg_types.size();
-        assert(expected_count == args.size()); (void) expected_count;
+        if (declared_function.arg_types.size() != args.size())
+        {
+            throw std::logic_error("Wrong number of arguments of function: " + name);
+        }
 
         for (size_t i = 0; i < args.size(); ++i)
         {
-            type_t expected_type = declared_function.arg_types[i];
-            assert(expected_type == term_manager.get_type(args[i])); (void) expected_type;
+            if (declared_function.arg_types[i] != term_manager.get_type(args[i]))
+            {
+                throw std::logic_error("Wrong type of an argument of function: " + name);
+            }
         }
 
         return term_manager.mk_app(name, declared_function.return_type, args);
@@ -137,9 +153,23 @@ std::vector<term_t> Parser_context::bind_vars(std::span<Sorted_var> sorted_vars)
 void Parser_context::store_defined_fun(std::string const& name, term_t definition,
                                        std::vector<term_t> && formal_args, type_t return_sort)
 {
+    check_not_declared(name);
+    if (term_manager.get_type(definition) != return_sort)
+    {
+        throw std::logic_error("Wrong type of the body of function: " + name);
+    }
     defined_functions.insert(name, Function_template(name, std::move(formal_args), return_sort, definition));
 }
 
+void Parser_context::check_not_declared(std::string const& name)
+{
+    if (defined_functions.has(name) || declared_functions.has(name) ||
+        term_manager.get_term_by_name(name).has_value())
+    {
+        throw std::logic_error("Symbol is already declared: " + name);
+    }
+}
+
 void Parser_context::push_binding_scope()
 {
     let_records.push_frame();
@@ -162,10 +192,17 @@ term_t resolve(Function_template const& function_template, std::span<term_t> arg
 {
     using subst_map_t = std::unordered_map<term_t, term_t>;
     auto size = function_template.signature.args.size();
-    assert(size == args.size());
+    if (size != args.size())
+    {
+        throw std::logic_error("Wrong number of arguments of function: " + function_template.signature.name);
+    }
     subst_map_t subst_map;
     for (std::size_t i = 0u; i != size; ++i)
     {
+        if (term_manager.get_type(function_template.signature.args[i]) != term_manager.get_type(args[i]))
+        {
+            throw std::logic_error("Wrong type of an argument of function: " + function_template.signature.name);
+        }
         subst_map.insert({function_template.signature.args[i], args[i]});
     }
     return terms::simultaneous_variable_substitution(term_manager, subst_map, function_template.body);
diff --git a/src/parser/Parser_context.h b/src/parser/Parser_context.h
index 4a11127..4970d92 100644
--- a/src/parser/Parser_context.h
+++ b/src/parser/Parser_context.h
@@ -205,6 +205,9 @@ private:
 
     Solver_wrapper solver;
 
+    // throw an exception if there already is a user-defined symbol called `name`
+    void check_not_declared(std::string const& name);
+
     term_t resolve_defined_function(std::string const& name, std::span<term_t> args);
 };
 
diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index c5c6c63..0be0830 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -198,6 +198,10 @@ bool Smt2_command_context::parse_command()
         try
         {
             term_t term = term_parser.parse_term();
+            if (term_manager.get_type(term) != terms::types::bool_type)
+            {
+                throw std::logic_error("Asserted term is not Boolean");
+            }
             assertions.push_back(term);
         } catch (std::logic_error const& e) {
             output << "(error \"" << e.what() << "\")" << std::endl;
diff --git a/src/parser/Smt2_term_parser.cpp b/src/parser/Smt2_term_parser.cpp
index e8ca346..90f32bb 100644
--- a/src/parser/Smt2_term_parser.cpp
+++ b/src/parser/Smt2_term_parser.cpp
@@ -104,12 +104,11 @@ term_t Smt2_term_parser::parse_term() {
         break;
         case Token::RPAREN_TOK:
         {
-            if (ctx_stack.empty())
+            // should only be here if we are expecting arguments
+            if (ctx_stack.empty() || get<ParseCtx>(ctx_stack.back()) != ParseCtx::NEXT_ARG)
             {
                 lexer.unexpected_token_error(token);
             }
-            // should only be here if we are expecting arguments
-            assert(get<ParseCtx>(ctx_stack.back()) == ParseCtx::NEXT_ARG);
             // Construct the application term specified by ctx_stack.back()
             auto& op = get<OpInfo>(ctx_stack.back());
             ret = make_term(op, std::move(get<arg_list_t>(ctx_stack.back())));
-- 
2.43.0


From e20d5091a175783c868ef8f2b4c8db16876b5e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 15/32] fix: remove let bindings of an ill-formed assertion

---
 src/parser/Parser_context.cpp | 5 +++++
 src/parser/Parser_context.h   | 9 +++++++++
 src/parser/Smt2_parser.cpp    | 1 +
 3 files changed, 15 insertions(+)

diff --git a/src/parser/Parser_context.cpp b/src/parser/Parser_context.cpp
index b68272d..9aa7bb4 100644
--- a/src/parser/Parser_context.cpp
+++ b/src/parser/Parser_context.cpp
@@ -180,6 +180,11 @@ void Parser_context::pop_binding_scope()
     let_records.pop_frame();
 }
 
+void Parser_context::clear_binding_scopes()
+{
+    let_records.clear();
+}
+
 term_t resolve(Function_template const& function_template, std::span<term_t> args, terms::Term_manager& term_manager);
 
 term_t Parser_context::resolve_defined_function(std::string const& name, std::span<term_t> args)
diff --git a/src/parser/Parser_context.h b/src/parser/Parser_context.h
index 4970d92..442bf69 100644
--- a/src/parser/Parser_context.h
+++ b/src/parser/Parser_context.h
@@ -63,6 +63,13 @@ public:
     }
     void push_frame() { frame_limits.push_back(known_binders.size()); }
 
+    void clear()
+    {
+        let_binders.clear();
+        known_binders.clear();
+        frame_limits.clear();
+    }
+
     void pop_frame()
     {
         auto limit = frame_limits.back();
@@ -189,6 +196,8 @@ public:
      */
     void push_binding_scope();
     void pop_binding_scope();
+    // remove bindings of an unfinished term
+    void clear_binding_scopes();
 
     std::vector<term_t> bind_vars(std::span<Sorted_var> sorted_vars);
 
diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index 0be0830..39a77c9 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -204,6 +204,7 @@ bool Smt2_command_context::parse_command()
             }
             assertions.push_back(term);
         } catch (std::logic_error const& e) {
+            parser_context.clear_binding_scopes();
             output << "(error \"" << e.what() << "\")" << std::endl;
         }
     }
-- 
2.43.0


From 619a5c8f6c13e98571aaee156bc013a23d4a055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 16/32] fix: quote symbols in the printed model

---
 src/parser/Smt2_parser.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index 39a77c9..05630c7 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -1,5 +1,7 @@
 #include "Smt2_parser.h"
 
+#include <algorithm>
+#include <array>
 #include <stdexcept>
 #include <fstream>
 #include <vector>
@@ -30,6 +32,26 @@ class Print_model final : public Default_model_visitor {
             output << std::get<Rational>(var);
     }
 
+    // quote symbols which cannot be written without quotes
+    static std::string symbol(std::string_view name) {
+        constexpr std::string_view special = "~!@$%^&*_-+=<>.?/";
+        constexpr std::array reserved = {
+            "!", "_", "as", "let", "match", "par", "assert", "check-sat", "declare-const", "declare-fun",
+            "declare-sort", "define-const", "define-fun", "define-sort", "echo", "exit", "get-assertions",
+            "get-assignment", "get-info", "get-model", "get-option", "get-unsat-core", "get-value", "pop",
+            "push", "reset", "set-info", "set-logic", "set-option", "exists", "forall"
+        };
+
+        auto is_digit = [](char c) { return '0' <= c && c <= '9'; };
+        auto is_letter = [](char c) { return ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'); };
+        bool is_simple = !name.empty() && !is_digit(name.front()) &&
+            std::ranges::all_of(name, [&](char c) {
+                return is_digit(c) || is_letter(c) || special.find(c) != std::string_view::npos;
+            }) &&
+            std::ranges::find(reserved, name) == reserved.end();
+        return is_simple ? std::string{name} : "|" + std::string{name} + "|";
+    }
+
     void print_type(type_t type) {
         switch (type) {
         default:
@@ -73,7 +95,7 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " () ";
+            output << "(define-fun " << symbol(*name) << " () ";
             print_type((int) value.index());
             output << " ";
             print_variable(value);
@@ -92,7 +114,7 @@ public:
     {
         if (auto name = term_manager.get_term_name(term))
         {
-            output << "(define-fun " << *name << " (";
+            output << "(define-fun " << symbol(*name) << " (";
 
             std::vector<std::string> arg_names;
             auto arg_vector = values.begin()->first;
-- 
2.43.0


From 22451f1615d5870b22f25fd7076e3f8eee497fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 17/32] fix: asserted empty clause

---
 src/Solver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index bb7efde..c97c330 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -189,6 +189,12 @@ Solver::Result Solver::check()
 {
     init();
 
+    // an empty clause has no literal to watch
+    if (std::any_of(db().asserted().begin(), db().asserted().end(), [](auto const& clause) { return clause.empty(); }))
+    {
+        return Result::unsat;
+    }
+
     for (;;)
     {
         auto conflicts = propagate();
-- 
2.43.0


From 933674dc994e4bf87804e248a48ecbabe92c76ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 18/32] fix: linear constraints without variables

---
 src/Yaga.h                  | 10 ++++++++--
 src/lra/Linear_arithmetic.h |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Yaga.h b/src/Yaga.h
index 29b556b..77ca04d 100644
--- a/src/Yaga.h
+++ b/src/Yaga.h
@@ -188,8 +188,14 @@ public:
             }
         }
 
-        return lra->constraint(smt.trail(), std::forward<Var_range>(vars), 
-                               std::forward<Coef_range>(coef), pred, rhs).lit();
+        auto cons = lra->constraint(smt.trail(), std::forward<Var_range>(vars), 
+                                    std::forward<Coef_range>(coef), pred, rhs);
+        if (cons.empty())
+        {
+            // a constraint without variables is normalized to `0 == 0` or its negation
+            assert_clause(Literal{cons.lit().var().ord()});
+        }
+        return cons.lit();
     }
 
     std::ranges::ref_view<std::unordered_map<yaga::terms::term_t, int> > real_vars();
diff --git a/src/lra/Linear_arithmetic.h b/src/lra/Linear_arithmetic.h
index 7286aac..6138f1a 100644
--- a/src/lra/Linear_arithmetic.h
+++ b/src/lra/Linear_arithmetic.h
@@ -120,7 +120,10 @@ public:
                 }
             }
             add_variable(trail, models, cons.lit().var());
-            watch(cons, models.owned());
+            if (!cons.empty()) // a constraint without variables is never unit
+            {
+                watch(cons, models.owned());
+            }
         }
         return cons;
     }
-- 
2.43.0


From 98eb8bdd254d402522cb3860a829690d51ec72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:04 +0000
Subject: [PATCH 19/32] fix: continue after the end of an ill-formed assert
 command

After an error inside an assertion the parser resumed at the next token, so
parts of the ill-formed command were read as commands of their own (or the rest
of the script was given up).
---
 src/parser/Flex_lexer.cpp  | 16 +++++++++++++++-
 src/parser/Flex_lexer.h    |  7 +++++++
 src/parser/Smt2_parser.cpp |  3 +++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/parser/Flex_lexer.cpp b/src/parser/Flex_lexer.cpp
index 3d3c3e3..2dc5b0b 100644
--- a/src/parser/Flex_lexer.cpp
+++ b/src/parser/Flex_lexer.cpp
@@ -28,7 +28,21 @@ void Flex_lexer::eat_token(Token t)
 
 Token Flex_lexer::next_token()
 {
-    return lex_scan();
+    Token token = lex_scan();
+    if (token == Token::LPAREN_TOK)
+    {
+        ++open_parentheses;
+    }
+    else if (token == Token::RPAREN_TOK)
+    {
+        --open_parentheses;
+    }
+    return token;
+}
+
+void Flex_lexer::skip_expression()
+{
+    while (open_parentheses > 0 && next_token() != Token::EOF_TOK) { /* empty */ }
 }
 
 char const* Flex_lexer::token_string()
diff --git a/src/parser/Flex_lexer.h b/src/parser/Flex_lexer.h
index 912f340..0d40fb9 100644
--- a/src/parser/Flex_lexer.h
+++ b/src/parser/Flex_lexer.h
@@ -13,6 +13,8 @@
 namespace yaga::parser {
 
 class Flex_lexer : public yyFlexLexer {
+    // number of parentheses which are open after the last consumed token
+    int open_parentheses = 0;
 
 protected:
     virtual Token lex_scan() = 0;
@@ -42,6 +44,11 @@ public:
      */
     Token next_token();
 
+    /**
+     * Consumes all tokens up to the parenthesis which closes the current top-level expression
+     */
+    void skip_expression();
+
     /**
      * Gets the string representation of the last consumed token
      */
diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index 05630c7..48aa5e8 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -228,6 +228,9 @@ bool Smt2_command_context::parse_command()
         } catch (std::logic_error const& e) {
             parser_context.clear_binding_scopes();
             output << "(error \"" << e.what() << "\")" << std::endl;
+            // continue with the next command
+            lexer.skip_expression();
+            return true;
         }
     }
     break;
-- 
2.43.0


From d51f08f28daecbd8e292ba11b01425df11141c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 20/32] fix: report a second set-logic command

The second command replaced the solver but kept the last answer, so a
following get-model read the values of variables that no longer exist.
---
 src/parser/Parser_context.cpp | 4 ++++
 src/parser/Solver_wrapper.h   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/parser/Parser_context.cpp b/src/parser/Parser_context.cpp
index 9aa7bb4..d1858b7 100644
--- a/src/parser/Parser_context.cpp
+++ b/src/parser/Parser_context.cpp
@@ -73,6 +73,10 @@ Solver_answer Parser_context::check_sat(std::vector<term_t> const& assertions)
 }
 
 void Parser_context::set_logic(Initializer const& init) {
+    if (solver.has_logic())
+    {
+        throw std::logic_error("Logic is already set!");
+    }
     solver.set_logic(init);
 }
 
diff --git a/src/parser/Solver_wrapper.h b/src/parser/Solver_wrapper.h
index d117a85..b5d6609 100644
--- a/src/parser/Solver_wrapper.h
+++ b/src/parser/Solver_wrapper.h
@@ -146,6 +146,9 @@ public:
 
     void set_logic(Initializer const& init);
 
+    // check if a logic has been set
+    bool has_logic() const { return logic != nullptr; }
+
     bool has_uf();
 
     Solver_answer check(std::vector<terms::term_t> const& assertions);
-- 
2.43.0


From c1bf6027989a5b9509ee1265b4bd41e0b3944052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 21/32] fix: read attribute values which are s-expressions

Only the first token of the value was read, so (set-info :notes (a b)) was
rejected and the unbalanced (set-info :notes ( ) was accepted.
---
 src/parser/Smt2_term_parser.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/Smt2_term_parser.cpp b/src/parser/Smt2_term_parser.cpp
index 90f32bb..7f12575 100644
--- a/src/parser/Smt2_term_parser.cpp
+++ b/src/parser/Smt2_term_parser.cpp
@@ -291,10 +291,24 @@ std::string Smt2_term_parser::parse_keyword()
 
 std::string Smt2_term_parser::parse_sexpr()
 {
-    // TODO: Check the token?
     Token tok = lexer.next_token();
-    (void)tok;
-    return lexer.token_string();
+    if (tok == Token::RPAREN_TOK || tok == Token::EOF_TOK)
+    {
+        lexer.unexpected_token_error(tok);
+    }
+    std::string value = lexer.token_string();
+    for (int depth = tok == Token::LPAREN_TOK; depth > 0;)
+    {
+        tok = lexer.next_token();
+        if (tok == Token::EOF_TOK)
+        {
+            lexer.unexpected_token_error(tok);
+        }
+        depth += (tok == Token::LPAREN_TOK) - (tok == Token::RPAREN_TOK);
+        value += " ";
+        value += lexer.token_string();
+    }
+    return value;
 }
 
 std::vector<Sorted_var> Smt2_term_parser::parse_sorted_var_list()
-- 
2.43.0


From 57271819228c951e29a3f11ffa157b350be2c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 22/32] fix: prefer effectively decided variables after
 backtracking

A variable with one allowed value was removed from the queue of effectively
decided variables once it had been assigned. It was not added again when the
assignment was undone but its bounds were not.
---
 src/variable_order/Generalized_vsids.cpp | 14 +++++++++++++-
 src/variable_order/Generalized_vsids.h   |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index 1485d1a..49c3e60 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -45,10 +45,21 @@ void Generalized_vsids::on_before_backtrack(Database&, Trail& trail, int level)
     {
         for (auto [var, _] : trail.assigned(i))
         {
-            if (!variables.contains(var) && trail.decision_level(var).value() > level)
+            if (trail.decision_level(var).value() <= level)
+            {
+                continue;
+            }
+
+            if (!variables.contains(var))
             {
                 variables.push(var, score(var));
             }
+
+            // the variable can still have only one allowed value
+            if (reported.contains(var) && !effectively_decided.contains(var))
+            {
+                effectively_decided.push(var, score(var));
+            }
         }
     }
 }
@@ -82,6 +93,7 @@ std::optional<Variable> Generalized_vsids::pick_effectively_decided(Trail& trail
     for (int var_ord : lra->effectively_decided())
     {
         Variable var{var_ord, Variable::rational};
+        reported.insert(var);
         if (!effectively_decided.contains(var))
         {
             effectively_decided.push(var, score(var));
diff --git a/src/variable_order/Generalized_vsids.h b/src/variable_order/Generalized_vsids.h
index 5e3423a..856bbf0 100644
--- a/src/variable_order/Generalized_vsids.h
+++ b/src/variable_order/Generalized_vsids.h
@@ -5,6 +5,7 @@
 #include <map>
 #include <optional>
 #include <queue>
+#include <unordered_set>
 #include <vector>
 
 #include "Linear_arithmetic.h"
@@ -102,6 +103,8 @@ private:
     Variable_priority_queue variables;
     // priority queue of effectively decided variables sorted by the VSIDS score
     Variable_priority_queue effectively_decided;
+    // variables which have been reported as effectively decided
+    std::unordered_set<Variable, Variable_hash> reported;
     // score grow factor (inverse decay factor)
     Score grow = 1.05;
     // current amount by which a variable VSIDS is increased in `bump()`
-- 
2.43.0


From 69d6d7c430f4be04eb454cc34ca55ddb2bb250c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 23/32] fix: update the queue after activities are rescaled

---
 src/variable_order/Generalized_vsids.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/variable_order/Generalized_vsids.h b/src/variable_order/Generalized_vsids.h
index 856bbf0..8533f51 100644
--- a/src/variable_order/Generalized_vsids.h
+++ b/src/variable_order/Generalized_vsids.h
@@ -168,11 +168,8 @@ private:
         {
             rescale();
         }
-        else
-        {
-            variables.update(var, score(var));
-            effectively_decided.update(var, score(var));
-        }
+        variables.update(var, score(var));
+        effectively_decided.update(var, score(var));
     }
 };
 
-- 
2.43.0


From dd3f24eb11d16227af59d050912b154b59c2dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 24/32] fix: reset activities in the queue at the start of a
 check

---
 src/variable_order/Generalized_vsids.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index 49c3e60..c308ca8 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -19,11 +19,14 @@ void Generalized_vsids::on_variable_resize(Variable::Type type, int num_vars)
 
 void Generalized_vsids::on_init(Database& db, Trail&)
 {
-    for (auto& scores : vsids)
+    for (std::size_t type = 0; type < vsids.size(); ++type)
     {
-        for (auto& score : scores)
+        for (std::size_t var_ord = 0; var_ord < vsids[type].size(); ++var_ord)
         {
-            score = 0.0f;
+            Variable var{static_cast<int>(var_ord), static_cast<Variable::Type>(type)};
+            score(var) = 0.0f;
+            variables.update(var, 0.0f);
+            effectively_decided.update(var, 0.0f);
         }
     }
 
-- 
2.43.0


From 40a846a073738ea43f830cfd165c78ed607806ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 25/32] fix: accept any blank space in the DIMACS problem line

---
 src/sat_solver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sat_solver.cpp b/src/sat_solver.cpp
index a7235bf..c3183ee 100644
--- a/src/sat_solver.cpp
+++ b/src/sat_solver.cpp
@@ -55,7 +55,7 @@ int main(int argc, char** argv)
         {
             continue;
         }
-        else if (line.starts_with("p cnf"))
+        else if (line.starts_with('p'))
         {
             if (is_initialized)
             {
@@ -63,8 +63,9 @@ int main(int argc, char** argv)
                 return -1;
             }
             is_initialized = true;
-            stream.seekg(5);
-            if (!(stream >> num_vars >> num_clauses))
+            std::string problem, format;
+            if (!(stream >> problem >> format >> num_vars >> num_clauses) || problem != "p" ||
+                format != "cnf" || num_vars < 0 || num_clauses < 0)
             {
                 std::cerr << "Error: failed to parse the DIMACS problem line." 
                     << " Expected: 'p cnf [num_vars] [num_clauses]'\n";
-- 
2.43.0


From 5e2d5ce3215b58b057084a7e6535b0d24fe9c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 26/32] fix: check the whole DIMACS file before answering an
 empty clause

---
 src/sat_solver.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sat_solver.cpp b/src/sat_solver.cpp
index c3183ee..509f55c 100644
--- a/src/sat_solver.cpp
+++ b/src/sat_solver.cpp
@@ -40,6 +40,7 @@ int main(int argc, char** argv)
     std::string path{argv[1]};
     std::ifstream input{path};
     bool is_initialized = false;
+    bool has_empty_clause = false;
     int num_vars = 0;
     int num_clauses = 0;
     Clause buffer;
@@ -93,11 +94,9 @@ int main(int argc, char** argv)
                 {
                     if (num_clauses > 0 && buffer.empty())
                     {
-                        std::cout << "UNSAT\n";
-                        return 0;
+                        has_empty_clause = true;
                     }
-
-                    if (num_clauses > 0)
+                    else if (num_clauses > 0)
                     {
                         solver.db().assert_clause(std::move(buffer));
                     }
@@ -125,6 +124,12 @@ int main(int argc, char** argv)
         return -1;
     }
 
+    if (has_empty_clause)
+    {
+        std::cout << "UNSAT\n";
+        return 0;
+    }
+
     auto begin = std::chrono::steady_clock::now();
     auto result = solver.check();
     auto end = std::chrono::steady_clock::now();
-- 
2.43.0


From 1709f41d7f79cf014f0ac0abb28a4f294e328adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 27/32] fix: reject literals out of the range of int in DIMACS
 files

---
 src/sat_solver.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/sat_solver.cpp b/src/sat_solver.cpp
index 509f55c..57a1c96 100644
--- a/src/sat_solver.cpp
+++ b/src/sat_solver.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <chrono>
 #include <cctype>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -76,20 +77,29 @@ int main(int argc, char** argv)
         }
         else
         {
-            int var;
-            while (stream >> var)
+            std::string token;
+            while (stream >> token)
             {
+                char* end = nullptr;
+                // numbers out of range are mapped to the closest representable value
+                long number = std::strtol(token.c_str(), &end, 10);
+                if (*end != '\0')
+                {
+                    break;
+                }
+
                 if (!is_initialized)
                 {
                     std::cerr << "Error: clause before DIMACS problem line.\n";
                     return -1;
                 }
-                else if (var > num_vars || var < -num_vars)
+                else if (number > num_vars || number < -num_vars)
                 {
-                    std::cerr << "Error: unkown literal " << var << "\n";
+                    std::cerr << "Error: unkown literal " << token << "\n";
                     return -1;
                 }
 
+                int var = static_cast<int>(number);
                 if (var == 0)
                 {
                     if (num_clauses > 0 && buffer.empty())
-- 
2.43.0


From b75cbf9998145391ee0b87b8bdcb1ff79e28261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 28/32] fix: reject unknown values of --phase

---
 src/smt_solver.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/smt_solver.cpp b/src/smt_solver.cpp
index 233c167..8dcba35 100644
--- a/src/smt_solver.cpp
+++ b/src/smt_solver.cpp
@@ -41,21 +41,24 @@ int main(int argc, char** argv)
         }
         else if (arg == "--phase")
         {
-            if (i + 1 < argc)
+            std::string value{i + 1 < argc ? argv[++i] : ""};
+            if (value == "positive")
             {
-                std::string value{argv[++i]};
-                if (value == "positive")
-                {
-                    options.phase = Phase::positive;
-                }
-                else if (value == "negative")
-                {
-                    options.phase = Phase::negative;
-                }
-                else if (value == "cache")
-                {
-                    options.phase = Phase::cache;
-                }
+                options.phase = Phase::positive;
+            }
+            else if (value == "negative")
+            {
+                options.phase = Phase::negative;
+            }
+            else if (value == "cache")
+            {
+                options.phase = Phase::cache;
+            }
+            else
+            {
+                std::cerr << "Unrecognized phase: '" << value << "'\n";
+                print_help();
+                return -1;
             }
         }
         else if (arg.starts_with("-"))
-- 
2.43.0


From 4a63ca020190637e3e878073a97302abe9d7acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 29/32] fix: reset the numbers of conflict and learned clauses
 before each check

---
 src/Solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index c97c330..66b6382 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -170,6 +170,8 @@ void Solver::init()
 
     // reset solver state
     total_conflicts = 0;
+    total_conflict_clauses = 0;
+    total_learned_clauses = 0;
     total_decisions = 0;
     total_restarts = 0;
     dispatcher.on_init(db(), trail());
-- 
2.43.0


From d30f7e9c3fb7520b58c4a01736dfc800447bd1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 30/32] fix: accept quoted symbols as names of sorts

---
 src/parser/Smt2_term_parser.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/parser/Smt2_term_parser.cpp b/src/parser/Smt2_term_parser.cpp
index 7f12575..bfee8ab 100644
--- a/src/parser/Smt2_term_parser.cpp
+++ b/src/parser/Smt2_term_parser.cpp
@@ -256,11 +256,7 @@ term_t Smt2_term_parser::get_term_for_symbol(std::string const& symbol)
 }
 type_t Smt2_term_parser::parse_sort()
 {
-    Token tok = lexer.next_token();
-    if (tok != Token::SYMBOL) {
-        lexer.unexpected_token_error(tok);
-    }
-    auto sort_name = token_to_symbol(tok);
+    auto sort_name = parse_symbol();
     return parser_context.get_type_for_symbol(sort_name);
 }
 
@@ -269,9 +265,6 @@ std::vector<type_t> Smt2_term_parser::parse_sort_list()
     auto result = std::vector<type_t>();
     Token tok = lexer.next_token();
     while (tok != Token::RPAREN_TOK) {
-        if (tok != Token::SYMBOL) {
-            lexer.unexpected_token_error(tok);
-        }
         auto sort_name = token_to_symbol(tok);
         type_t sort = parser_context.get_type_for_symbol(sort_name);
         result.push_back(sort);
-- 
2.43.0


From 76c6750aebb16c8d6c7dddc3be49d8d8d3dadda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 31/32] fix: double the quotes in the text of an error response

---
 src/parser/Smt2_parser.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/parser/Smt2_parser.cpp b/src/parser/Smt2_parser.cpp
index 48aa5e8..289de8e 100644
--- a/src/parser/Smt2_parser.cpp
+++ b/src/parser/Smt2_parser.cpp
@@ -18,6 +18,21 @@ namespace yaga::parser {
 
 using term_t = terms::term_t;
 
+// write text as a string literal: quotes are doubled
+static std::string string_literal(std::string_view text)
+{
+    std::string literal = "\"";
+    for (char c : text)
+    {
+        literal += c;
+        if (c == '"')
+        {
+            literal += c;
+        }
+    }
+    return literal + "\"";
+}
+
 /** Print value of named terms.
  */
 class Print_model final : public Default_model_visitor {
@@ -227,7 +242,7 @@ bool Smt2_command_context::parse_command()
             assertions.push_back(term);
         } catch (std::logic_error const& e) {
             parser_context.clear_binding_scopes();
-            output << "(error \"" << e.what() << "\")" << std::endl;
+            output << "(error " << string_literal(e.what()) << ")" << std::endl;
             // continue with the next command
             lexer.skip_expression();
             return true;
-- 
2.43.0


From 3fec3bd85cf50c13543e9943fbdf99f1eed9e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 32/32] fix: Yaga::init() removes the assignment of the
 previous check

The facade documents that init() removes all clauses and variables. The
trail kept the decision levels of the previous check, so the next check
started with variables assigned that no clause or decision had set.
---
 src/Yaga.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Yaga.cpp b/src/Yaga.cpp
index bb7edbe..177f5ff 100644
--- a/src/Yaga.cpp
+++ b/src/Yaga.cpp
@@ -64,6 +64,7 @@ void Yaga::init()
 {
     smt.db().learned().clear();
     smt.db().asserted().clear();
+    smt.trail().clear();
 }
 
 void Yaga::set_logic(Initializer const& init, Options const& options) {
-- 
2.43.0

