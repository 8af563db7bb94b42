From 5ea68a0a07dda2d0390b8457dbdb4966a8556e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 01/11] fix: check constraints without variables against zero
 with the right relation

---
 libclingo-lpx/src/solving.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 77c5f07..e8caf0d 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -297,25 +297,25 @@ auto Solver<Value>::prepare(Clingo::PropagateInit &init, SymbolMap const &symbol
             }
             switch (x.rel) {
                 case Relation::Less: {
-                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::LessEqual: {
-                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::Greater: {
-                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::GreaterEqual: {
-                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
-- 
2.43.0


From 3f1ae7a6224769ed52de487b4b9d026d71b3c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 02/11] fix: restore lower and upper bounds replaced by
 equalities independently

---
 libclingo-lpx/src/solving.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index e8caf0d..df56a5b 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -191,12 +191,7 @@ template <typename Value>
 auto Solver<Value>::Variable::update_lower(Solver &s, Clingo::Assignment ass, Bound const &bound) -> bool {
     if (!has_lower() || bound.value > lower()) {
         if (!has_lower() || ass.level(lower_bound->lit) < ass.decision_level()) {
-            if (upper_bound != &bound) {
-                s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
-            } else {
-                // Note: this assumes that update_lower is called right after update_upper for the same bound
-                std::get<1>(s.bound_trail_.back()) = BoundRelation::Equal;
-            }
+            s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
         }
         lower_bound = &bound;
     }
@@ -836,8 +831,8 @@ template <typename Value> void Solver<Value>::undo() {
                     break;
                 }
                 case BoundRelation::Equal: {
-                    variables_[var].upper_bound = bound;
-                    variables_[var].lower_bound = bound;
+                    // the trail only stores lower and upper bounds
+                    assert(false);
                     break;
                 }
             }
-- 
2.43.0


From a1c8744aa4a9bb3f2ad556b5ef77e0b859650112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 03/11] fix: compare integers by value and not by their
 internal representation

---
 libclingo-lpx/src/number_flint.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 77ba3f2..39443c8 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -412,7 +412,7 @@ inline auto operator<<(std::ostream &out, Integer const &a) -> std::ostream & {
 
 [[nodiscard]] inline auto compare(Integer const &a, fixed_int b) -> int { return fmpz_cmp_si(&a.num_, b); }
 
-[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp_si(&a.num_, b.num_); }
+[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp(&a.num_, &b.num_); }
 
 // gcd
 
-- 
2.43.0


From 099ad2aacd24e9fb26fcccbe042c1bcd07e31673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 04/11] fix: pass options to the right parsers when configuring
 theory

---
 libclingo-lpx/src/clingo-lpx.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 1393831..f03f677 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -383,19 +383,19 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("strict", parse_bool(value, &theory->strict));
         }
         if (strcmp(key, "objective") == 0) {
-            return check_parse("objective", parse_bool(value, &theory->options.global_objective));
+            return check_parse("objective", parse_objective(value, &theory->options));
         }
         if (strcmp(key, "propagate-conflicts") == 0) {
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
         }
         if (strcmp(key, "propagate-bounds") == 0) {
-            return check_parse("propagate-bounds", parse_propagate(value, &theory->options.propagate_mode));
+            return check_parse("propagate-bounds", parse_propagate(value, &theory->options));
         }
         if (strcmp(key, "select") == 0) {
             return check_parse("select", parse_select(value, &theory->options));
         }
         if (strcmp(key, "store") == 0) {
-            return check_parse("select", parse_store(value, &theory->options));
+            return check_parse("store", parse_store(value, &theory->options));
         }
         std::ostringstream msg;
         msg << "invalid configuration key '" << key << "'";
-- 
2.43.0


From 63a290362581c86c1701d82ec7de31f0395cebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 05/11] fix: reject division by zero when evaluating terms

---
 libclingo-lpx/src/parsing.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 5694683..2f75c8d 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -203,7 +203,10 @@ auto evaluate(bool num_str, Clingo::TheoryTerm const &term) -> std::variant<Rati
     }
     if (match(term, "/", 2)) {
         return evaluate(num_str, term.arguments().front(), term.arguments().back(),
-                        [](Rational &&a, Rational &&b) { return std::move(a) / std::move(b); });
+                        [](Rational &&a, Rational &&b) {
+                            check_syntax(b != 0);
+                            return std::move(a) / std::move(b);
+                        });
     }
 
     if (match(term, "-", 1)) {
-- 
2.43.0


From 8f480949e5ca770ba9e22593c922149003f048ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 06/11] fix: do not treat constants in conditional elements as
 variables

---
 libclingo-lpx/src/parsing.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 2f75c8d..d864667 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -349,7 +349,11 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
                 if (res.second) {
                     auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
-                    iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    if (is_invalid(it->var)) {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
+                    } else {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    }
                 }
                 it->var = res.first->second;
             }
-- 
2.43.0


From d2bf4bef393184ddc0cb4c71f0cab59218812db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 07/11] fix: canonicalize parsed rationals and reject zero
 denominators

---
 libclingo-lpx/src/number_flint.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 39443c8..6894334 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -440,9 +440,10 @@ inline Rational::Rational(fixed_int val) : Rational() { fmpq_set_si(&num_, val,
 
 inline Rational::Rational(char const *val, int radix) : Rational() {
 #if __FLINT_RELEASE >= 20600
-    if (fmpq_set_str(&num_, val, radix) != 0) {
+    if (fmpq_set_str(&num_, val, radix) != 0 || fmpz_is_zero(fmpq_denref(&num_))) {
         throw std::runtime_error("could not parse number");
     }
+    fmpq_canonicalise(&num_);
 #else
     std::string buf = val;
     auto pos = buf.find('/');
-- 
2.43.0


From af5ed894abee224da053aae937e1eb4d1e0e63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 08/11] fix: sum up step statistics over all threads

---
 libclingo-lpx/src/solving.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index df56a5b..c568e9f 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1090,12 +1090,16 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_simplex = accu.add_subkey("Simplex", Clingo::StatisticsType::Map);
     auto accu_pivots = accu_simplex.add_subkey("Pivots", Clingo::StatisticsType::Value);
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
+    size_t pivots{0};
+    size_t propagated_bounds{0};
     for (auto const &[offset, slv] : slvs_) {
-        step_pivots.set_value(slv.statistics().pivots);
+        pivots += slv.statistics().pivots;
         accu_pivots.set_value(accu_pivots.value() + slv.statistics().pivots);
-        step_propagated_bounds.set_value(slv.statistics().propagated_bounds);
+        propagated_bounds += slv.statistics().propagated_bounds;
         accu_propagated_bounds.set_value(accu_propagated_bounds.value() + slv.statistics().propagated_bounds);
     }
+    step_pivots.set_value(pivots);
+    step_propagated_bounds.set_value(propagated_bounds);
 }
 
 template <typename Value>
-- 
2.43.0


From dcfb009ae4f8242d2bfdc5a5e161d5c8b990ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 09/11] fix: do not throw exceptions in option parsing callback

---
 libclingo-lpx/src/clingo-lpx.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index f03f677..a412fc2 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -307,8 +307,13 @@ auto parse_objective(const char *value, void *data) -> bool {
         options.global_objective = RationalQ{Rational{0}, Rational{1}};
         return true;
     }
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-    options.global_objective = RationalQ{Rational{value, 10}};
+    try {
+        // NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+        options.global_objective = RationalQ{Rational{value, 10}};
+    } catch (std::runtime_error const &) {
+        // exceptions must not escape the option parsing callback
+        return false;
+    }
     return true;
 }
 
-- 
2.43.0


From 68f1cc0cdefc2b69635b4b27bcdc77cc998f175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 10/11] fix: do not modify facts while other threads might read
 them

---
 libclingo-lpx/src/solving.cc | 5 ++++-
 libclingo-lpx/src/solving.hh | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index c568e9f..09070c4 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1039,6 +1039,8 @@ auto Solver<Value>::adjust(Clingo::Assignment const &assign, Clingo::literal_t l
 }
 
 template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &init) {
+    facts_.insert(facts_.end(), new_facts_.begin(), new_facts_.end());
+    new_facts_.clear();
     facts_offset_ = facts_.size();
     if (facts_offset_ > 0 || options_.global_objective.has_value()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Both);
@@ -1155,7 +1157,8 @@ void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::Literal
     auto ass = ctl.assignment();
     if (ass.decision_level() == 0 && ctl.thread_id() == 0) {
         // Note to self: auxiliary variables introduced during solving cannot become facts
-        facts_.insert(facts_.end(), changes.begin(), changes.end());
+        // Note that other threads might concurrently access the facts in check.
+        new_facts_.insert(new_facts_.end(), changes.begin(), changes.end());
     }
     auto &[offset, slv] = slvs_[ctl.thread_id()];
     static_cast<void>(slv.solve(ctl, changes));
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index e9c1443..7524350 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -306,6 +306,7 @@ template <typename Value> class Propagator : public Clingo::Heuristic {
     std::vector<Inequality> iqs_;
     size_t facts_offset_{0};
     std::vector<Clingo::literal_t> facts_;
+    std::vector<Clingo::literal_t> new_facts_;
     std::vector<std::pair<size_t, Solver<Value>>> slvs_;
     ObjectiveState<Value> objective_state_;
     Options options_;
-- 
2.43.0


From 8ae3f3f92cc68dbfdad1cd896000341407ba3d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 11/11] fix: identify conditional terms by literal and not by
 step-specific condition id

---
 libclingo-lpx/src/parsing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index d864667..c2ca606 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -343,11 +343,12 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
         size_t n = lhs.size();
         parse_sum_elem(term, lhs);
         if (!elem.condition().empty()) {
+            // condition ids are only valid in the current step
+            auto lit = mapper(elem.condition_id());
             for (auto it = lhs.begin() + n, ie = lhs.end(); it != ie; ++it) {
-                auto res = var_map.try_emplace(std::make_pair(it->var, elem.condition_id()),
+                auto res = var_map.try_emplace(std::make_pair(it->var, lit),
                                                Clingo::Number(safe_cast<int>(var_map.size() + 1)));
                 if (res.second) {
-                    auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
                     if (is_invalid(it->var)) {
                         iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
-- 
2.43.0

