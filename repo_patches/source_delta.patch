From f7013b6aa41cbda1ed38d5131944f60e4cc066bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 01/19] fix: rtrim of a text with only spaces returns an empty
 view instead of reading past its end

---
 src/utils/parse_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 85eb441..6d309f6 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -41,6 +41,8 @@ inline StringView rtrim(StringView str) {
     if (str.empty())
         return str;
     size_t suffix = str.find_last_true(NotSpace{});
+    if (suffix == str.size())  // only spaces
+        return str.remove_suffix(0);
     return str.remove_suffix(suffix + 1);
 }
 
-- 
2.43.0


From b1e434069bd08b334cf9bd8f1aa5e305ee281a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 02/19] fix: string_to reports negative values as out of range
 for unsigned and 64 bit integers

---
 src/utils/parse_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 6d309f6..d005866 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -96,10 +96,10 @@ struct string_to {
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
-        } else {  // unsigned
+            oo_range = errno == ERANGE;
+        } else {  // unsigned (note: strtoull accepts and wraps negative numbers)
             val      = std::strtoull(str.data(), &end, 10);
-            oo_range = val == limits<val_t>::max() && errno == ERANGE;
+            oo_range = errno == ERANGE || (val != 0 && ltrim(str)[0] == '-');
         }
 
         if (oo_range || val < limits<val_t>::min() || limits<val_t>::max() < val)
-- 
2.43.0


From dc2eeffad168b8ab7de2eeace508e29017a296c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 03/19] fix: greedy drops the columns removed by the redundancy
 heuristic when no redundant column is left

_try_early_exit returned before filtering the solution when the heuristic
removal emptied the redundant set, so the returned columns still contained
the removed ones while the returned cost did not.
---
 src/greedy/Greedy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index 0143a82..7e62ab8 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -120,10 +120,11 @@ private:
     }
 
     static bool _try_early_exit(RedundancyData& redund_info, std::vector<cidx_t>& sol) {
-        if (redund_info.partial_cost >= redund_info.best_cost || redund_info.redund_set.empty())
+        if (redund_info.partial_cost >= redund_info.best_cost)
             return true;  // Partial solution already worse than best cost
 
-        if (redund_info.partial_cov_count < rsize(redund_info.partial_cover))
+        if (redund_info.partial_cov_count < rsize(redund_info.partial_cover) &&
+            !redund_info.redund_set.empty())
             return false;  // Partial cover not completed yet, continue
 
         // Otherwise complete the solution removing redundant columns
-- 
2.43.0


From cd7d74e8a9858a487b14c6abc46cb33f65e0a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 04/19] fix: random draws stay in their range for the widest
 ranges, at the upper end and with probability 0

---
 src/utils/random.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/utils/random.hpp b/src/utils/random.hpp
index dde8aaf..f89e4fb 100644
--- a/src/utils/random.hpp
+++ b/src/utils/random.hpp
@@ -5,6 +5,9 @@
 #define CFT_SRC_CORE_RANDOM_HPP
 
 
+#include <cmath>
+#include <cstdint>
+
 #include "utils/assert.hpp"  // IWYU pragma:  keep
 #include "utils/custom_types.hpp"
 #include "utils/utility.hpp"
@@ -80,7 +83,10 @@ inline FlT canonical_gen(RndT& rnd) {
 // Generate a random real number in the [min, max) range
 template <typename FlT, typename RndT>
 inline FlT rnd_real(RndT& rnd, FlT min, FlT max) {
-    return min + (max - min) * canonical_gen<FlT>(rnd);
+    FlT result = min + (max - min) * canonical_gen<FlT>(rnd);
+    if (result >= max)  // rounding can bring the result up to the (excluded) upper end
+        result = FlT{std::nextafter(native_cast(max), native_cast(min))};
+    return result;
 }
 
 // Generate a random integer in the [min, max] range
@@ -90,7 +96,14 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
     static_assert(std::is_unsigned<gen_type>::value, "PRNG result is not unsigned.");
     assert(max >= min);
 
-    IntT result = min + checked_cast<IntT>(rnd() % checked_cast<gen_type>(max - min + IntT{1}));
+    // Unsigned arithmetic, so that ranges as wide as the types involved cannot overflow.
+    uint64_t const min_u64 = static_cast<uint64_t>(native_cast(min));
+    uint64_t const span    = static_cast<uint64_t>(native_cast(max)) - min_u64 + 1U;
+    uint64_t       offset  = rnd();
+    if (span != 0U)  // 0 if the range contains every 64 bit value
+        offset %= span;
+
+    IntT result = IntT{static_cast<native_t<IntT>>(min_u64 + offset)};
     assert(min <= result && result <= max);
     return result;
 }
@@ -99,7 +112,7 @@ inline IntT roll_dice(RndT& rnd, IntT min, IntT max) {
 template <typename RndT>
 inline bool coin_flip(RndT& rnd, double true_prob = 0.5) {
     assert(0 <= true_prob && true_prob <= 1);
-    return canonical_gen<double>(rnd) <= true_prob;
+    return canonical_gen<double>(rnd) < true_prob;
 }
 
 }  // namespace cft
-- 
2.43.0


From 4bf05ba744d487abaf5d3c303a3b2727bbcca880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 05/19] fix: refinement forgets the previous fixing when no
 column gets fixed

---
 src/algorithms/Refinement.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 7997b70..0c23ad5 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -128,10 +128,9 @@ inline CftResult run(Environment const& env,                // in
 
         inst             = orig_inst;
         auto cols_to_fix = select_cols_to_fix(env, inst, nofix_dual.mults, best_sol);
-        if (!cols_to_fix.empty()) {
-            make_identity_fixing_data(ncols, nrows, fixing);
+        make_identity_fixing_data(ncols, nrows, fixing);  // Forget the fixing of the last iteration
+        if (!cols_to_fix.empty())
             fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
-        }
         real_t nrows_real = as_real(rsize(orig_inst.rows));
         real_t free_perc  = as_real(rsize(inst.rows)) * 100.0_F / nrows_real;
         print<2>(env,
-- 
2.43.0


From 030d4caa32c0c0b8543eddf07e4c9ac166bd3eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 06/19] fix: three-phase ignores the empty solution when
 rounding makes the cutoff look like an improvement

---
 src/algorithms/ThreePhase.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 6f31983..08207d8 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -61,7 +61,9 @@ public:
             sol.cost = cutoff;  // Sol get filled only if one with cost < cutoff is found
             subgrad.heuristic(env, core.inst, step_size, greedy, sol, lagr_mult);
 
-            if (sol.cost + fixing.fixed_cost < best_sol.cost) {
+            // NOTE: without improvements sol is empty and, because of rounding, adding the fixed
+            // cost back to the cutoff might give less than the best cost.
+            if (sol.cost < cutoff && sol.cost + fixing.fixed_cost < best_sol.cost) {
                 _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
                 CFT_IF_DEBUG(check_inst_solution(inst_copy, best_sol));
             }
-- 
2.43.0


From 47ac9e654554efc3610731abfdcfcc913c27587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 07/19] fix: heuristic phase ignores greedy solutions at or
 above the cutoff when epsilon makes no difference

---
 src/subgradient/Subgradient.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 395dd0d..3a56749 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -144,7 +144,9 @@ public:
             greedy_sol.idxs.clear();
             greedy_sol.cost = greedy(core_inst, lagr_mult, reduced_costs, greedy_sol.idxs, cutoff);
             print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, best_sol.cost);
-            if (greedy_sol.cost <= best_sol.cost - env.epsilon) {
+            // NOTE: greedy solutions are valid only below the cutoff, and epsilon might be 0 or too
+            // small to make a difference with large costs.
+            if (greedy_sol.cost < cutoff && greedy_sol.cost <= best_sol.cost - env.epsilon) {
                 best_sol = greedy_sol;
                 print<4>(env, "HEUR> {:4}: Improved solution {:.2f}\n", iter, best_sol.cost);
                 CFT_IF_DEBUG(check_inst_solution(core_inst, best_sol));
-- 
2.43.0


From 34156104d7b3db40ed24094063f6041a7a8509b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 08/19] fix: lines past the end of a file are empty instead of
 repeating the last one

---
 src/utils/parse_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index d005866..32ada4e 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -133,7 +133,8 @@ struct FileLineIterator {
     }
 
     StringView next() {
-        std::getline(in, line);
+        if (!std::getline(in, line))
+            line.clear();  // past the end getline may leave the last line there
         return trim(StringView(line));
     }
 };
-- 
2.43.0


From 0630a6553200276cad3c4b50a12fd479a6f2bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 09/19] fix: RAIL and CVRP parsers reject row and column
 indexes below the valid range

---
 src/core/parsing.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index de38c82..396ec64 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -126,7 +126,7 @@ inline Instance parse_rail_instance(std::string const& path) {
 
         for (ridx_t n = 0_R; n < j_nrows; n++) {
             inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
-            if (inst.cols.idxs.back() >= num.rows)
+            if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
         inst.cols.begs.push_back(csize(inst.cols.idxs));
@@ -157,7 +157,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
 
         while (!line_view.empty()) {
             fdata.inst.cols.idxs.push_back(string_to<ridx_t>::consume(line_view));
-            if (fdata.inst.cols.idxs.back() >= num.rows)
+            if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
         fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
@@ -166,6 +166,8 @@ inline FileData parse_cvrp_instance(std::string const& path) {
     line_view = file_iter.next();
     while (!line_view.empty()) {
         cidx_t j = string_to<cidx_t>::consume(line_view);
+        if (j < 0_C || j >= num.cols)
+            throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         fdata.init_sol.idxs.push_back(j);
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
-- 
2.43.0


From 37976bf12e21737b6dbc3221b32d8d8ad19300a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 10/19] fix: initial solutions with columns that the instance
 does not have are rejected

---
 src/core/parsing.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 396ec64..0a78096 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -286,6 +286,9 @@ inline FileData parse_inst_and_initsol(Environment const& env) {
 
     if (!env.initsol_path.empty()) {
         fdata.init_sol = parse_solution(env.initsol_path);
+        for (cidx_t j : fdata.init_sol.idxs)
+            if (j < 0_C || j >= csize(fdata.inst.cols))
+                throw std::invalid_argument("Invalid initial solution: column out of range.");
         CFT_IF_DEBUG(check_inst_solution(fdata.inst, fdata.init_sol));
     }
 
-- 
2.43.0


From 9a875222ca75246e2a70adebd0f0aa49e1615d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 11/19] fix: MPS parser reports truncated files, missing
 coefficients, unknown rows and too many rows

---
 src/core/parsing.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 0a78096..7adebf7 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -193,11 +193,16 @@ inline Instance parse_mps_instance(std::string const& path) {
     auto   rows_map = std::unordered_map<std::string, ridx_t>();
     auto   obj_name = std::string();
     while (line_view != "COLUMNS") {
+        if (!file_iter.in)
+            throw std::invalid_argument("Invalid file format: COLUMNS section not found.");
         auto tokens = split(line_view);
-        if (!tokens.empty() && tokens[0] == "N")
+        if (tokens.size() > 1 && tokens[0] == "N")
             obj_name = tokens[1].to_cpp_string();
-        if (!tokens.empty() && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
+        if (tokens.size() > 1 && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L")) {
+            if (nrows == limits<ridx_t>::max())
+                throw std::out_of_range("Too many rows.");
             rows_map[tokens[1].to_cpp_string()] = nrows++;
+        }
         line_view = file_iter.next();
     }
 
@@ -205,6 +210,8 @@ inline Instance parse_mps_instance(std::string const& path) {
     line_view          = file_iter.next();
     inst.cols.begs.clear();
     while (line_view != "RHS") {
+        if (!file_iter.in)
+            throw std::invalid_argument("Invalid file format: RHS section not found.");
         auto tokens = split(line_view);
         // Best effort to detect columns header line
         if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-')) {
@@ -218,14 +225,18 @@ inline Instance parse_mps_instance(std::string const& path) {
             inst.costs.push_back(limits<real_t>::max());
         }
 
+        if (tokens.size() % 2 == 0)
+            throw std::invalid_argument("Invalid file format: row without coefficient.");
+
         for (size_t t = 1; t < tokens.size(); t += 2) {
             if (tokens[t] == obj_name)
                 inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);
             else {
-                auto row_name = tokens[t];
-                assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
+                auto row = rows_map.find(tokens[t].to_cpp_string());
+                if (row == rows_map.end())
+                    throw std::invalid_argument("Invalid file format: unknown row name.");
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
-                inst.cols.idxs.push_back(rows_map[row_name.to_cpp_string()]);
+                inst.cols.idxs.push_back(row->second);
             }
         }
 
-- 
2.43.0


From 7e30819ffb122be2af8e2d1e2519958339575723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 12/19] fix: MPS parser keeps column lines starting with .5 or
 +1 and gives cost 0 to columns not in the objective

---
 src/core/parsing.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 7adebf7..a9751c7 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -214,7 +214,8 @@ inline Instance parse_mps_instance(std::string const& path) {
             throw std::invalid_argument("Invalid file format: RHS section not found.");
         auto tokens = split(line_view);
         // Best effort to detect columns header line
-        if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-')) {
+        if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-' &&
+                                  tokens[2][0] != '+' && tokens[2][0] != '.')) {
             line_view = file_iter.next();
             continue;
         }
@@ -222,7 +223,7 @@ inline Instance parse_mps_instance(std::string const& path) {
         if (tokens[0] != prev_col_name) {  // new column
             prev_col_name = tokens[0].to_cpp_string();
             inst.cols.begs.push_back(csize(inst.cols.idxs));
-            inst.costs.push_back(limits<real_t>::max());
+            inst.costs.push_back(0.0_F);  // MPS coefficients not listed are zero
         }
 
         if (tokens.size() % 2 == 0)
-- 
2.43.0


From 9529d54aa9451094b8f777e545e2a2b8b3c89b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 13/19] fix: string_to rounds to the requested type before the
 range check, so that the largest float reads back

---
 src/utils/parse_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 32ada4e..530aa0f 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -92,7 +92,7 @@ struct string_to {
         errno              = 0;
 
         if (std::is_floating_point<val_t>::value) {
-            val      = std::strtold(str.data(), &end);
+            val      = static_cast<val_t>(std::strtold(str.data(), &end));  // round, then check
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-- 
2.43.0


From 8f0117a053c0d08968d53dda5f6a5113b22ecf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 14/19] fix: Instance.add rejects a negative cost before
 storing the set

---
 src/pycft/_bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index eb92987..b9fbe34 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -121,9 +121,9 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("costs", &Instance::costs)
         .def("add",
              [](Instance& self, std::vector<ridx_t> const& col, real_t cost) {
-                 self.cols.push_back(col);
                  if (cost < 0.0)
                      throw std::runtime_error("Costs must be non-negative.");
+                 self.cols.push_back(col);
                  self.costs.push_back(cost);
                  return self.costs.size() - 1;
              })
-- 
2.43.0


From 8fec86e6c04e0a56246616134515133237247b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 15/19] fix: Instance.prepare rejects negative items instead of
 writing out of bounds

---
 src/pycft/_bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index b9fbe34..4908dd3 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -22,8 +22,11 @@ namespace local { namespace {
 
         // Determine the maximum index in cols
         for (cidx_t j = 0_C; j < csize(cols); ++j)
-            for (ridx_t i : cols[j])
+            for (ridx_t i : cols[j]) {
+                if (i < 0_R)
+                    throw std::runtime_error("Item indexes must be non-negative.");
                 n = std::max(n, static_cast<size_t>(i + 1));
+            }
 
         // Guard against the user entering huge indices because they
         // might have misunderstood the 0-based indexing.
-- 
2.43.0


From 98e1c5ff71de445b86314b3241089b7b7036c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 16/19] fix: setting the seed from Python seeds the random
 generator

---
 src/pycft/_bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index 4908dd3..ab62dcf 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -69,7 +69,10 @@ PYBIND11_MODULE(_bindings, m) {
         .def_readwrite("sol_path", &Environment::sol_path)
         .def_readwrite("initsol_path", &Environment::initsol_path)
         .def_readwrite("parser", &Environment::parser)
-        .def_readwrite("seed", &Environment::seed)
+        .def_property(
+            "seed",
+            [](Environment const& self) { return self.seed; },
+            [](Environment& self, uint64_t seed) { self.rnd = prng_t(self.seed = seed); })
         .def_readwrite("time_limit", &Environment::time_limit)
         .def_readwrite("verbose", &Environment::verbose)
         .def_readwrite("epsilon", &Environment::epsilon)
-- 
2.43.0


From 8f412585ba01e2063adc280a661dabfea43ac8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 17/19] fix: dual multipliers and lower bound are exposed to
 Python under the names the solver class uses

---
 src/pycft/_bindings.cpp       | 4 ++--
 src/pycft/set_cover_solver.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycft/_bindings.cpp b/src/pycft/_bindings.cpp
index ab62dcf..c77d95f 100644
--- a/src/pycft/_bindings.cpp
+++ b/src/pycft/_bindings.cpp
@@ -161,8 +161,8 @@ PYBIND11_MODULE(_bindings, m) {
 
     py::class_<DualState>(m, "DualState")
         .def(py::init<>())
-        .def_readwrite("idxs", &DualState::mults)
-        .def_readwrite("cost", &DualState::lb)
+        .def_readwrite("mults", &DualState::mults)
+        .def_readwrite("lb", &DualState::lb)
         .def("copy", [](DualState const& a) { return a; })
         .def("__repr__", [](DualState const& a) {
             return fmt::format("DualState(mults={}, lb={})", a.mults, a.lb);
diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index d47876e..c05cf23 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -158,7 +158,7 @@ class SetCoverSolver:
         """
         if self._result is None:
             return 0
-        return self._result.dual.cost
+        return self._result.dual.lb
 
     def get_dual_multipliers(self) -> list[float] | None:
         """
-- 
2.43.0


From dca37792d4f725a0ad89ec3e09bc992519d0eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 18/19] fix: SetCoverSolver.from_file keeps the initial
 solution of the file and forgets the previous instance

---
 src/pycft/set_cover_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index c05cf23..e83d8af 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -82,8 +82,11 @@ class SetCoverSolver:
         env.parser = parser
         fdata = parse_inst_and_initsol(env)
         self._instance = fdata.inst.copy()
-        self._result.solution = fdata.init_sol.copy()
-        print(self._result)
+        self._max_element = len(self._instance.rows) - 1
+        self._result = None
+        if fdata.init_sol.idxs:
+            self._result = CftResult()
+            self._result.sol = fdata.init_sol.copy()
         self.num_elements = len(self._instance.costs)
         self._initialized = True  # a file is always considered initialized
 
-- 
2.43.0


From 93a1ad71e8b5f7ae490f434361cc7daef5125871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 19/19] fix: SetCoverSolver.add_set leaves the solver unchanged
 when the set is rejected

---
 src/pycft/set_cover_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycft/set_cover_solver.py b/src/pycft/set_cover_solver.py
index e83d8af..05dd5dd 100644
--- a/src/pycft/set_cover_solver.py
+++ b/src/pycft/set_cover_solver.py
@@ -61,13 +61,13 @@ class SetCoverSolver:
         if not all(0 <= e for e in elements):
             raise ValueError("Elements must be zero-indexed.")
         max_element = max(elements)
+        self._instance.add(elements, cost)
         if max_element > self._max_element:
             self._max_element = max_element
             self._result = (
                 None  # in case there is a new element, the solution is no longer
             )
             # valid
-        self._instance.add(elements, cost)
         self._initialized = False
         return len(self._instance.costs) - 1
 
-- 
2.43.0

