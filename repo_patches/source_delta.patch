From 76aa4d97ba3ca4fb55f7c1c43b565968d7b94fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 01/32] fix: scalar minus/divided by a packed vector used the
 wrong operand order

---
 source/FFIntVec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/FFIntVec.cpp b/source/FFIntVec.cpp
index c0b757c..db07021 100644
--- a/source/FFIntVec.cpp
+++ b/source/FFIntVec.cpp
@@ -262,7 +262,7 @@ namespace firefly {
     FFIntVec<N> result(a);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] -= b;
+      result.vec[i] = b - a.vec[i];
     }
 
     return result;
@@ -284,7 +284,7 @@ namespace firefly {
     FFIntVec<N> result(a);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] /= b;
+      result.vec[i] = b / a.vec[i];
     }
 
     return result;
-- 
2.43.0


From 7b972eec9c0264775a279ba3fccf2d7816e1ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 02/32] fix: FFIntVec::at refused the last lane

---
 source/include/firefly/FFIntVec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFIntVec.hpp b/source/include/firefly/FFIntVec.hpp
index 8364713..6c4c434 100644
--- a/source/include/firefly/FFIntVec.hpp
+++ b/source/include/firefly/FFIntVec.hpp
@@ -100,7 +100,7 @@ namespace firefly {
     typename std::array<FFInt, N>::const_iterator end() const noexcept;
     size_t size() const noexcept;
     inline const FFInt& at(int i) {
-      if (i < N - 1)
+      if (i < N)
         return vec[i];
       else
         throw std::out_of_range("Out of range.");
-- 
2.43.0


From a23b20fa90a805a1aa9d4f6fc4df0982df5c7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 03/32] fix: negative multiples of the prime were stored as p
 and the most negative integers were negated with overflow

---
 source/include/firefly/FFInt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index da4241c..337cd18 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -135,7 +135,7 @@ namespace firefly {
         n = static_cast<uint64_t>(n_)  % p;
       }
     } else if (n_ < 0) {
-      n = p - static_cast<uint64_t>(-n_) % p;
+      n = p - 1 - static_cast<uint64_t>(-(n_ + 1)) % p;
     }
   }
 
-- 
2.43.0


From e24fa149efb0c9fd3ee248f5cf8c62e710411c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 04/32] fix: replacement value equal to the prime was stored as
 p

---
 source/FFInt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 2c17b12..0d4046b 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -55,7 +55,7 @@ namespace firefly {
   FFInt::FFInt(const std::string& str, const std::vector<std::pair<std::string, uint64_t>>& replacements) {
     for (const auto & var : replacements) {
       if (var.first == str) {
-        if (var.second > p) {
+        if (var.second >= p) {
           n = var.second % p;
         } else {
           n = var.second;
-- 
2.43.0


From 399fdf975e47599c9fca3ed8cef677e3fe318dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 05/32] fix: increment and decrement did not change the number

---
 source/FFInt.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 0d4046b..c72f756 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -196,27 +196,25 @@ namespace firefly {
   }
 
   FFInt FFInt::operator++() {
-    FFInt tmp(n);
-    tmp += 1;
-    return tmp;
+    *this += 1;
+    return *this;
   }
 
   FFInt FFInt::operator++(int) {
     FFInt tmp(n);
-    tmp += 1;
+    *this += 1;
     return tmp;
   }
 
   FFInt FFInt::operator--(int) {
     FFInt tmp(n);
-    tmp -= 1;
+    *this -= 1;
     return tmp;
   }
 
   FFInt FFInt::operator--() {
-    FFInt tmp(n);
-    tmp -= 1;
-    return tmp;
+    *this -= 1;
+    return *this;
   }
 
   bool FFInt::operator!() const {
-- 
2.43.0


From 4e72b44546087e5411c2f00349cd8bcdeacbfab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 06/32] fix: power with the most negative exponent was negated
 with overflow

---
 source/include/firefly/FFInt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index 337cd18..7bca05b 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -162,7 +162,7 @@ namespace firefly {
         exp = power;
         base = n;
       } else {
-        exp = static_cast<uint64_t>(-power);
+        exp = 0 - static_cast<uint64_t>(power);
         base = mod_inv(n, p);
       }
 
-- 
2.43.0


From 4c406644a304a5fa3d5881da6dcfb88da8d4d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 07/32] fix: a singular matrix in the LU decomposition was
 reported but the exception was not thrown

---
 source/include/firefly/DenseSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/DenseSolver.hpp b/source/include/firefly/DenseSolver.hpp
index c7504e5..738e160 100644
--- a/source/include/firefly/DenseSolver.hpp
+++ b/source/include/firefly/DenseSolver.hpp
@@ -291,7 +291,7 @@ namespace firefly {
       for (j = i + 1; j < n; ++j) {
         if (a[i][i] == FFIntTemp(0)) {// TODO new == operator?
           ERROR_MSG("Division by zero while calculating LU decomposition.");
-          std::runtime_error("Division by zero while calculating LU decomposition.");
+          throw std::runtime_error("Division by zero while calculating LU decomposition.");
         }
 
         a[j][i] /= a[i][i];
-- 
2.43.0


From 4c8cacd1b4223cc917285e09f4c469afb2ad9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 08/32] fix: precomputed probes with MPI were reported as
 unsupported but reconstruct() returned as if it had succeeded

---
 source/include/firefly/Reconstructor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 5932418..7b0de5a 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -899,7 +899,7 @@ namespace firefly {
 #ifdef WITH_MPI
     if (precomputed_probes) {
       ERROR_MSG("Precomputed probes are not supported with MPI support enabled!");
-      return;
+      std::exit(EXIT_FAILURE);
     }
 
     ThreadPool tp_comm(1);
-- 
2.43.0


From e48e9625a75465a757460cb9d3a29ab3ad2719ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 09/32] fix: evaluate took the operators of negative exponents
 for variables

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 4000fac..65a7785 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -246,7 +246,7 @@ namespace firefly {
       std::stack<FFIntTemp> nums;
 
       for (const auto& token : tokens) {
-        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!") {
+        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!" || token == "~" || token == ";") {
           // Pop two numbers
           FFIntTemp a = nums.top();
           nums.pop();
-- 
2.43.0


From 405f952f84cff6991e0fb50816c4e6a21179eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 10/32] fix: evaluate_pre_2 wrote past the end of its stack

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 65a7785..5cc9d24 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -490,7 +490,7 @@ namespace firefly {
     }
 
     for (const auto& tokens : precomp_tokens) {
-      FFIntTemp* stack = new FFIntTemp[tokens.size()];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
+      FFIntTemp* stack = new FFIntTemp[tokens.size() + 1];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
       size_t stack_depth = 0;
 
       for (const auto& token : tokens) {
-- 
2.43.0


From a223fabdd3e74b33185682b0f1033d6045a9e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 11/32] fix: a variable divided by an already folded quotient
 was refreshed from the numerator only

---
 source/ShuntingYardParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index e568e5a..e8a9597 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -637,7 +637,9 @@ namespace firefly {
 	      partial_rpn[i].emplace_back(std::make_pair(j, v_2));
             } else if (precomp_tokens[i][j - 1].first == tokens::NUMBER && (precomp_tokens[i][j - 2].first == tokens::VARIABLE || precomp_tokens[i][j - 2].first == tokens::NEG_VARIABLE)) {
               FFInt inverse = 1 / precomp_tokens[i][j - 1].second;
-	      partial_rpn[i].back().second = {{"1", partial_rpn[i].back().second[0] , "/"}};
+	      auto& v = partial_rpn[i].back().second;
+	      v.insert(v.begin(), "1");
+	      v.emplace_back("/");
 
               precomp_tokens[i][j - 1].second = inverse;
               precomp_tokens[i][j] = {tokens::MULT, 0};
-- 
2.43.0


From bdffb11fdde4c42d51f69d14ebbbae213183dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 12/32] fix: trim left the record of folded constants
 misaligned with the remaining functions

---
 source/ShuntingYardParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index e8a9597..c7bfd6c 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -722,6 +722,7 @@ namespace firefly {
   std::unordered_map<size_t, size_t> ShuntingYardParser::trim(const std::unordered_set<size_t>& elements_to_keep) {
     std::vector<std::vector<std::string>> new_functions {};
     std::vector<std::vector<std::pair<uint8_t, FFInt>>> new_precomp_tokens {};
+    std::vector<std::vector<std::pair<size_t, std::vector<std::string>>>> new_partial_rpn {};
     std::vector<uint64_t> new_evaluation_positions {};
     std::unordered_map<size_t, size_t> new_positions {};
 
@@ -736,6 +737,7 @@ namespace firefly {
 
           if (!precomp_tokens.empty()) {
             new_precomp_tokens.emplace_back(std::move(precomp_tokens[i]));
+            new_partial_rpn.emplace_back(std::move(partial_rpn[i]));
           }
 
           new_positions.emplace(std::make_pair(i, new_functions.size() - 1));
@@ -755,6 +757,7 @@ namespace firefly {
 
             if (!precomp_tokens.empty()) {
               new_precomp_tokens.emplace_back(std::move(precomp_tokens[evaluation_positions[i]]));
+              new_partial_rpn.emplace_back(std::move(partial_rpn[evaluation_positions[i]]));
             }
 
             copied_functions.emplace(std::make_pair(static_cast<size_t>(evaluation_positions[i]), new_functions.size() - 1));
@@ -768,10 +771,12 @@ namespace firefly {
 
     new_functions.shrink_to_fit();
     new_precomp_tokens.shrink_to_fit();
+    new_partial_rpn.shrink_to_fit();
     new_evaluation_positions.shrink_to_fit();
 
     functions = std::move(new_functions);
     precomp_tokens = std::move(new_precomp_tokens);
+    partial_rpn = std::move(new_partial_rpn);
     evaluation_positions = std::move(new_evaluation_positions);
 
     return new_positions;
-- 
2.43.0


From 7c3d1859cc6be490ddf7c91f4356c615b730ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 13/32] fix: adding a precomputed function in a new field
 marked the older functions as refreshed

---
 source/ShuntingYardParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index c7bfd6c..6dc0d3c 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -330,7 +330,7 @@ namespace firefly {
 
   size_t ShuntingYardParser::add_otf_precompute(const std::vector<std::string>& rpn_fun) {
     if (FFInt::p != prime_internal) {
-      prime_internal = FFInt::p;
+      precompute_tokens();
     }
 
     precomp_tokens.emplace_back(std::vector<std::pair<uint8_t, FFInt>>());
-- 
2.43.0


From d3b12a2f2201dd6b734b86f097553be972a7014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 14/32] fix: after early results were taken the remaining ones
 got the factors of other functions

---
 source/include/firefly/Reconstructor.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 7b0de5a..d941986 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1124,7 +1124,6 @@ namespace firefly {
   template<typename BlackBoxTemp>
   std::vector<RationalFunction> Reconstructor<BlackBoxTemp>::get_result() {
     std::vector<RationalFunction> result {};
-    uint32_t counter = 0;
 
     for (auto & rec : reconst) {
       if (std::get<1>(rec) == DONE) {
@@ -1134,13 +1133,11 @@ namespace firefly {
           result.back().set_var_order(optimal_var_order);
         }
 
-        if (factors_rf.find(counter) != factors_rf.end()) {
-          for (const auto& factor : factors_rf[counter]) {
+        if (factors_rf.find(std::get<0>(rec)) != factors_rf.end()) {
+          for (const auto& factor : factors_rf[std::get<0>(rec)]) {
             result.back().add_factor(factor);
           }
         }
-
-        ++counter;
       }
     }
 
-- 
2.43.0


From 58ff59582612318087ba743b28a04d469c68ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 15/32] fix: running out of prime fields read past the end of
 the prime table

---
 source/include/firefly/Reconstructor.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index d941986..cfffeae 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -678,6 +678,12 @@ namespace firefly {
       prime_it = std::min(prime_it, parse_prime_number(file_paths[i]));
     }
 
+    if (prime_it >= primes().size()) {
+      ERROR_MSG("The saved states do not belong to a valid prime field!");
+      logger << "The saved states do not belong to a valid prime field!\n";
+      std::exit(EXIT_FAILURE);
+    }
+
     FFInt::set_new_prime(primes()[prime_it]);
     bb.prime_changed_internal();
 
@@ -1719,6 +1725,14 @@ namespace firefly {
         // Promote to new prime field
         if (!fac_done) {
           ++prime_it_fac;
+
+          if (prime_it_fac >= primes().size()) {
+            ERROR_MSG("There are no more prime fields available!");
+            logger << "There are no more prime fields available!\n";
+            logger.close();
+            std::exit(EXIT_FAILURE);
+          }
+
           FFInt::set_new_prime(primes()[prime_it_fac]);
           bb.prime_changed_internal();
         } else {
@@ -2420,6 +2434,14 @@ namespace firefly {
         }
 
         ++prime_it;
+
+        if (prime_it >= primes().size()) {
+          ERROR_MSG("There are no more prime fields available!");
+          logger << "There are no more prime fields available!\n";
+          logger.close();
+          std::exit(EXIT_FAILURE);
+        }
+
         if(prime_it >= prime_counter || factor_scan) {
           done = true;
         }
-- 
2.43.0


From 8ddb0341e25777c3706fa09b3025a6b9ea6d0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 16/32] fix: started_probes was changed without its lock while
 interpolation jobs were running

---
 source/include/firefly/Reconstructor.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index cfffeae..650cdfd 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2360,7 +2360,13 @@ namespace firefly {
 #ifndef WITH_MPI
         // TODO don't start as much ones
         queue_probes(zi_order, thr_n);//* bunch_size);
-        started_probes.at(zi_order) += thr_n;//* bunch_size);
+
+        {
+          // The interpolation jobs started above are already using started_probes
+          std::lock_guard<std::mutex> lock(job_control);
+
+          started_probes.at(zi_order) += thr_n;//* bunch_size);
+        }
 #else
         // TODO optimize
         send_first_jobs();
@@ -2380,7 +2386,12 @@ namespace firefly {
         uint32_t to_start = thr_n;//* bunch_size; // TODO
 
         queue_probes(zi_order, to_start);
-        started_probes[zi_order] += to_start;
+
+        {
+          std::lock_guard<std::mutex> lock(job_control);
+
+          started_probes[zi_order] += to_start;
+        }
 
 #endif
       } else {
-- 
2.43.0


From ce33c008def691dbb069d7131c8955b5ffc21435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 17/32] fix: functions were added to the list without its lock
 while early results could be taken

---
 source/include/firefly/Reconstructor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 650cdfd..57c5a01 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2242,7 +2242,11 @@ namespace firefly {
         one_done = true;
       }
 
-      reconst.emplace_back(std::make_tuple(i, status, rec));
+      {
+        std::lock_guard<std::mutex> lock_clean(clean);
+
+        reconst.emplace_back(std::make_tuple(i, status, rec));
+      }
     }
 
     if (!factor_scan && save_states) {
-- 
2.43.0


From 08fb05c513dcd2d5ddaa5599c6f39778d33b11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 18/32] fix: an empty black box was dereferenced when silent
 and its probes kept running

---
 source/include/firefly/Reconstructor.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 57c5a01..5c4cb6d 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2254,17 +2254,27 @@ namespace firefly {
       tags.clear();
     }
 
-    if (verbosity > SILENT && first_print) {
-      first_print = false;
+    if (items == 0) {
+#ifndef WITH_MPI
+      // No more probes are needed
+      tp.kill_all();
+#endif
+
+      if (verbosity > SILENT && first_print) {
+        first_print = false;
 
-      if (items == 0) {
         INFO_MSG("Black box has no entries");
         logger << "Black box has no entries\n";
         logger.close();
         logger.open("firefly.log", std::ios_base::app);
-        return;
       }
 
+      return;
+    }
+
+    if (verbosity > SILENT && first_print) {
+      first_print = false;
+
       std::string msg = std::to_string(items) + " function(s) will be interpolated";
 
       if (factor_scan) {
-- 
2.43.0


From ce418aebd6775adae0ef3098de87a4ef1c9ab577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 19/32] fix: a repeated t shifted the points sent to a worker
 in the first request

---
 source/include/firefly/Reconstructor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 5c4cb6d..12093f7 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -3991,9 +3991,6 @@ namespace firefly {
       values.reserve(static_cast<uint32_t>(to_start) * (n + 1));
 
       for (uint32_t ii = 0; ii != static_cast<uint32_t>(to_start); ++ii) {
-        //values[ii * (n + 1)] = ind;
-        values.emplace_back(ind);
-
         FFInt t = tmp_rec.get_rand_64();
 
         // check if t was already used for this zi_order
@@ -4012,6 +4009,9 @@ namespace firefly {
           chosen_t.emplace(std::make_pair(zi_order, std::unordered_set<uint64_t>( {t.n})));
         }
 
+        //values[ii * (n + 1)] = ind;
+        values.emplace_back(ind);
+
         if (!factor_scan) {
           if (change_var_order) {
             std::vector<uint64_t> tmp_values (n);
-- 
2.43.0


From ab1b664ba379e7c11c56d2736da2bcec9057f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 20/32] fix: the probe queue was tested without its lock after
 a probe computed with MPI

---
 source/include/firefly/Reconstructor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 12093f7..5bfebb8 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -3402,6 +3402,9 @@ namespace firefly {
       }
 
 #ifdef WITH_MPI
+      // The lock was given back to compute the probe
+      lock_probe_queue.lock();
+
       if (requested_probes.empty()) {
         new_jobs = false;
       }
-- 
2.43.0


From ed94007f40a6246609a014d04d3c9dd599c13216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 21/32] fix: the wake-up of the communication thread could be
 lost when resuming with MPI

---
 source/include/firefly/Reconstructor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 5bfebb8..431a114 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2674,12 +2674,12 @@ namespace firefly {
           queue_probes(zi_order, thr_n); // * bunch_size
           started_probes[zi_order] += thr_n; // * bunch_size
 
+          std::unique_lock<std::mutex> lock_probe_queue(mutex_probe_queue);
+
           new_jobs = true;
           continue_communication = true;
           cond_val.notify_one();
 
-          std::unique_lock<std::mutex> lock_probe_queue(mutex_probe_queue);
-
           cond_val.wait(lock_probe_queue, [this](){return proceed;});
 
           proceed = false;
-- 
2.43.0


From 1b58dde1b44a51a48363ad40059bc64b1a1889b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 22/32] fix: the required probes and the queue of a function
 were changed without its lock in a new prime field

---
 source/RatReconst.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 02f5a97..bcde802 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3349,7 +3349,11 @@ namespace firefly {
       }
     }
 
-    needed_feed_vec.clear();
+    {
+      std::lock_guard<std::mutex> lock(mutex_status);
+      needed_feed_vec.clear();
+    }
+
     sub_num = polff_map();
     sub_den = polff_map();
     solved_degs_num.clear();
@@ -3443,6 +3447,8 @@ namespace firefly {
       }
     }
 
+    std::vector<std::pair<uint32_t, uint32_t>> new_feed_vec {};
+
     if (prime_number < interpolations) {
       std::lock_guard<std::mutex> lock(mutex_status);
       zi = 1;
@@ -3524,7 +3530,7 @@ namespace firefly {
           if (!den_done && el.first == max_num_coef_den.second)
             den_done = true;
 
-          needed_feed_vec.emplace_back(std::make_pair(multiplicity, tmp_num_eqn));
+          new_feed_vec.emplace_back(std::make_pair(multiplicity, tmp_num_eqn));
           last_number_of_terms = el.first;
           tmp_max_num_eqn = tmp_num_eqn;
         }
@@ -3561,12 +3567,12 @@ namespace firefly {
               tmp_num_eqn -= r_map[last_number_of_terms];
             }
 
-            needed_feed_vec.emplace_back(std::make_pair(multiplicity, tmp_num_eqn));
+            new_feed_vec.emplace_back(std::make_pair(multiplicity, tmp_num_eqn));
             last_number_of_terms = el.first;
             tmp_max_num_eqn = tmp_num_eqn;
           }
         } else {
-          needed_feed_vec.emplace_back(std::make_pair(1, num_eqn));
+          new_feed_vec.emplace_back(std::make_pair(1, num_eqn));
         }
       }
     }
@@ -3575,7 +3581,7 @@ namespace firefly {
     std::vector<std::pair<uint32_t, uint32_t>> needed_feed_vec_tmp {};
     size_t counter = 1;
 
-    for (const auto& el : needed_feed_vec) {
+    for (const auto& el : new_feed_vec) {
       uint32_t tmp_mult = el.first;
       for (uint32_t i = 0; i != tmp_mult; ++i) {
         needed_feed_vec_tmp.emplace_back(std::make_pair(counter, el.second));
@@ -3584,6 +3590,8 @@ namespace firefly {
     }
 
     needed_feed_vec_tmp.shrink_to_fit();
+
+    std::lock_guard<std::mutex> lock(mutex_status);
     needed_feed_vec.swap(needed_feed_vec_tmp);
 
     if (from_save_state) {
@@ -3640,6 +3648,7 @@ namespace firefly {
   }
 
   std::vector<std::pair<uint32_t, uint32_t>> RatReconst::get_needed_feed_vec() {
+    std::lock_guard<std::mutex> lock(mutex_status);
     std::vector<std::pair<uint32_t, uint32_t>> needed_feed_vec_tmp = std::move(needed_feed_vec);
     needed_feed_vec.clear();
 
-- 
2.43.0


From 9baeac0add1c3238abe4cafffbccd54c24b0b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 23/32] fix: the number of required probes was computed while
 the interpolation changed its system

---
 source/RatReconst.cpp | 45 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index bcde802..c57c4e2 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -713,7 +713,12 @@ namespace firefly {
             if (coef_n.size() == 0 && coef_d.size() == 0) {
               saved_num_num.clear();
               saved_num_den.clear();
-              vandermonde_size = 1;
+
+              {
+                std::lock_guard<std::mutex> lock(mutex_status);
+                vandermonde_size = 1;
+              }
+
               FFInt const_den = 0;
 
               // Calculate shift polynomials and combine with previous ones if there is any shift
@@ -2006,7 +2011,12 @@ namespace firefly {
 
   std::pair<ff_map, ff_map> RatReconst::solve_gauss() {
     std::vector<FFInt> results = solve_gauss_system(coef_mat, num_eqn);
-    coef_mat.clear();
+
+    {
+      std::lock_guard<std::mutex> lock(mutex_status);
+      coef_mat.clear();
+    }
+
     num_sub_den.clear();
     num_sub_num.clear();
 
@@ -2031,7 +2041,12 @@ namespace firefly {
 
   std::pair<ff_map, ff_map> RatReconst::solve_homogenized_multi_gauss() {
     std::vector<FFInt> results = solve_gauss_system(coef_mat, num_eqn);
-    coef_mat.clear();
+
+    {
+      std::lock_guard<std::mutex> lock(mutex_status);
+      coef_mat.clear();
+    }
+
     num_sub_den.clear();
     num_sub_num.clear();
 
@@ -2120,7 +2135,11 @@ namespace firefly {
     }
 
     eq.emplace_back(res);
-    coef_mat.emplace_back(std::move(eq));
+
+    {
+      std::lock_guard<std::mutex> lock(mutex_status);
+      coef_mat.emplace_back(std::move(eq));
+    }
 
     size_t size = factor_degs.first.size() + factor_degs.second.size() - 1;
 
@@ -2132,7 +2151,11 @@ namespace firefly {
 
   std::pair<ff_map, ff_map> RatReconst::solve_factor_uni_gauss() {
     std::vector<FFInt> results = solve_gauss_system(coef_mat, coef_mat.size());
-    coef_mat.clear();
+
+    {
+      std::lock_guard<std::mutex> lock(mutex_status);
+      coef_mat.clear();
+    }
 
     ff_map numerator;
     ff_map denominator;
@@ -2210,7 +2233,11 @@ namespace firefly {
     }
 
     eq.emplace_back(res);
-    coef_mat.emplace_back(std::move(eq));
+
+    {
+      std::lock_guard<std::mutex> lock(mutex_status);
+      coef_mat.emplace_back(std::move(eq));
+    }
   }
 
   void RatReconst::build_homogenized_multi_gauss(const FFInt& tmp_ti, const FFInt& tmp_num, const std::vector<FFInt>& yis) {
@@ -2277,7 +2304,11 @@ namespace firefly {
     }
 
     eq.emplace_back(res);
-    coef_mat.emplace_back(std::move(eq));
+
+    {
+      std::lock_guard<std::mutex> lock(mutex_status);
+      coef_mat.emplace_back(std::move(eq));
+    }
   }
 
   void RatReconst::generate_anchor_points() {
-- 
2.43.0


From b81ea88bd7820e428b4efdd3b5ec11b319a9e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 24/32] fix: new jobs were announced without the lock the
 communication thread waits with

---
 source/include/firefly/Reconstructor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 431a114..dd85abd 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -3032,6 +3032,8 @@ namespace firefly {
 #endif
 
 #ifdef WITH_MPI
+    std::lock_guard<std::mutex> lock_probe_queue(mutex_probe_queue);
+
     new_jobs = true;
 #endif
   }
-- 
2.43.0


From 4936f575f450f59d8e30fc50968a006fe23dcbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 25/32] fix: compute_bunch_size divided by zero without threads
 and returned 0 for very long queues

---
 source/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/utils.cpp b/source/utils.cpp
index c13f3f0..6a0588a 100644
--- a/source/utils.cpp
+++ b/source/utils.cpp
@@ -303,10 +303,11 @@ namespace firefly {
   }
 
   uint32_t compute_bunch_size(const uint32_t queue_length, const uint32_t thr_n, const uint32_t max_bunch_size) {
-    if (max_bunch_size == 1) {
+    if (max_bunch_size == 1 || thr_n == 0) {
       return 1;
     } else {
-      uint32_t tmp = queue_length / thr_n;
+      // A larger value cannot be used and would not fit into the shifts below
+      uint32_t tmp = std::min(max_bunch_size, queue_length / thr_n);
 
       if (tmp != 0) {
         // Compute the floor power of two
-- 
2.43.0


From 56e21fabc0a629f078587808787360d9327f94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:40 +0000
Subject: [PATCH 26/32] fix: MPIWorker accepted bunch sizes it cannot evaluate
 and dropped their probes

---
 source/include/firefly/MPIWorker.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/include/firefly/MPIWorker.hpp b/source/include/firefly/MPIWorker.hpp
index 60d21f9..039684b 100644
--- a/source/include/firefly/MPIWorker.hpp
+++ b/source/include/firefly/MPIWorker.hpp
@@ -119,6 +119,11 @@ namespace firefly {
       std::exit(EXIT_FAILURE);
     }
 
+    if (bunch_size != 1 && bunch_size != 2 && bunch_size != 4 && bunch_size != 8 && bunch_size != 16 && bunch_size != 32 && bunch_size != 64 && bunch_size != 128) {
+      ERROR_MSG("Maximum bunch size " + std::to_string(bunch_size) + " is no supported power of 2!\n               Choose among 1, 2, 4, 8, 16, 32, 64, 128");
+      std::exit(EXIT_FAILURE);
+    }
+
     run();
   }
 
-- 
2.43.0


From 4f2a21449e0d93c90d74adeeee5592482a0ff01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:07 +0000
Subject: [PATCH 27/32] fix: put back the current prime field after adding a
 function on the fly

---
 source/ShuntingYardParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index 6dc0d3c..8e7c789 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -353,10 +353,13 @@ namespace firefly {
       functions.emplace_back(tokens);
       return functions.size() - 1;
     } else {
+      // The prime field may have changed since the construction
+      const uint64_t current_prime = FFInt::p;
       FFInt::set_new_prime(primes()[prime_counter != 299 ? prime_counter + 1 : prime_counter - 1]);
       FFInt v1 = evaluate(tokens, check_vars_1);
       FFInt::set_new_prime(primes()[prime_counter]);
       FFInt v2 = evaluate(tokens, check_vars_2);
+      FFInt::set_new_prime(current_prime);
 
       if (check_map.find(std::make_pair(v1.n, v2.n)) != check_map.end()) {
         if (!no_duplicates) {
-- 
2.43.0


From 4730d67c4bc9b67d7a25837e2b531fb7799a722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 28/32] fix: discard queued values of the previous prime field
 in PolyReconst

---
 source/PolyReconst.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/PolyReconst.cpp b/source/PolyReconst.cpp
index a935312..8a98c8c 100644
--- a/source/PolyReconst.cpp
+++ b/source/PolyReconst.cpp
@@ -524,6 +524,8 @@ namespace firefly {
 
             std::lock_guard<std::mutex> lock(mutex_status);
             new_prime = true;
+            // the remaining values belong to the previous prime field
+            queue.clear();
             prime_number ++;
             check = false;
             return;
-- 
2.43.0


From c6805f1d3fcba9f1283a86d5d8b2c9d0b05295cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:01 +0000
Subject: [PATCH 29/32] fix: write the shift and zero states under a temporary
 name before replacing the old state

---
 source/RatReconst.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index c57c4e2..845d6bb 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -2413,7 +2413,7 @@ namespace firefly {
 
   void RatReconst::accept_shift() {
     if (tag.size() != 0) {
-      std::string file_name = "ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz";
+      std::string file_name = "ff_save/tmp/" + tag + "_" + std::to_string(prime_number) + ".gz";
       //std::ofstream file;
       ogzstream file;
       file.open(file_name.c_str());
@@ -2440,6 +2440,10 @@ namespace firefly {
       }
 
       file.close();
+
+      // replace the previous state only with a complete one
+      std::string file_name_new = "ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz";
+      std::rename(file_name.c_str(), file_name_new.c_str());
     }
 
     /*factor_degs.first.clear();
@@ -2549,12 +2553,16 @@ namespace firefly {
 
   void RatReconst::save_zero_state() {
     ogzstream file;
-    std::string file_name = "ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz";
+    std::string file_name = "ff_save/tmp/" + tag + "_" + std::to_string(prime_number) + ".gz";
     file.open(file_name.c_str());
     file << "ZERO\n";
     interpolations > 1 ? file << "1\n" : file << "0\n";
     file << tag_name << "\n";
     file.close();
+
+    // replace the previous state only with a complete one
+    std::string file_name_new = "ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz";
+    std::rename(file_name.c_str(), file_name_new.c_str());
   }
 
   void RatReconst::save_zero_consecutive_prime() {
-- 
2.43.0


From ff4c018976d0d897e78b7a9014d6ffc52e1c476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:44 +0000
Subject: [PATCH 30/32] fix: keep the buffer of the worker's non-blocking send
 alive until it is completed

---
 source/include/firefly/MPIWorker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/MPIWorker.hpp b/source/include/firefly/MPIWorker.hpp
index 039684b..e4980e7 100644
--- a/source/include/firefly/MPIWorker.hpp
+++ b/source/include/firefly/MPIWorker.hpp
@@ -194,11 +194,11 @@ namespace firefly {
       std::vector<uint64_t> tmp_results;
 
       MPI_Request request;
+      uint64_t free = buffer * static_cast<uint64_t>(thr_n); // has to outlive the non-blocking send
 
       if (tasks == 0 && results.empty()) {
         lock.unlock();
 
-        uint64_t free = buffer * static_cast<uint64_t>(thr_n);
         MPI_Isend(&free, 1, MPI_UINT64_T, master, RESULT, MPI_COMM_WORLD, &request);
       } else {
         cond.wait(lock, [this](){return !results.empty();});
-- 
2.43.0


From 4abf9cae3e95569474fd185c64a29a5e412449dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:45 +0000
Subject: [PATCH 31/32] fix: get_result_ff returned exponents in the optimized
 variable order instead of the user's

---
 source/include/firefly/Reconstructor.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index dd85abd..f428065 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1156,6 +1156,25 @@ namespace firefly {
 
     for (auto & rec : reconst) {
       result.emplace_back(std::get<2>(rec)->get_result_ff());
+
+      if (change_var_order) {
+        // The exponents are in the optimized order, restore the one of the user
+        for (auto * poly : {&result.back().numerator, &result.back().denominator}) {
+          ff_map ordered_coefs;
+
+          for (const auto & coef : poly->coefs) {
+            std::vector<uint32_t> powers (n);
+
+            for (const auto & el : optimal_var_order) {
+              powers[el.second] = coef.first[el.first];
+            }
+
+            ordered_coefs.emplace(std::make_pair(std::move(powers), coef.second));
+          }
+
+          poly->coefs = std::move(ordered_coefs);
+        }
+      }
     }
 
     return result;
-- 
2.43.0


From 993c9acdb6557f272d6772181520cb5ceee1f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:56 +0000
Subject: [PATCH 32/32] fix: gzstreambuf released its buffer before closing the
 file that is flushed from it

---
 source/include/firefly/gzstream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/gzstream.hpp b/source/include/firefly/gzstream.hpp
index e9d0530..289d90f 100644
--- a/source/include/firefly/gzstream.hpp
+++ b/source/include/firefly/gzstream.hpp
@@ -63,7 +63,7 @@ namespace firefly {
     int is_open() { return opened; }
     gzstreambuf* open(const char* name, int open_mode);
     gzstreambuf* close();
-    ~gzstreambuf() {delete [] buffer; close(); }
+    ~gzstreambuf() {close(); delete [] buffer; }
 
     virtual int     overflow(int c = EOF);
     virtual int     underflow();
-- 
2.43.0

