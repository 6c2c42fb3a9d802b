From 8fb64c853a9c0948affd44196d9e2a77a9f32d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 01/61] fix: Bigram::sample corrupted its counts when it hit
 max_length

A truncated sample never incorporated the stop symbol that the final
unincorporate() removes, leaving a negative transition count behind.
---
 cxx/distributions/bigram.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index f506cd7..a514ab9 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -89,6 +89,9 @@ std::string Bigram::sample(std::mt19937* prng) {
   while (current_ind != num_chars) {
     sampled_string += index_to_char(current_ind);
     if (sampled_string.length() == max_length) {
+      // Incorporate the implied stop symbol, because unincorporate below
+      // will remove it.
+      transition_dists[current_ind].incorporate(num_chars);
       break;
     }
     next_ind = transition_dists[current_ind].sample(prng);
-- 
2.43.0


From ae25d75369bea98642478fae56feebd30dacde71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 02/61] fix: DirichletCategorical::sample truncated fractional
 counts

Counts are doubles (emissions incorporate fractional weights), but the
sampling weights rounded them towards zero, so samples did not follow logp().
---
 cxx/distributions/dirichlet_categorical.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index 7cb683b..8fb61e3 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -35,7 +35,7 @@ double DirichletCategorical::logp_score() const {
 int DirichletCategorical::sample(std::mt19937* prng) {
   std::vector<double> weights(counts.size());
   std::transform(counts.begin(), counts.end(), weights.begin(),
-                 [&](size_t y) -> double { return y + alpha; });
+                 [&](double y) -> double { return y + alpha; });
   return choice(weights, prng);
 }
 
-- 
2.43.0


From 0405028323027190b9127fe4dbd86a5cdf28c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 03/61] fix: BetaBernoulli lost fractional weights

The weighted sum of observed values was kept in an int, so that
incorporating or unincorporating x with weight 0.3 changed N but not s
(or took a whole observation out), eventually giving NaN probabilities.
---
 cxx/distributions/beta_bernoulli.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/beta_bernoulli.hh b/cxx/distributions/beta_bernoulli.hh
index 1dfe007..0a2a627 100644
--- a/cxx/distributions/beta_bernoulli.hh
+++ b/cxx/distributions/beta_bernoulli.hh
@@ -11,7 +11,7 @@ class BetaBernoulli : public Distribution<bool> {
  public:
   double alpha = 1;  // hyperparameter
   double beta = 1;   // hyperparameter
-  int s = 0;         // sum of observed values
+  double s = 0;      // sum of observed values
 
   std::vector<double> alpha_grid;
   std::vector<double> beta_grid;
-- 
2.43.0


From 62919c295367757c5b4ac2d49cf7acd529a750cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 04/61] fix: Sometimes::unincorporate did not undo incorporate

With dirty_can_equal_clean, the observation is apportioned with a weight
that depends on the current state; removing it recomputed that weight in a
later state, so counts drifted, went negative and ended as NaN.
---
 cxx/emissions/sometimes.hh | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/sometimes.hh b/cxx/emissions/sometimes.hh
index 5e6603b..d698a58 100644
--- a/cxx/emissions/sometimes.hh
+++ b/cxx/emissions/sometimes.hh
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <map>
 #include <unordered_map>
+#include <vector>
 
 #include "distributions/beta_bernoulli.hh"
 #include "emissions/base.hh"
@@ -13,6 +15,9 @@ class Sometimes : public Emission<SampleType> {
   BetaBernoulli bb;
   Emission<SampleType>* be;  // We own be.
   bool dirty_can_equal_clean;
+  // The probabilities of having come from be that were used when
+  // incorporating (value, value) pairs.  Only used if dirty_can_equal_clean.
+  std::map<SampleType, std::vector<double>> be_probabilities;
 
   // By default, Sometimes only works with BaseEmissors that assign zero
   // probability to dirty == clean.  Pass _dirty_can_equal_clean=true to
@@ -38,7 +43,17 @@ class Sometimes : public Emission<SampleType> {
     }
 
     if (dirty_can_equal_clean) {
-      double p_came_from_be = exp(bb.logp(true) + be->logp(x));
+      // The probability depends on the current state, so remember it to be
+      // able to undo exactly what was done.
+      std::vector<double>& used = be_probabilities[x.first];
+      double p_came_from_be;
+      if (weight < 0.0 && !used.empty()) {
+        p_came_from_be = used.back();
+        used.pop_back();
+      } else {
+        p_came_from_be = exp(bb.logp(true) + be->logp(x));
+        used.push_back(p_came_from_be);
+      }
       bb.incorporate(true, p_came_from_be * weight);
       be->incorporate(x, p_came_from_be * weight);
       bb.incorporate(false, (1.0 - p_came_from_be) * weight);
-- 
2.43.0


From 6c4a9ee12b0e76d16d1520d3f6909bd228f2bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 05/61] fix: SimpleStringEmission could generate the
 unprintable character 0x7f

uniform_int_distribution includes both of its bounds.
---
 cxx/emissions/simple_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index 26f9554..db75cd0 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -129,7 +129,7 @@ class SimpleStringEmission : public Emission<std::string> {
   }
 
   char random_character(std::mt19937* prng) {
-    std::uniform_int_distribution<char> uid(lowest_char, highest_char + 1);
+    std::uniform_int_distribution<char> uid(lowest_char, highest_char);
     return uid(*prng);
   }
 
-- 
2.43.0


From ade75e9ab6b4fadfaf7ec31e793c56e1a6805bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 06/61] fix: Normal::logp of an extreme value corrupted the
 model

logp(1e12) incorporated and unincorporated its argument, which left a
large rounding error in the variance of the data seen so far.
---
 cxx/distributions/normal.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cxx/distributions/normal.cc b/cxx/distributions/normal.cc
index 17a454c..e8b1bb5 100644
--- a/cxx/distributions/normal.cc
+++ b/cxx/distributions/normal.cc
@@ -40,10 +40,16 @@ double Normal::logp(const double& x) const {
   double unused_mprime, sprime;
   posterior_hypers(&unused_mprime, &sprime);
 
+  // Restore the statistics from copies, because unincorporating an x that is
+  // far from the incorporated data would lose them to rounding.
   double sprime2;
-  const_cast<Normal*>(this)->incorporate(x);
+  const double old_N = N, old_mean = mean, old_var = var;
+  Normal* self = const_cast<Normal*>(this);
+  self->incorporate(x);
   posterior_hypers(&unused_mprime, &sprime2);
-  const_cast<Normal*>(this)->unincorporate(x);
+  self->N = old_N;
+  self->mean = old_mean;
+  self->var = old_var;
 
   return -0.5 * log(M_2PI) + logZ(r + N + 1, v + N + 1, sprime2) -
          logZ(r + N, v + N, sprime);
-- 
2.43.0


From 5bf6da8e4b5060ee8714953b6afc9419b33be557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 07/61] fix: nearest() of string distributions returned values
 they reject

Bigram::nearest and StringNat::nearest could return a string with invalid
characters or longer than max_length; incorporating it exits the program.
---
 cxx/distributions/bigram.cc     | 13 +++++++++++++
 cxx/distributions/bigram.hh     |  4 ++++
 cxx/distributions/string_nat.hh | 10 ----------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index a514ab9..f095701 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -130,3 +130,16 @@ void Bigram::transition_hyperparameters(std::mt19937* prng) {
     set_alpha(alphas[i]);
   }
 }
+
+std::string Bigram::nearest(const std::string& x) const {
+  std::string s;
+  for (const char& c : x) {
+    if (c >= min_char && c <= max_char) {
+      s += c;
+    }
+  }
+  if ((max_length > 0) && (s.length() > max_length)) {
+    s.resize(max_length);
+  }
+  return s;
+}
diff --git a/cxx/distributions/bigram.hh b/cxx/distributions/bigram.hh
index 7245012..d5b66af 100644
--- a/cxx/distributions/bigram.hh
+++ b/cxx/distributions/bigram.hh
@@ -47,4 +47,8 @@ class Bigram : public Distribution<std::string> {
   void set_alpha(double alphat);
 
   void transition_hyperparameters(std::mt19937* prng);
+
+  // Drops the characters outside of [min_char, max_char], and whatever
+  // exceeds max_length.
+  std::string nearest(const std::string& x) const;
 };
diff --git a/cxx/distributions/string_nat.hh b/cxx/distributions/string_nat.hh
index 5acd2d9..ebae614 100644
--- a/cxx/distributions/string_nat.hh
+++ b/cxx/distributions/string_nat.hh
@@ -14,14 +14,4 @@
 class StringNat : public Bigram {
  public:
   StringNat(size_t _max_length = 20): Bigram(_max_length, '0', '9') {}
-
-  std::string nearest(const std::string& x) const {
-    std::string s;
-    for (const char& c : x) {
-      if (std::isdigit(c)) {
-        s += c;
-      }
-    }
-    return s;
-  }
 };
-- 
2.43.0


From 0a91b67deecde9e6cc0b132542245682eb845b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 08/61] fix: DistributionAdapter used an uninitialized value
 for empty strings

---
 cxx/distributions/adapter.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/adapter.hh b/cxx/distributions/adapter.hh
index cb9594f..65f1c86 100644
--- a/cxx/distributions/adapter.hh
+++ b/cxx/distributions/adapter.hh
@@ -21,7 +21,7 @@ class DistributionAdapter : public Distribution<std::string> {
   DistributionAdapter(Distribution<S>* dd) : d(dd) {};
 
   S from_string(const std::string& x) const {
-    S s;
+    S s{};
     std::istringstream(x) >> s;
     return s;
   }
-- 
2.43.0


From 4fd7536a14578f3e092c7c49302628fb2bc55c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 09/61] fix: Skellam probabilities overflowed and sampling
 could hang

Latent rates that the prior can draw (e.g. exp(10)) made the Bessel function
overflow, so that logp() returned inf or NaN, and Metropolis-Hastings accepted
them. poisson_distribution<int> loops forever when the mean exceeds INT_MAX.
---
 cxx/distributions/skellam.cc | 56 ++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/cxx/distributions/skellam.cc b/cxx/distributions/skellam.cc
index ee3f795..15687db 100644
--- a/cxx/distributions/skellam.cc
+++ b/cxx/distributions/skellam.cc
@@ -1,7 +1,10 @@
 #include "distributions/skellam.hh"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <limits>
+#include <numbers>
 #include "util_math.hh"
 
 double lognormal_logp(double x, double mean, double stddev) {
@@ -10,16 +13,57 @@ double lognormal_logp(double x, double mean, double stddev) {
       - std::log(x * stddev) - 0.5 * std::log(2.0 * std::numbers::pi);
 }
 
+// Returns log(I_n(z)) - z, where I_n is the modified Bessel function of the
+// first kind, for n >= 0 and z > 0.  Neither overflows nor underflows.
+double log_scaled_bessel_i(double n, double z) {
+  const double s = std::hypot(n, z);
+  if (s > 100.0) {
+    // Uniform asymptotic expansion, https://dlmf.nist.gov/10.41.E3 .
+    const double p2 = (n / s) * (n / s);
+    const double u1 = (3.0 - 5.0 * p2) / 24.0;
+    const double u2 = (81.0 + p2 * (-462.0 + p2 * 385.0)) / 1152.0;
+    const double u3 = (30375.0 + p2 * (-369603.0 + p2 * (765765.0 - p2 * 425425.0)))
+        / 414720.0;
+    // s - z, computed without cancellation.
+    const double s_minus_z = n * n / (s + z);
+    return s_minus_z + n * (std::log(z) - std::log(n + s))
+        - 0.5 * std::log(2.0 * std::numbers::pi * s)
+        + std::log1p((u1 + (u2 + u3 / s) / s) / s);
+  }
+  // The power series, relative to its first term.
+  const double q = z * z / 4.0;
+  double term = 1.0;
+  double sum = 1.0;
+  for (int k = 1; k < z || term > 1e-17 * sum; ++k) {
+    term *= q / (k * (k + n));
+    sum += term;
+  }
+  return n * std::log(z / 2.0) - std::lgamma(n + 1.0) + std::log(sum) - z;
+}
+
 double Skellam::logp(const int&x) const {
-  return -mu1 - mu2 + (x / 2.0) * std::log(mu1 / mu2)
-      // TODO(thomaswc): Replace this with something more numerically stable.
-      + std::log(std::cyl_bessel_i(std::abs(x), 2.0 * std::sqrt(mu1 * mu2)));
+  const double sqrt_diff = std::sqrt(mu1) - std::sqrt(mu2);
+  return -sqrt_diff * sqrt_diff + (x / 2.0) * (std::log(mu1) - std::log(mu2))
+      + log_scaled_bessel_i(std::abs(double(x)),
+                            2.0 * std::sqrt(mu1) * std::sqrt(mu2));
+}
+
+// std::poisson_distribution never returns if mean exceeds the range of its
+// result type.
+double sample_poisson(double mean, std::mt19937* prng) {
+  if (mean < 1e9) {
+    std::poisson_distribution<long> d(mean);
+    return d(*prng);
+  }
+  std::normal_distribution<double> d(mean, std::sqrt(mean));
+  return std::round(d(*prng));
 }
 
 int Skellam::sample(std::mt19937* prng) {
-  std::poisson_distribution<int> d1(mu1);
-  std::poisson_distribution<int> d2(mu2);
-  return d1(*prng) - d2(*prng);
+  const double s1 = sample_poisson(mu1, prng);
+  const double s2 = sample_poisson(mu2, prng);
+  return std::clamp(s1 - s2, double(std::numeric_limits<int>::min()),
+                    double(std::numeric_limits<int>::max()));
 }
 
 void Skellam::transition_hyperparameters(std::mt19937* prng) {
-- 
2.43.0


From 38301f4ebf46905513a8734b97fddaab112e9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 10/61] fix: BigramStringEmission priced alignments in the
 wrong context

The break statements only left the switch, so every piece was priced in the
context of the first clean character of the string.
---
 cxx/emissions/bigram_string.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 85d92df..f6aec2a 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -57,9 +57,10 @@ std::string BigramStringEmission::category_to_char(int category) {
 
 double BigramStringEmission::log_prob_distance(const StrAlignment& alignment, double old_cost) {
   assert(!alignment.align_pieces.empty());
+  // The insertion context is the last clean character before the last piece.
   std::string insertion_context = "";
-  for (auto it = alignment.align_pieces.rbegin();
-       it != alignment.align_pieces.rend();
+  for (auto it = std::next(alignment.align_pieces.rbegin());
+       insertion_context.empty() && it != alignment.align_pieces.rend();
        ++it) {
     switch (it->index()) {
       case 0: // Deletion
-- 
2.43.0


From 17ac86475a57f238027d8da4af09e4825ab9f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 11/61] fix: BigramStringEmission weighted alignments by
 inverse probability

Costs are negative log probabilities; exp(cost) gave the least probable
alignment the most weight and overflowed to inf (and then NaN) for long
strings.
---
 cxx/emissions/bigram_string.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index f6aec2a..1d73605 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -129,9 +129,12 @@ void BigramStringEmission::incorporate(
                   },
                   &alignments);
 
+  // Turn all costs, which are negative log probabilities, into probabilities
+  // relative to the most probable alignment, which comes first.
+  const double min_cost = alignments[0].cost;
   double total_prob = 0.0;
   for (auto& a : alignments) {
-    a.cost = exp(a.cost);  // Turn all costs into non-log probabilities
+    a.cost = exp(min_cost - a.cost);
     total_prob += a.cost;
   }
 
-- 
2.43.0


From 583c74dc20dd1c8bfde6f5d1dcc78224ad7a97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 12/61] fix: BigramStringEmission scored its initial bias as
 data

An emission without data scored about -20000, so that a score punished every
new cluster although the probabilities used to propose one did not.
---
 cxx/emissions/bigram_string.cc | 4 +++-
 cxx/emissions/bigram_string.hh | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 1d73605..e043d99 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -33,6 +33,8 @@ BigramStringEmission::BigramStringEmission() {
     insertions[i].incorporate(0, initial_bias);
     substitutions[i].incorporate(i, initial_bias);
   }
+  // The initial bias is not data, so it should not be scored as data.
+  initial_logp_score = logp_score();
 }
 
 size_t BigramStringEmission::get_index(std::string current_char) {
@@ -197,7 +199,7 @@ double BigramStringEmission::logp(
 }
 
 double BigramStringEmission::logp_score() const {
-  double lp = 0.0;
+  double lp = -initial_logp_score;
   for (const auto &i : insertions) {
     lp += i.logp_score();
   }
diff --git a/cxx/emissions/bigram_string.hh b/cxx/emissions/bigram_string.hh
index 733649a..41e62e5 100644
--- a/cxx/emissions/bigram_string.hh
+++ b/cxx/emissions/bigram_string.hh
@@ -53,4 +53,7 @@ class BigramStringEmission : public Emission<std::string> {
   // This copy constructor is actually factually private, because it is only
   // intended to be used in the logp(x) method.
   BigramStringEmission(const BigramStringEmission& bse) = default;
+
+  // The score of the initial bias of the insertions and substitutions.
+  double initial_logp_score = 0.0;
 };
-- 
2.43.0


From 952fc93f39ed88c3b938f323ed48b8dd2c3a2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 13/61] fix: latent value updates ignored the new value in
 noisy relations

All candidate values were scored against the old value, the new value was
counted twice (and the old one removed twice) in the base relation's cluster,
and noisy values kept being paired with the old value. update_value of a noisy
relation also swapped the clean and the noisy value.
---
 cxx/noisy_relation.hh          |   2 +-
 cxx/transition_latent_value.hh | 108 +++++++++++++++------------------
 2 files changed, 50 insertions(+), 60 deletions(-)

diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index 408a5eb..55ba3cb 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -172,7 +172,7 @@ class NoisyRelation : public Relation<T> {
     assert(data.contains(items));
     data.at(items) = value;
     const ValueType& base_value = get_base_value(items);
-    emission_relation.update_value(items, std::make_pair(value, base_value));
+    emission_relation.update_value(items, std::make_pair(base_value, value));
   }
 
   const std::vector<Domain*>& get_domains() const { return domains; }
diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 7e7338e..0b04cb5 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -63,13 +63,18 @@ void transition_latent_value(
     }
   }
 
-  std::vector<double> logpx = latent_values_incremental_logp(
-      base_items, latent_value_candidates, noisy_observations, base_relation,
-      noisy_relations);
+  reincorporate_values(base_items, noisy_observations, base_relation,
+                       noisy_relations);
 
-  choose_and_incorporate_value(prng, base_items, latent_value_candidates, logpx,
-                               noisy_observations, base_relation,
-                               noisy_relations);
+  std::vector<double> logpx =
+      latent_values_logp(base_items, latent_value_candidates,
+                         noisy_observations, base_relation, noisy_relations);
+
+  // Sample a new latent value.
+  ValueType new_latent_value =
+      latent_value_candidates[log_choice(logpx, prng)];
+  set_latent_value(base_items, new_latent_value, noisy_observations,
+                   base_relation, noisy_relations);
 }
 
 // This function leaves base_relation and noisy_relations in an invalid state,
@@ -97,74 +102,59 @@ T_noisy_observations<ValueType> unincorporate_and_store_values(
 
 // This function assumes that the latent/noisy observations corresponding to
 // base_items have been removed from their clusters in
-// base_relation/noisy_relations (and returns base_relation/noisy_relations in
-// this state as well).
+// base_relation/noisy_relations. It puts them back, restoring
+// base_relation/noisy_relations to a valid state.
 template <typename ValueType>
-std::vector<double> latent_values_incremental_logp(
-    T_items base_items, std::vector<ValueType> latent_values,
-    T_noisy_observations<ValueType> noisy_observations,
+void reincorporate_values(
+    T_items base_items,
+    const T_noisy_observations<ValueType>& noisy_observations,
     Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
-  // Compute logp_score of the noisy relations without the observations of
-  // this attribute.
-  double baseline_logp_score = 0.;
+  base_relation->incorporate_to_cluster(base_items,
+                                        base_relation->get_value(base_items));
   for (auto [name, rel] : noisy_relations) {
-    baseline_logp_score += rel->logp_score();
-  }
-
-  std::vector<double> logpx;
-  for (const ValueType& v : latent_values) {
-    // Incorporate the latent/noisy values for this candidate.
-    base_relation->incorporate_to_cluster(base_items, v);
-    for (auto& [name, rel] : noisy_relations) {
-      for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-        rel->incorporate_to_cluster(items,
-                                    noisy_observations.at(name).at(items));
-      }
+    for (const auto& [items, v] : noisy_observations.at(name)) {
+      rel->incorporate_to_cluster(items, v);
     }
+  }
+}
 
-    // Compute the incremental logp_score of the noisy relations.
-    double candidate_logp_score = 0.;
-    for (const auto& [name, rel] : noisy_relations) {
-      candidate_logp_score += rel->logp_score();
-    }
-    logpx.push_back(candidate_logp_score - baseline_logp_score);
-
-    // Unincorporate the latent/noisy values for this candidate.
-    for (auto& [name, rel] : noisy_relations) {
-      for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-        rel->unincorporate_from_cluster(items);
-      }
+// Changes the latent value at base_items. The noisy values are unchanged, but
+// are incorporated as noisy versions of the new latent value.
+template <typename ValueType>
+void set_latent_value(
+    T_items base_items, ValueType new_latent_value,
+    const T_noisy_observations<ValueType>& noisy_observations,
+    Relation<ValueType>* base_relation,
+    std::unordered_map<std::string, NoisyRelation<ValueType>*>
+        noisy_relations) {
+  base_relation->update_value(base_items, new_latent_value);
+  for (auto [name, rel] : noisy_relations) {
+    for (const auto& [items, v] : noisy_observations.at(name)) {
+      rel->update_value(items, v);
     }
-    base_relation->unincorporate_from_cluster(base_items);
   }
-  return logpx;
 }
 
-// This function assumes observations corresponding to base_items have been
-// removed from their clusters in base_relation/noisy_relations. The function
-// incorporates new values to these clusters, restoring
-// base_relation/noisy_relations to a valid state.
+// Returns the logp_score of the noisy relations under each of latent_values.
+// Leaves the last of latent_values incorporated.
 template <typename ValueType>
-void choose_and_incorporate_value(
-    std::mt19937* prng, T_items base_items,
-    std::vector<ValueType> latent_value_candidates, std::vector<double> logpx,
-    T_noisy_observations<ValueType> noisy_observations,
+std::vector<double> latent_values_logp(
+    T_items base_items, const std::vector<ValueType>& latent_values,
+    const T_noisy_observations<ValueType>& noisy_observations,
     Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
-  // Sample a new latent value.
-  ValueType new_latent_value = latent_value_candidates[log_choice(logpx, prng)];
-
-  // Incorporate the new estimate of the latent value.
-  base_relation->incorporate_to_cluster(base_items, new_latent_value);
-  // Base relation needs to be updated manually since incorporate_to_cluster
-  // operates only on the underlying clusters.
-  base_relation->update_value(base_items, new_latent_value);
-  for (auto& [name, rel] : noisy_relations) {
-    for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-      rel->incorporate_to_cluster(items, noisy_observations.at(name).at(items));
+  std::vector<double> logpx;
+  for (ValueType v : latent_values) {
+    set_latent_value(base_items, v, noisy_observations, base_relation,
+                     noisy_relations);
+    double candidate_logp_score = 0.;
+    for (const auto& [name, rel] : noisy_relations) {
+      candidate_logp_score += rel->logp_score();
     }
+    logpx.push_back(candidate_logp_score);
   }
+  return logpx;
 }
-- 
2.43.0


From 36a0689595ae90571a45925bcd28ba284890ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 14/61] fix: latent values without noisy observations were
 proposed from nothing

---
 cxx/transition_latent_value.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 0b04cb5..59a8822 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -30,6 +30,17 @@ void transition_latent_value(
     std::mt19937* prng, T_items base_items, Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
+  // Without noisy observations there is nothing to learn the value from.
+  bool has_noisy_observations = false;
+  for (const auto& [name, rel] : noisy_relations) {
+    auto it = rel->base_to_noisy_items.find(base_items);
+    has_noisy_observations |=
+        it != rel->base_to_noisy_items.end() && !it->second.empty();
+  }
+  if (!has_noisy_observations) {
+    return;
+  }
+
   // We incorporate to/unincorporate from clusters themselves rather than
   // relations. Empty clusters are not deleted, because observations will be
   // re-incorporated to them.
-- 
2.43.0


From ebcc1e395b3b5f8657cdef5f19625758ef6d17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 15/61] fix: CRP weight of the first table ignored alpha

---
 cxx/distributions/crp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/crp.cc b/cxx/distributions/crp.cc
index 200c423..97a32a9 100644
--- a/cxx/distributions/crp.cc
+++ b/cxx/distributions/crp.cc
@@ -79,7 +79,7 @@ int CRP::max_table() const {
 std::map<int, double> CRP::tables_weights() const {
   std::map<int, double> dist;
   if (N == 0) {
-    dist[0] = 1;
+    dist[0] = alpha;
     return dist;
   }
   for (const auto& [table, customers] : tables) {
-- 
2.43.0


From a21b5120e78a9214334659ae780830058040857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 16/61] fix: entity moves were mispriced in relations that
 repeat a domain

---
 cxx/clean_relation.hh | 70 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/cxx/clean_relation.hh b/cxx/clean_relation.hh
index 0131c6f..70408af 100644
--- a/cxx/clean_relation.hh
+++ b/cxx/clean_relation.hh
@@ -335,20 +335,41 @@ class CleanRelation : public Relation<T> {
     return logp0 - logp1;
   }
 
-  double logp_gibbs_exact_variant(const Domain& domain, const T_item& item,
-                                  int table,
-                                  const std::vector<T_items>& items_list,
-                                  std::mt19937* prng) {
-    assert(!items_list.empty());
-    T_items z =
-        get_cluster_assignment_gibbs(items_list[0], domain, item, table);
+  // Like get_cluster_to_items_list, but for the clusters that the observations
+  // would belong to if item were moved to table.
+  std::unordered_map<std::vector<int> const, std::vector<T_items>,
+                     VectorIntHash>
+  get_cluster_to_items_list_gibbs(Domain const& domain, const T_item& item,
+                                  int table) {
+    std::unordered_map<const std::vector<int>, std::vector<T_items>,
+                       VectorIntHash>
+        m;
+    for (const T_items& items : data_r.at(domain.name).at(item)) {
+      m[get_cluster_assignment_gibbs(items, domain, item, table)].push_back(
+          items);
+    }
+    return m;
+  }
 
+  // Returns the change in score of the cluster at z when the observations in
+  // items_list join it.  If a domain is repeated, then other observations of
+  // the item that is being moved may be in that cluster currently; these are
+  // in leaving_items_list.
+  double logp_gibbs_exact_variant(
+      const std::vector<int>& z, const std::vector<T_items>& items_list,
+      const std::vector<T_items>& leaving_items_list, std::mt19937* prng) {
+    assert(!items_list.empty());
     Distribution<ValueType>* prior = make_new_distribution(prng);
-    Distribution<ValueType>* cluster =
-        clusters.contains(z) ? clusters.at(z) : prior;
+    Distribution<ValueType>* cluster = prior;
+    if (clusters.contains(z) &&
+        clusters.at(z)->N > std::ssize(leaving_items_list)) {
+      cluster = clusters.at(z);
+      for (const T_items& items : leaving_items_list) {
+        cluster->unincorporate(data.at(items));
+      }
+    }
     double logp0 = cluster->logp_score();
     for (const T_items& items : items_list) {
-      // assert(z == get_cluster_assignment_gibbs(items, domain, item, table));
       ValueType x = data.at(items);
       cluster->incorporate(x);
     }
@@ -361,6 +382,11 @@ class CleanRelation : public Relation<T> {
     // Approximate floating point equality.
     assert(abs(cluster->logp_score() - logp0) <=
            std::numeric_limits<double>::epsilon() * abs(logp0));
+    if (cluster != prior) {
+      for (const T_items& items : leaving_items_list) {
+        cluster->incorporate(data.at(items));
+      }
+    }
     delete prior;
     return logp1 - logp0;
   }
@@ -372,15 +398,22 @@ class CleanRelation : public Relation<T> {
     int table_current = domain.get_cluster_assignment(item);
     std::vector<double> logps;
     logps.reserve(tables.size());
-    double lp_cluster;
     for (const int& table : tables) {
       double lp_table = 0;
-      for (const auto& [z, items_list] : cluster_to_items_list) {
-        lp_cluster = (table == table_current)
-                         ? logp_gibbs_exact_current(items_list)
-                         : logp_gibbs_exact_variant(domain, item, table,
-                                                    items_list, prng);
-        lp_table += lp_cluster;
+      if (table == table_current) {
+        for (const auto& [z, items_list] : cluster_to_items_list) {
+          lp_table += logp_gibbs_exact_current(items_list);
+        }
+      } else {
+        for (const auto& [z, items_list] :
+             get_cluster_to_items_list_gibbs(domain, item, table)) {
+          auto it = cluster_to_items_list.find(z);
+          lp_table += logp_gibbs_exact_variant(
+              z, items_list,
+              it == cluster_to_items_list.end() ? std::vector<T_items>{}
+                                                : it->second,
+              prng);
+        }
       }
       logps.push_back(lp_table);
     }
@@ -465,6 +498,9 @@ class CleanRelation : public Relation<T> {
         delete clusters.at(z_prev);
         clusters.erase(z_prev);
       }
+    }
+    for (const T_items& items : data_r.at(domain.name).at(item)) {
+      ValueType x = data.at(items);
       // Move to desired cluster.
       T_items z_new = get_cluster_assignment_gibbs(items, domain, item, table);
       if (!clusters.contains(z_new)) {
-- 
2.43.0


From 7d3221ad419dd1081825dc87154070a1969dac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 17/61] fix: removing a relation from an IRM left its entities
 and noisy links behind

---
 cxx/irm.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 56401d0..5d1e013 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -387,15 +387,35 @@ void IRM::remove_relation(const std::string& name) {
   }
   for (const auto& d : ds) {
     domain_to_relations.at(d).erase(name);
-    // TODO: Remove r from domains.at(d)->items
     if (domain_to_relations.at(d).empty()) {
       domain_to_relations.erase(d);
       delete domains.at(d);
       domains.erase(d);
+      continue;
     }
+    // Remove the items that only the removed relation observed.
+    std::visit(
+        [&](auto r) {
+          for (const auto& [item, unused_observations] :
+               r->get_data_r().at(d)) {
+            if (!has_observation(d, item)) {
+              domains.at(d)->unincorporate(item);
+            }
+          }
+        },
+        relations.at(name));
   }
   std::visit([](auto r) { delete r; }, relations.at(name));
   relations.erase(name);
+  if (const auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(noisy->base_relation);
+    if (it != base_to_noisy_relations.end()) {
+      std::erase(it->second, name);
+      if (it->second.empty()) {
+        base_to_noisy_relations.erase(it);
+      }
+    }
+  }
   schema.erase(name);
 }
 
-- 
2.43.0


From 3f7ec57a7014bf912d59155d075939ab1c072d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 18/61] fix: HIRM::remove_relation left links from the base of
 a noisy relation

---
 cxx/hirm.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cxx/hirm.cc b/cxx/hirm.cc
index 71c1da7..3b643e1 100644
--- a/cxx/hirm.cc
+++ b/cxx/hirm.cc
@@ -272,6 +272,13 @@ void HIRM::add_relation(std::mt19937* prng, const std::string& name,
 // have the removed relation as a base. The NoisyRelations will be in an invalid
 // state after their base relation is removed.
 void HIRM::remove_relation(const std::string& name) {
+  if (const auto* noisy = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(noisy->base_relation);
+    std::erase(it->second, name);
+    if (it->second.empty()) {
+      base_to_noisy_relations.erase(it);
+    }
+  }
   schema.erase(name);
   int rc = relation_to_code.at(name);
   int table = crp.assignments.at(rc);
-- 
2.43.0


From 2bcc63391413bc7819cd16c82664ea32a4f087c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:07 +0000
Subject: [PATCH 19/61] fix: HIRM::sample_and_incorporate_relation returned
 rounded numbers

---
 cxx/hirm.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxx/hirm.cc b/cxx/hirm.cc
index 3b643e1..9bb654c 100644
--- a/cxx/hirm.cc
+++ b/cxx/hirm.cc
@@ -3,6 +3,8 @@
 
 #include "hirm.hh"
 
+#include <limits>
+
 HIRM::HIRM(const T_schema& _schema, std::mt19937* prng) {
   while (true) {
     bool added_a_relation = false;
@@ -362,6 +364,8 @@ std::string HIRM::sample_and_incorporate_relation(std::mt19937* prng,
         get_relation(r));
   }
   std::ostringstream ss;
+  // Print enough digits to recover the sampled value exactly.
+  ss.precision(std::numeric_limits<double>::max_digits10);
   std::visit([&](auto rel) { ss << rel->sample_and_incorporate(prng, items); },
              get_relation(r));
   return ss.str();
-- 
2.43.0


From e60c75cb922000b1433d41096badb5324c92b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 20/61] fix: malformed schema lines were read out of bounds or
 accepted

---
 cxx/util_io.cc | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 1bfa190..1229640 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -36,34 +36,33 @@ void verify_noisy_relation_domains(const T_schema& schema) {
   }
 }
 
-#define TYPE_CHECK(i, expected_type)                                        \
+#define LEN_CHECK(i)                                                        \
   if (i >= tokens.size()) {                                                 \
     printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
            line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
-  }                                                                         \
+    std::exit(1);                                                           \
+  }
+
+#define TYPE_CHECK(i, expected_type)                                        \
+  LEN_CHECK(i)                                                              \
   if (tokens[i].type != TokenType::expected_type) {                         \
     printf(                                                                 \
         "Error parsing schema line %s:  expected expected_type for %ld-th " \
         "token\n",                                                          \
         line.c_str(), i + 1);                                               \
-    printf("Got %s of type %d instead\n", tokens[0].val.c_str(),            \
-           (int)(tokens[0].type));                                          \
-    assert(false);                                                          \
+    printf("Got %s of type %d instead\n", tokens[i].val.c_str(),            \
+           (int)(tokens[i].type));                                          \
+    std::exit(1);                                                           \
   }
 
 #define VAL_CHECK(i, expected_val)                                          \
-  if (i >= tokens.size()) {                                                 \
-    printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
-           line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
-  }                                                                         \
+  LEN_CHECK(i)                                                              \
   if (tokens[i].val != expected_val) {                                      \
     printf("Error parsing schema line %s:  expected %s for %ld-th token\n", \
            line.c_str(), expected_val, i + 1);                              \
-    printf("Got %s of type %d instead\n", tokens[0].val.c_str(),            \
-           (int)(tokens[0].type));                                          \
-    assert(false);                                                          \
+    printf("Got %s of type %d instead\n", tokens[i].val.c_str(),            \
+           (int)(tokens[i].type));                                          \
+    std::exit(1);                                                           \
   }
 
 T_schema load_schema(const std::string& path) {
@@ -75,8 +74,9 @@ T_schema load_schema(const std::string& path) {
   std::vector<Token> tokens;
   while (std::getline(fp, line)) {
     tokens.clear();
-    [[maybe_unused]] bool ok = tokenize(line, &tokens);
-    assert(ok);
+    if (!tokenize(line, &tokens)) {
+      std::exit(1);
+    }
 
     if (tokens.empty()) {
       continue;
@@ -94,6 +94,7 @@ T_schema load_schema(const std::string& path) {
     std::string dist_name = tokens[2].val;
 
     i = 3;
+    LEN_CHECK(i);
     std::map<std::string, std::string> params;
     if (tokens[i].val == "[") {  // Handle parameters
       do {
@@ -104,6 +105,7 @@ T_schema load_schema(const std::string& path) {
         VAL_CHECK(i, "=");
         ++i;
 
+        LEN_CHECK(i + 1);
         params[param_name] = tokens[i++].val;
 
         if ((tokens[i].val != ",") && (tokens[i].val != "]")) {
@@ -129,12 +131,15 @@ T_schema load_schema(const std::string& path) {
 
     TYPE_CHECK(i, identifier);
 
+    LEN_CHECK(i + 1);
     if (tokens[i + 1].val == ";") {  // We have an emission!
       base_relation = tokens[i].val;
       i += 2;
     }
 
     do {
+      TYPE_CHECK(i, identifier);
+      LEN_CHECK(i + 1);
       domains.push_back(tokens[i++].val);
 
       if ((tokens[i].val != ",") && (tokens[i].val != ")")) {
@@ -147,6 +152,12 @@ T_schema load_schema(const std::string& path) {
       }
     } while (tokens[i++].val == ",");
 
+    if (i != tokens.size()) {
+      printf("Error parsing schema line %s: unexpected %s after ')'\n",
+             line.c_str(), tokens[i].val.c_str());
+      std::exit(1);
+    }
+
     if (base_relation.empty()) {  // Clean relation
       T_clean_relation relation;
       relation.domains = domains;
-- 
2.43.0


From deae96a8b736ed2672d9c2ca97e16dadbbc18fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 21/61] fix: noisy relations with an unknown or incompatible
 base were accepted

A base relation that does not exist made schema.at throw, a mismatch of the
domains was only checked with assertions on (and read past the end when the
base had more domains), and a base with another value type threw
bad_variant_access or worse later.
---
 cxx/util_io.cc | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 1229640..9fc039c 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -3,6 +3,7 @@
 
 #include "util_io.hh"
 
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <fstream>
@@ -16,19 +17,42 @@
 
 #include "util_parse.hh"
 
+ObservationEnum observation_type(const T_relation& relation) {
+  if (const auto* noisy = std::get_if<T_noisy_relation>(&relation)) {
+    return noisy->emission_spec.observation_type;
+  }
+  return std::get<T_clean_relation>(relation).distribution_spec.observation_type;
+}
+
 void verify_noisy_relation_domains(const T_schema& schema) {
   for (const auto& [relname, trelation] : schema) {
     std::visit(
         [&](const auto& trel) {
           using T = std::decay_t<decltype(trel)>;
           if constexpr (std::is_same_v<T, T_noisy_relation>) {
+            if (!schema.contains(trel.base_relation)) {
+              printf("Error in schema: unknown base relation %s of %s\n",
+                     trel.base_relation.c_str(), relname.c_str());
+              std::exit(1);
+            }
+            const T_relation& base = schema.at(trel.base_relation);
             std::vector<std::string> base_domains =
-                std::visit([&](const auto& brel) { return brel.domains; },
-                           schema.at(trel.base_relation));
-            for (size_t i = 0; i != base_domains.size(); ++i) {
-              assert(base_domains[i] == trel.domains[i] &&
-                     "The first domains of a noisy relation must be the same "
-                     "as the domains of the base relation.");
+                std::visit([](const auto& brel) { return brel.domains; }, base);
+            if (base_domains.size() > trel.domains.size() ||
+                !std::equal(base_domains.begin(), base_domains.end(),
+                            trel.domains.begin())) {
+              printf(
+                  "Error in schema: the first domains of noisy relation %s "
+                  "must be the same as the domains of its base relation.\n",
+                  relname.c_str());
+              std::exit(1);
+            }
+            if (observation_type(base) != trel.emission_spec.observation_type) {
+              printf(
+                  "Error in schema: the emission of noisy relation %s can not "
+                  "be used on the values of its base relation.\n",
+                  relname.c_str());
+              std::exit(1);
             }
           }
         },
-- 
2.43.0


From 0467a6b8dc83568222d464efc7e49ae08fd36dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 22/61] fix: numeric helpers on degenerate input

linspace of one point including the endpoint was NaN (0/0), product of no
lists and logsumexp of no weights read past the end of an empty vector.
---
 cxx/util_math.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/cxx/util_math.cc b/cxx/util_math.cc
index ea8dd54..16d7dc2 100644
--- a/cxx/util_math.cc
+++ b/cxx/util_math.cc
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <random>
 
 // http://matlab.izmiran.ru/help/techdoc/ref/betaln.html
@@ -14,7 +15,8 @@ double lbeta(double z, double w) {
 
 std::vector<double> linspace(double start, double stop, int num,
                              bool endpoint) {
-  double step = (stop - start) / (num - endpoint);
+  // A single point is the start, whether or not it is the endpoint as well.
+  double step = num == 1 ? 0.0 : (stop - start) / (num - endpoint);
   std::vector<double> v;
   for (int i = 0; i < num; i++) {
     v.push_back(start + step * i);
@@ -41,6 +43,9 @@ std::vector<double> log_normalize(const std::vector<double>& weights) {
 }
 
 double logsumexp(const std::vector<double>& weights) {
+  if (weights.empty()) {
+    return -std::numeric_limits<double>::infinity();
+  }
   // Get the max index.
   int max_index = std::distance(
       weights.cbegin(), std::max_element(weights.cbegin(), weights.cend()));
@@ -75,16 +80,9 @@ int log_choice(const std::vector<double>& weights, std::mt19937* prng) {
 std::vector<std::vector<int>> product(
     const std::vector<std::vector<int>>& lists) {
   // https://rosettacode.org/wiki/Cartesian_product_of_two_or_more_lists#C.2B.2B
-  std::vector<std::vector<int>> result;
-  for (const auto& l : lists) {
-    if (l.empty()) {
-      return result;
-    }
-  }
-  for (const int& e : lists[0]) {
-    result.push_back({e});
-  }
-  for (size_t i = 1; i < lists.size(); ++i) {
+  // The product of no lists holds the empty tuple only.
+  std::vector<std::vector<int>> result = {{}};
+  for (size_t i = 0; i < lists.size(); ++i) {
     std::vector<std::vector<int>> temp;
     for (std::vector<int>& e : result) {
       for (int f : lists[i]) {
-- 
2.43.0


From d5047157ebe074aae99c6577b2310293cc84ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 23/61] fix: reference indices of a class leaked into those of
 its descendants

With chains of three or more references, positions in the middle were said to
have the reference fields of earlier positions, so looking up the entities of
a relation threw out_of_range.
---
 cxx/gendb.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 8bfc2e0..ac6fad7 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -945,11 +945,10 @@ void GenDB::compute_reference_indices_for(const std::string& name) {
       const int offset = total_offset;
       total_offset += domains.at(cv->class_name).size();
       class_ref_indices[v.first] = total_offset - 1;
-      std::map<std::string, int> child_class_indices;
       if (class_reference_indices.contains(cv->class_name)) {
         for (const auto& [ind, ref] :
              class_reference_indices.at(cv->class_name)) {
-          std::map<std::string, int> class_ref_indices;
+          std::map<std::string, int> child_class_indices;
           for (const auto& [field_name, ref_ind] : ref) {
             child_class_indices[field_name] = ref_ind + offset;
           }
-- 
2.43.0


From df9fdd3bd817303d7644091dc28232ef04ec1084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 24/61] fix: observed clean record attributes had no reference
 indices

Their observations were stored at entity 0 of every referenced class instead
of the entities that the row refers to.
---
 cxx/gendb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index ac6fad7..89d7e64 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -999,6 +999,10 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
       cr.is_observed = true;
       (*tschema)[f.name] = cr;
       tschema->erase(base_relation_name);
+      if (class_reference_indices.contains(record_class.name)) {
+        relation_reference_indices[f.name] =
+            class_reference_indices.at(record_class.name);
+      }
     } else {
       T_noisy_relation tnr =
           get_emission_relation(std::get<ScalarVar>(last_var.spec),
-- 
2.43.0


From 37748f1d8c0f9ac6e8cf29192207c929ee7cb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 25/61] fix: with final emissions only, references along the
 query path were lost

The indices of the path from the record class were overwritten by those of
the base relation, so rows were stored at entity 0 of the classes in between.
---
 cxx/gendb.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 89d7e64..af847d1 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -1031,11 +1031,12 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
         std::get<ScalarVar>(last_var.spec), noisy_domains, base_relation_name);
     tnr.is_observed = true;
     (*tschema)[f.name] = tnr;
-    // If the record class is the only class in the schema, there will be
-    // no entries in `relation_reference_indices`.
+    // The leftmost domains are those of the base relation, so it shares its
+    // reference indices, if it has any.
     if (relation_reference_indices.contains(base_relation_name)) {
-      relation_reference_indices[f.name] =
-          relation_reference_indices.at(base_relation_name);
+      const auto& base_inds = relation_reference_indices.at(base_relation_name);
+      relation_reference_indices[f.name].insert(base_inds.cbegin(),
+                                                base_inds.cend());
     }
     return;
   }
-- 
2.43.0


From 519e8b39cb7bb08ad8081bce9cdd02979a52f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 26/61] fix: noisy record attributes recursed until the stack
 overflowed

With record_class_is_clean = false, sampling the latent values of a row also
sampled its observed relations, whose base values belong to the row again.
---
 cxx/gendb.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index af847d1..9ec1f4e 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -202,6 +202,11 @@ void GenDB::sample_and_incorporate_for_class(std::mt19937* prng,
                                              const std::string& class_name,
                                              const T_item& item) {
   for (const std::string& rel_name : class_to_relations.at(class_name)) {
+    // Observed relations only hold data that was observed.
+    if (std::visit([](const auto& tr) { return tr.is_observed; },
+                   hirm->schema.at(rel_name))) {
+      continue;
+    }
     sample_class_ancestors(prng, class_name, item);
     const std::vector<std::string>& domains = std::visit(
         [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
-- 
2.43.0


From 3b9d78e6272a749041e3082cb3a9e4c7fc1e1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 27/61] fix: references of removed entities stayed in the
 entity clusters

unincorporate_from_entity_cluster recursed when the entity was still referred
to instead of when it was not, so entities that nothing refers to kept their
references, and live entities lost theirs.
---
 cxx/gendb.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 9ec1f4e..6885837 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -559,6 +559,10 @@ double GenDB::unincorporate_from_entity_cluster(
     if (is_ancestor_reference) {
       logp_adj += crp.logp(ref_item);
     }
+  } else {
+    if (is_ancestor_reference) {
+      logp_adj += crp.logp_new_table();
+    }
 
     for (const auto& [name, var] : schema.classes.at(ref_class).vars) {
       if (std::holds_alternative<ClassVar>(var.spec)) {
@@ -569,10 +573,6 @@ double GenDB::unincorporate_from_entity_cluster(
                                                       unincorporated);
       }
     }
-  } else {
-    if (is_ancestor_reference) {
-      logp_adj += crp.logp_new_table();
-    }
   }
   return logp_adj;
 }
-- 
2.43.0


From 4e78707830400588be951521e0849e3cade2ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 28/61] fix: entities of classes without attributes could not
 be moved

class_to_relations had no entry for such classes, so at() threw.
---
 cxx/gendb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 6885837..6127ba0 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -31,6 +31,7 @@ GenDB::GenDB(std::mt19937* prng, const PCleanSchema& schema_,
   for (const auto& [class_name, unused_class] : schema.classes) {
     entity_crps[class_name] = CRP();
     reference_values[class_name];
+    class_to_relations[class_name];
   }
   for (const auto& [rel_name, trel] : hirm->schema) {
     const std::vector<std::string>& domains =
-- 
2.43.0


From 838142e3c8053b70cdc8a65c7895bd23091b8119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 29/61] fix: moving an entity left stale data behind and
 ignored shared base values

---
 cxx/gendb.cc | 65 +++++++++++++++++++++++++++++++++-------------------
 cxx/gendb.hh |  4 +++-
 2 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 6127ba0..e437748 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -3,10 +3,13 @@
 
 #include "gendb.hh"
 
+#include <functional>
 #include <map>
 #include <random>
+#include <set>
 #include <string>
 #include <variant>
+#include <vector>
 
 #include "distributions/crp.hh"
 #include "hirm.hh"
@@ -295,16 +298,20 @@ void GenDB::get_relation_items(const std::string& rel_name, const int ind,
 std::map<std::string, std::vector<size_t>> GenDB::get_domain_inds(
     const std::string& class_name, const std::string& ref_field) {
   std::map<std::string, std::vector<size_t>> domain_inds;
-  for (const auto& [rel_name, query_field] : schema.query.fields) {
+  for (const auto& [rel_name, trel] : hirm->schema) {
     // Find relations that involve both the class and its reference field
     // (exclude relations that include the class only because it's a node in
     // a noisy observation path of something otherwise unrelated to the
     // observed attribute.)
-    std::vector<std::string> domains = std::visit(
-        [&](auto& trel) { return trel.domains; }, hirm->schema.at(rel_name));
-    for (size_t i = 0; i < domains.size(); ++i) {
-      if (domains[i] == class_name &&
-          relation_reference_indices.at(rel_name).at(i).contains(ref_field)) {
+    if (!relation_reference_indices.contains(rel_name)) {
+      continue;
+    }
+    for (const auto& [i, refs] : relation_reference_indices.at(rel_name)) {
+      const std::vector<std::string>& domains =
+          std::visit([](const auto& t) -> const std::vector<std::string>& {
+            return t.domains;
+          }, trel);
+      if (domains.at(i) == class_name && refs.contains(ref_field)) {
         domain_inds[rel_name].push_back(i);
       }
     }
@@ -325,7 +332,11 @@ double GenDB::unincorporate_reference(
     std::map<std::tuple<int, std::string, T_item>, int>&
         unincorporated_from_domains) {
   double logp_relations = 0.;
-  for (auto [rel_name, inds] : domain_inds) {
+  for (const std::string& rel_name : relations_leaves_first()) {
+    if (!domain_inds.contains(rel_name)) {
+      continue;
+    }
+    const std::vector<size_t>& inds = domain_inds.at(rel_name);
     RelationVariant r = hirm->get_relation(rel_name);
     bool data_r_contains_item = std::visit(
         [&](auto rel) {
@@ -344,7 +355,7 @@ double GenDB::unincorporate_reference(
           if (item[ind] == class_item) {
             auto f = [&](auto rel) {
               logp_relations += unincorporate_reference_relation(
-                  rel, rel_name, item, ind, stored_value_map);
+                  rel, rel_name, item, stored_value_map);
             };
             std::visit(f, r);
           }
@@ -368,17 +379,14 @@ double GenDB::unincorporate_reference(
   return logp_relations + logp_domain_cluster;
 }
 
-// Recursively unincorporates from base relations and stores values.
+// Unincorporates items from a relation and stores the value.
 template <typename T>
 double GenDB::unincorporate_reference_relation(
     Relation<T>* rel, const std::string& rel_name, const T_items& items,
-    const size_t ind,
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than or equal to the number of domains.
-  if (!rel->get_data().contains(items) || ind >= items.size()) {
+  if (!rel->get_data().contains(items)) {
     return 0.;
   }
 
@@ -391,18 +399,29 @@ double GenDB::unincorporate_reference_relation(
   double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
   // Clean up data but leave empty clusters in case they are re-populated later.
   rel->cleanup_data(items);
+  return logp_rel;
+}
 
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation(
-        base_rel_t, t_rel->base_relation, base_items, ind, stored_value_map);
+// Returns the names of all relations, with noisy relations before their base
+// relations, since noisy data can only be scored while its base values exist.
+std::vector<std::string> GenDB::relations_leaves_first() const {
+  std::vector<std::string> names;
+  std::set<std::string> done;
+  std::function<void(const std::string&)> visit = [&](const std::string& name) {
+    if (!done.insert(name).second) {
+      return;
+    }
+    if (hirm->base_to_noisy_relations.contains(name)) {
+      for (const std::string& noisy : hirm->base_to_noisy_relations.at(name)) {
+        visit(noisy);
+      }
+    }
+    names.push_back(name);
+  };
+  for (const auto& [name, trel] : hirm->schema) {
+    visit(name);
   }
-  return logp_rel;
+  return names;
 }
 
 // Returns a copy of stored_values, with the items updated to associate
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 9485974..798303c 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -92,11 +92,13 @@ class GenDB {
   template <typename T>
   double unincorporate_reference_relation(
       Relation<T>* rel, const std::string& rel_name, const T_items& items,
-      const size_t ind,
       std::map<std::string,
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_value_map);
 
+  // Returns the names of all relations, noisy relations before their bases.
+  std::vector<std::string> relations_leaves_first() const;
+
   // Recursively unincorporates from base relations and stores values. Returns
   // the logp of the unincorporated values.
   template <typename T>
-- 
2.43.0


From e958776ec30bcdb8680d4382e2618fda2a9f5bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 30/61] fix: moving the last reference to an entity left its
 ancestors and their data behind

---
 cxx/gendb.cc | 196 ++++++++++++++++++++++++++-------------------------
 cxx/gendb.hh |  16 +----
 2 files changed, 102 insertions(+), 110 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index e437748..d653fef 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -3,6 +3,7 @@
 
 #include "gendb.hh"
 
+#include <algorithm>
 #include <functional>
 #include <map>
 #include <random>
@@ -464,36 +465,42 @@ void GenDB::incorporate_reference(
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_values) {
-  for (const auto& [rel_name, m] : stored_values) {
-    auto f = [&](auto rel) {
-      incorporate_reference_relation(prng, rel, rel_name, stored_values);
-    };
-    std::visit(f, hirm->get_relation(rel_name));
+  // Noisy values are incorporated after the base values they depend on.
+  std::vector<std::string> rel_names = relations_leaves_first();
+  std::reverse(rel_names.begin(), rel_names.end());
+  for (const std::string& rel_name : rel_names) {
+    if (stored_values.contains(rel_name)) {
+      auto f = [&](auto rel) {
+        incorporate_reference_relation(prng, rel, rel_name,
+                                       stored_values.at(rel_name));
+      };
+      std::visit(f, hirm->get_relation(rel_name));
+    }
   }
 }
 
-// Recursively incorporates the items and values of stored_values for a single
-// relation (and its base relations).
+// Incorporates the items and values of a single relation. If the relation is
+// noisy, base values that don't exist yet are sampled.
 template <typename T>
 void GenDB::incorporate_reference_relation(
     std::mt19937* prng, Relation<T>* rel, const std::string& rel_name,
-    std::map<std::string,
-             std::unordered_map<T_items, ObservationVariant, H_items>>&
+    const std::unordered_map<T_items, ObservationVariant, H_items>&
         stored_values) {
-  if (const T_noisy_relation* trel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    if (stored_values.contains(trel->base_relation)) {
-      NoisyRelation<T>* noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-      incorporate_reference_relation(prng, noisy_rel->base_relation,
-                                     trel->base_relation, stored_values);
+  const T_noisy_relation* trel =
+      std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name));
+  for (const auto& [items, value] : stored_values) {
+    if (rel->get_data().contains(items)) {
+      continue;
     }
-  }
-  for (const auto& [items, value] : stored_values.at(rel_name)) {
-    // A base relation may have already been reincorporated by a different noisy
-    // relation.
-    if (!rel->get_data().contains(items)) {
-      rel->incorporate(prng, items, std::get<T>(value));
+    if (trel != nullptr) {
+      NoisyRelation<T>* noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
+      T_items base_items = noisy_rel->get_base_items(items);
+      if (!noisy_rel->base_relation->get_data().contains(base_items)) {
+        hirm->sample_and_incorporate_relation(prng, trel->base_relation,
+                                              base_items);
+      }
     }
+    rel->incorporate(prng, items, std::get<T>(value));
   }
 }
 
@@ -514,30 +521,28 @@ double GenDB::unincorporate_from_domain_cluster_relation(
   const std::string& ref_class = domains.at(ind);
   Domain* domain = irm->domains.at(ref_class);
 
-  // Return if:
-  //   - we have already unincorporated this entity from the IRM domain cluster
-  //   - we shouldn't unincorporate it because it still exists in the data.
-  //   - we can't because it wasn't ever in the data and is therefore not in the
-  //   cluster.
-  if (unincorporated.contains({irm_code, ref_class, item}) ||
-      irm->has_observation(ref_class, item) || !domain->items.contains(item)) {
-    return logp_adj;
-  }
-
-  CRP& crp = domain->crp;
-  int cluster_id = crp.assignments.at(item);
-  domain->unincorporate(item);
-  if (crp.tables.contains(cluster_id)) {
-    logp_adj += crp.logp(cluster_id);
-  } else {
-    logp_adj += crp.logp_new_table();
+  // The entity is only unincorporated if it is in a cluster (which it isn't if
+  // it was never in the data, or if it was already unincorporated) and if it no
+  // longer exists in the data.
+  if (domain->items.contains(item) && !irm->has_observation(ref_class, item)) {
+    CRP& crp = domain->crp;
+    int cluster_id = crp.assignments.at(item);
+    domain->unincorporate(item);
+    if (crp.tables.contains(cluster_id)) {
+      logp_adj += crp.logp(cluster_id);
+    } else {
+      logp_adj += crp.logp_new_table();
+    }
+    unincorporated[{irm_code, ref_class, item}] = cluster_id;
   }
-  unincorporated[{irm_code, ref_class, item}] = cluster_id;
 
   // Recursively check and unincorporate the entity's ancestors.
   if (relation_reference_indices.contains(r) &&
       relation_reference_indices.at(r).contains(ind)) {
     for (auto [name, r_ind] : relation_reference_indices.at(r).at(ind)) {
+      if (!reference_values.at(ref_class).contains({name, item})) {
+        continue;
+      }
       int ref_item = reference_values.at(ref_class).at({name, item});
       logp_adj += unincorporate_from_domain_cluster_relation(r, ref_item, r_ind,
                                                              unincorporated);
@@ -597,46 +602,6 @@ double GenDB::unincorporate_from_entity_cluster(
   return logp_adj;
 }
 
-// Recursively unincorporates from base relations and stores values.
-template <typename T>
-double GenDB::unincorporate_reference_relation_singleton(
-    Relation<T>* rel, const std::string& rel_name, const T_items& items,
-    std::map<std::string,
-             std::unordered_map<T_items, ObservationVariant, H_items>>&
-        stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than the number of domains.
-  const std::vector<std::string>& domains = std::visit(
-      [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
-  if (!rel->get_data().contains(items) ||
-      entity_crps.at(domains.back()).tables.contains(items.back())) {
-    return 0.;
-  }
-
-  // Store the items/value and unincorporate them.
-  T value = rel->get_value(items);
-  stored_value_map[rel_name][items] = value;
-
-  rel->unincorporate_from_cluster(items);
-  // Unused prng, since the cluster should exist.
-  std::mt19937* prng = nullptr;
-  double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
-  // Clean up data but leave empty clusters in case they are re-populated later.
-  rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation_singleton(
-        base_rel_t, t_rel->base_relation, base_items, stored_value_map);
-  }
-  return logp_rel;
-}
-
 // When unincorporating the only reference to a given entity, we additionally
 // need to unincorporate data from relations corresponding to attributes of the
 // entity's class (or noisy observations of ancestor attributes by the entity's
@@ -658,26 +623,63 @@ double GenDB::unincorporate_singleton(
       unincorporate_from_entity_cluster(class_name, ref_field, class_item,
                                         unincorporated_from_entity_crps, false);
 
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += std::visit(
-        [&](auto r) {
-          return unincorporate_reference_relation_singleton(r, rel, base_items,
-                                                            stored_value_map);
-        },
-        hirm->get_relation(rel));
+  // Collect the entities that are no longer referred to, i.e. the entity
+  // itself and any of its ancestors that only it referred to.
+  std::map<std::string, std::set<int>> dead_entities;
+  if (!entity_crps.at(ref_class).tables.contains(ref_val)) {
+    dead_entities[ref_class].insert(ref_val);
+  }
+  for (const auto& [reference, entity] : unincorporated_from_entity_crps) {
+    const auto& [entity_class, field, unused_item] = reference;
+    const std::string& ancestor_class =
+        std::get<ClassVar>(schema.classes.at(entity_class).vars.at(field).spec)
+            .class_name;
+    if (!entity_crps.at(ancestor_class).tables.contains(entity)) {
+      dead_entities[ancestor_class].insert(entity);
+    }
   }
-  for (auto& rel : class_to_relations.at(ref_class)) {
+
+  // Remove the attributes of these entities, noisy relations first.
+  const std::vector<std::string> rel_names = relations_leaves_first();
+  for (const std::string& rel_name : rel_names) {
+    const std::string& domain = std::visit(
+        [](const auto& tr) -> const std::string& { return tr.domains.back(); },
+        hirm->schema.at(rel_name));
+    if (!dead_entities.contains(domain)) {
+      continue;
+    }
+    for (int entity : dead_entities.at(domain)) {
+      logp_refclass += std::visit(
+          [&](auto rel) {
+            double logp = 0.;
+            if (!rel->get_data_r().at(domain).contains(entity)) {
+              return logp;
+            }
+            // Copy the items, which are removed while looping over them.
+            const auto rel_items = rel->get_data_r().at(domain).at(entity);
+            for (const T_items& items : rel_items) {
+              if (items.back() == entity) {
+                logp += unincorporate_reference_relation(rel, rel_name, items,
+                                                         stored_value_map);
+              }
+            }
+            return logp;
+          },
+          hirm->get_relation(rel_name));
+    }
+  }
+  for (const std::string& rel_name : rel_names) {
     const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += unincorporate_from_domain_cluster_relation(
-        rel, base_items.back(), base_items.size() - 1,
-        unincorporated_from_domains);
+        std::visit([](const auto& tr) -> const std::vector<std::string>& {
+          return tr.domains;
+        }, hirm->schema.at(rel_name));
+    if (!dead_entities.contains(domains.back())) {
+      continue;
+    }
+    for (int entity : dead_entities.at(domains.back())) {
+      logp_refclass += unincorporate_from_domain_cluster_relation(
+          rel_name, entity, domains.size() - 1, unincorporated_from_domains);
+    }
   }
   return logp_refclass;
 }
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 798303c..c69b05e 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -99,15 +99,6 @@ class GenDB {
   // Returns the names of all relations, noisy relations before their bases.
   std::vector<std::string> relations_leaves_first() const;
 
-  // Recursively unincorporates from base relations and stores values. Returns
-  // the logp of the unincorporated values.
-  template <typename T>
-  double unincorporate_reference_relation_singleton(
-      Relation<T>* rel, const std::string& rel_name, const T_items& items,
-      std::map<std::string,
-               std::unordered_map<T_items, ObservationVariant, H_items>>&
-          stored_value_map);
-
   // Returns a copy of stored_values, with the items updated to associate
   // class_name.ref_field at index class_item with new_ref_val. This update is
   // recursive, such that the reference fields of the class corresponding to
@@ -132,13 +123,12 @@ class GenDB {
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_values);
 
-  // Recursively incorporates the items and values of stored_values for a single
-  // relation (and its base relations).
+  // Incorporates the items and values of a single relation. If the relation is
+  // noisy, base values that don't exist yet are sampled.
   template <typename T>
   void incorporate_reference_relation(
       std::mt19937* prng, Relation<T>* rel, const std::string& rel_name,
-      std::map<std::string,
-               std::unordered_map<T_items, ObservationVariant, H_items>>&
+      const std::unordered_map<T_items, ObservationVariant, H_items>&
           stored_values);
 
   // Returns a unique identifier for a reference value.
-- 
2.43.0


From 54905336a0aca7ef08b91de29f2510b0e8c41edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 31/61] fix: references that aren't populated yet broke entity
 moves

---
 cxx/gendb.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index d653fef..b8faae1 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -590,7 +590,9 @@ double GenDB::unincorporate_from_entity_cluster(
     }
 
     for (const auto& [name, var] : schema.classes.at(ref_class).vars) {
-      if (std::holds_alternative<ClassVar>(var.spec)) {
+      // References are only populated when they are needed.
+      if (std::holds_alternative<ClassVar>(var.spec) &&
+          reference_values.at(ref_class).contains({name, ref_item})) {
         // If this reference value was the only one in its entity_crp table,
         // then the entity is removed from its class and we need to
         // recursively unincorporate *its* reference values.
@@ -767,14 +769,14 @@ void GenDB::transition_reference(std::mt19937* prng,
       continue;
     }
 
+    // Sample the references of the entity that aren't populated yet, which are
+    // all of them if it is previously unseen. Update reference_values and
+    // entity_crps.
+    T_items unused_base_items = sample_class_ancestors(prng, ref_class, table);
+
     // Handle the singleton entity, if it was not init_refval (i.e. it is
     // previously unseen).
     if (table == singleton_entity) {
-      // Sample and incorporate a new row into the ref_class table. Update
-      // reference_values and entity_crps.
-      T_items unused_base_items =
-          sample_class_ancestors(prng, ref_class, table);
-
       // Sample and incorporate values into the relations corresponding to
       // the reference class. This may also incorporate new values into the IRM
       // domain clusters.
-- 
2.43.0


From 911c78561a8392fffcd355a3300f5e472037d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 32/61] fix: undoing fractional observations left negative
 category counts

---
 cxx/distributions/dirichlet_categorical.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index 8fb61e3..d189f39 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -11,6 +11,9 @@
 
 void DirichletCategorical::incorporate(const int& x, double weight) {
   assert(x >= 0 && x < std::ssize(counts));
+  // Never remove more than there is, which undoing a fractionally weighted
+  // observation could do: a negative count has no probability.
+  weight = std::max(weight, -counts[size_t(x)]);
   counts[size_t(x)] += weight;
   N += weight;
 }
-- 
2.43.0


From 8d4866ce687729285b8804ed8a536e14f9bdefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 33/61] fix: references of different entities could get the
 same id

---
 cxx/gendb.cc | 9 ++++-----
 cxx/gendb.hh | 4 ++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index b8faae1..d96342e 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -149,15 +149,14 @@ T_items GenDB::sample_entities_relation(
   return items;
 }
 
-// Makes a unique hash for a reference (to be incorporated as an item into the
+// Makes a unique id for a reference (to be incorporated as an item into the
 // entity crp), based on the reference's class, field, and row id.
 int GenDB::get_reference_id(const std::string& class_name,
                             const std::string& ref_field,
                             const int class_item) {
-  std::stringstream new_id_str;
-  std::string sep = " ";  // Spaces are disallowed in class/variable names.
-  new_id_str << class_name << sep << class_item << sep << ref_field;
-  return std::hash<std::string>{}(new_id_str.str());
+  return reference_ids
+      .try_emplace({class_name, ref_field, class_item}, reference_ids.size())
+      .first->second;
 }
 
 // Takes a sample from ref_class's entity CRP, incorporates it into the CRP,
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index c69b05e..1e9f78e 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -228,6 +228,10 @@ class GenDB {
   std::map<std::string, std::map<std::pair<std::string, int>, int>>
       reference_values;
 
+  // Maps class name, reference field name and primary key to the ID of the
+  // reference value.
+  std::map<std::tuple<std::string, std::string, int>, int> reference_ids;
+
   HIRM* hirm;  // Owned by the GenDB instance.
 
   // Map keys are class names. Values are CRPs for latent entities, where the
-- 
2.43.0


From f0f3ee1845eee3f2ab32f08862b14575f7e4a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 34/61] fix: populating candidate entities during a move could
 revive a removed one

---
 cxx/gendb.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index d96342e..25d6f08 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -701,6 +701,15 @@ void GenDB::transition_reference(std::mt19937* prng,
     return;
   }
 
+  // Sample the references of the candidate entities that aren't populated yet.
+  // This is done while all entities are live, so that an entity that is sampled
+  // can't be confused with one that is removed below.
+  for (const auto& [table, unused_weight] : crp_dist) {
+    if (entity_crps.at(ref_class).tables.contains(table)) {
+      sample_class_ancestors(prng, ref_class, table);
+    }
+  }
+
   // For each relation, get the indices (in the items vector) of the reference
   // value being transitioned.
   std::map<std::string, std::vector<size_t>> domain_inds =
@@ -768,14 +777,14 @@ void GenDB::transition_reference(std::mt19937* prng,
       continue;
     }
 
-    // Sample the references of the entity that aren't populated yet, which are
-    // all of them if it is previously unseen. Update reference_values and
-    // entity_crps.
-    T_items unused_base_items = sample_class_ancestors(prng, ref_class, table);
-
     // Handle the singleton entity, if it was not init_refval (i.e. it is
     // previously unseen).
     if (table == singleton_entity) {
+      // Sample and incorporate a new row into the ref_class table. Update
+      // reference_values and entity_crps.
+      T_items unused_base_items =
+          sample_class_ancestors(prng, ref_class, table);
+
       // Sample and incorporate values into the relations corresponding to
       // the reference class. This may also incorporate new values into the IRM
       // domain clusters.
-- 
2.43.0


From b336815a0a9f432588d49c6b5964c4fe6b426e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 35/61] fix: ZeroMeanNormal sampled infinite values

---
 cxx/distributions/zero_mean_normal.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxx/distributions/zero_mean_normal.cc b/cxx/distributions/zero_mean_normal.cc
index 10a9a9b..03e93c2 100644
--- a/cxx/distributions/zero_mean_normal.cc
+++ b/cxx/distributions/zero_mean_normal.cc
@@ -3,6 +3,7 @@
 
 #include "zero_mean_normal.hh"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <numbers>
@@ -51,7 +52,10 @@ double ZeroMeanNormal::sample(std::mt19937* prng) {
   double beta_n = beta + var * N;
   double t_variance = beta_n / alpha_n;
   std::student_t_distribution<double> d(2.0 * alpha_n);
-  return d(*prng) * sqrt(t_variance);
+  // For small alpha_n the tails are so heavy that most draws would overflow.
+  // Bound them such that the model can still hold the square of a draw.
+  constexpr double kMaxSample = 1e100;
+  return std::clamp(d(*prng) * sqrt(t_variance), -kMaxSample, kMaxSample);
 }
 
 #define ALPHA_GRID \
-- 
2.43.0


From 0c0a90859d599be8757285c5787c934d627a91fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 36/61] fix: tokenizer passed negative characters to ctype and
 read NUL as a symbol

---
 cxx/util_parse.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cxx/util_parse.cc b/cxx/util_parse.cc
index 3591d13..dca941c 100644
--- a/cxx/util_parse.cc
+++ b/cxx/util_parse.cc
@@ -12,12 +12,13 @@ bool tokenize(std::string line, std::vector<Token>* tokens) {
       return true;
     }
 
-    if (std::isspace(c)) {
+    if (std::isspace((unsigned char)c)) {
       continue;
     }
 
     Token t;
-    if (std::strchr(SYMBOL_CHARS, c) != NULL) {  // Symbols
+    // strchr also finds the terminating NUL.
+    if ((c != '\0') && (std::strchr(SYMBOL_CHARS, c) != NULL)) {  // Symbols
       t.type = TokenType::symbol;
       t.val += c;
     } else if ((c == '"') || (c == '\'')) {  // Strings
@@ -31,28 +32,28 @@ bool tokenize(std::string line, std::vector<Token>* tokens) {
         t.val += sc;
       }
       if (sc != c) {
-        printf("Unclosed string token while parsing line %s", line.c_str());
+        printf("Unclosed string token while parsing line %s\n", line.c_str());
         return false;
       }
-    } else if (isdigit(c) || (c == '.')) {  // Numbers
+    } else if (isdigit((unsigned char)c) || (c == '.')) {  // Numbers
       // TODO(thomaswc): Handle exponential notation like "1.2e-5".
       t.type = TokenType::number;
       t.val += c;
       while (i < line.length()) {
         c = line[i];
-        bool still_numeric = isdigit(c) || (c == '.') || (c == '_');
+        bool still_numeric = isdigit((unsigned char)c) || (c == '.') || (c == '_');
         if (!still_numeric) {
           break;
         }
         i++;
         t.val += c;
       }
-    } else if (isalnum(c) || (c == '_')) {  // Identifiers
+    } else if (isalnum((unsigned char)c) || (c == '_')) {  // Identifiers
       t.type = TokenType::identifier;
       t.val += c;
       while (i < line.length()) {
         c = line[i];
-        bool still_id = isalnum(c) || (c == '_');
+        bool still_id = isalnum((unsigned char)c) || (c == '_');
         if (!still_id) {
           break;
         }
-- 
2.43.0


From 9990907b61aeaee45b9c332c00858a8cdf2c2956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 37/61] fix: malformed data-cleaning schema lines were read out
 of bounds or accepted

---
 cxx/pclean/io.cc | 78 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index c4e0325..1b9101c 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -23,8 +23,17 @@ bool read_schema_file(const std::string& path, PCleanSchema* schema) {
 }
 
 
+static bool is_symbol(const Token& token, const std::string& symbol) {
+  return (token.type == TokenType::symbol) && (token.val == symbol);
+}
+
 bool resolve_variable_definition(const std::vector<Token> &tokens,
                                  PCleanVariable* pcv) {
+  if (tokens[2].type != TokenType::identifier) {
+    printf("Error parsing variable %s -- expected a class or attribute name but got %s\n", tokens[0].val.c_str(), tokens[2].val.c_str());
+    return false;
+  }
+
   if ((tokens.size() == 3) && (std::isupper(tokens[2].val[0]))) {
     // Class variable
     ClassVar cv;
@@ -35,19 +44,35 @@ bool resolve_variable_definition(const std::vector<Token> &tokens,
 
   ScalarVar dv;
   dv.joint_name = tokens[2].val;
+  if ((tokens.size() > 3) &&
+      ((tokens.size() == 4) || !is_symbol(tokens[3], "(") ||
+       !is_symbol(tokens.back(), ")"))) {
+    printf("Error parsing parameters of scalar variable %s -- expected them to be in parentheses\n", tokens[0].val.c_str());
+    return false;
+  }
   for (size_t i = 4; i < tokens.size() - 1; i += 4) {
-    if (i + 3 > tokens.size()) {
+    if (i + 3 >= tokens.size()) {
       printf("Error parsing parameters of scalar variable %s -- too few tokens\n", tokens[0].val.c_str());
       printf("At token %ld of %ld\n", i, tokens.size());
       return false;
     }
-    if (tokens[i+1].val != "=") {
+    if (tokens[i].type != TokenType::identifier) {
+      printf("Error parsing parameters of scalar variable %s -- expected a parameter name but got %s\n", tokens[0].val.c_str(), tokens[i].val.c_str());
+      return false;
+    }
+    if (!is_symbol(tokens[i+1], "=")) {
       printf("Error parsing parameters of scalar variable %s -- expected '=' but got %s\n", tokens[0].val.c_str(), tokens[i+1].val.c_str());
       return false;
     }
-    std::string s = tokens[i+3].val;
-    if ((s != ",") && (s != ")")) {
-      printf("Error parsing parameters of scalar variable %s -- expected ',' or '] but got %s'\n", tokens[0].val.c_str(), s.c_str());
+    // The last parameter is followed by ')', all others by ','.
+    const bool is_last = (i + 4 == tokens.size());
+    if (!is_symbol(tokens[i+3], is_last ? ")" : ",") ||
+        (i + 5 == tokens.size())) {
+      printf("Error parsing parameters of scalar variable %s -- expected ',' or ')' but got '%s'\n", tokens[0].val.c_str(), tokens[i+3].val.c_str());
+      return false;
+    }
+    if (dv.params.contains(tokens[i].val)) {
+      printf("Error parsing parameters of scalar variable %s -- %s is given twice\n", tokens[0].val.c_str(), tokens[i].val.c_str());
       return false;
     }
     dv.params[tokens[i].val] = tokens[i+2].val;
@@ -84,7 +109,12 @@ bool read_class(std::istream& is, PCleanClass* pclass) {
       return false;
     }
 
-    if (tokens[1].val != "~") {
+    if (tokens[0].type != TokenType::identifier) {
+      printf("Error parsing class variable line %s:  expected first token to be a name.\n", line.c_str());
+      return false;
+    }
+
+    if (!is_symbol(tokens[1], "~")) {
       printf("Error parsing class variable line %s:  expected second token to be '~'.\n", line.c_str());
       return false;
     }
@@ -98,6 +128,10 @@ bool read_class(std::istream& is, PCleanClass* pclass) {
       return false;
     }
 
+    if (pclass->vars.contains(v.name)) {
+      printf("Error:  class %s has two variables named %s\n", pclass->name.c_str(), v.name.c_str());
+      return false;
+    }
     pclass->vars[v.name] = v;
   }
   return true;
@@ -129,8 +163,8 @@ bool read_query(std::istream& is, PCleanQuery* query) {
     }
 
     if (tokens[0].val == "from") {
-      if (tokens.size() != 2) {
-        printf("Expected exactly two tokens on query from line %s", line.c_str());
+      if ((tokens.size() != 2) || (tokens[1].type != TokenType::identifier)) {
+        printf("Expected `from` and a class name on query line %s\n", line.c_str());
         return false;
       }
       if (!query->record_class.empty()) {
@@ -141,8 +175,16 @@ bool read_query(std::istream& is, PCleanQuery* query) {
       continue;
     }
 
-    if (tokens.size() < 3) {
-      printf("Expected at least three tokens on `as` query line %s", line.c_str());
+    // A path of n names has n - 1 dots, and `as` and the query's name follow.
+    if ((tokens.size() < 3) || (tokens.size() % 2 != 1) ||
+        (tokens[tokens.size() - 2].type != TokenType::identifier) ||
+        (tokens[tokens.size() - 2].val != "as")) {
+      printf("Expected a path, `as` and a name on query line %s\n", line.c_str());
+      return false;
+    }
+    if ((tokens.back().type != TokenType::identifier) &&
+        (tokens.back().type != TokenType::string)) {
+      printf("Expected a name after `as` on query line %s\n", line.c_str());
       return false;
     }
 
@@ -150,14 +192,22 @@ bool read_query(std::istream& is, PCleanQuery* query) {
     qf.name = tokens.back().val;
     for (size_t i = 0; i < tokens.size() - 2; ++i) {
       if (i % 2 == 0) {
+        if (tokens[i].type != TokenType::identifier) {
+          printf("Expected a name at token %ld on query line %s\n", i, line.c_str());
+          return false;
+        }
         qf.class_path.push_back(tokens[i].val);
       } else {
-        if (tokens[i].val != ".") {
+        if (!is_symbol(tokens[i], ".")) {
           printf("Expected . at token %ld on query line %s\n", i, line.c_str());
           return false;
         }
       }
     }
+    if (query->fields.contains(qf.name)) {
+      printf("Error:  two query fields are named %s\n", qf.name.c_str());
+      return false;
+    }
     query->fields[qf.name] = qf;
   }
   return true;
@@ -191,7 +241,7 @@ bool read_schema(std::istream& is, PCleanSchema* schema) {
         return false;
       }
       PCleanClass pcc;
-      if (tokens[0].type != TokenType::identifier) {
+      if (tokens[1].type != TokenType::identifier) {
         printf("Error parsing line %s:  second token of a class line must be an identifier\n",
                line.c_str());
         return false;
@@ -204,6 +254,10 @@ bool read_schema(std::istream& is, PCleanSchema* schema) {
       if (!success) {
         return false;
       }
+      if (schema->classes.contains(pcc.name)) {
+        printf("Error:  class %s is defined twice\n", pcc.name.c_str());
+        return false;
+      }
       schema->classes[pcc.name] = pcc;
       continue;
     }
-- 
2.43.0


From 9a63b81186cb5e680378f6658a59f6c8112178d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 38/61] fix: a blank line made of whitespace didn't end a class
 or query

---
 cxx/pclean/io.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index 1b9101c..0ae7294 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -23,6 +23,10 @@ bool read_schema_file(const std::string& path, PCleanSchema* schema) {
 }
 
 
+static bool is_blank(const std::string& line) {
+  return line.find_first_not_of(" \t\r\v\f") == std::string::npos;
+}
+
 static bool is_symbol(const Token& token, const std::string& symbol) {
   return (token.type == TokenType::symbol) && (token.val == symbol);
 }
@@ -92,7 +96,7 @@ bool read_class(std::istream& is, PCleanClass* pclass) {
   std::string line;
   std::vector<Token> tokens;
   while (std::getline(is, line)) {
-    if (line.empty()) {
+    if (is_blank(line)) {
       return true;
     }
     tokens.clear();
@@ -150,7 +154,7 @@ bool read_query(std::istream& is, PCleanQuery* query) {
   std::string line;
   std::vector<Token> tokens;
   while (std::getline(is, line)) {
-    if (line.empty()) {
+    if (is_blank(line)) {
       return true;
     }
     tokens.clear();
-- 
2.43.0


From cd57be979904bfe6ba75d8632495157931964edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 39/61] fix: unreadable values were used uninitialised or cut
 short

---
 cxx/relation.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cxx/relation.hh b/cxx/relation.hh
index f3f090d..39e23e3 100644
--- a/cxx/relation.hh
+++ b/cxx/relation.hh
@@ -3,6 +3,8 @@
 
 #pragma once
 
+#include <cstdio>
+#include <cstdlib>
 #include <random>
 #include <sstream>
 #include <string>
@@ -124,10 +126,15 @@ class Relation {
   virtual bool clusters_contains(const T_items& items) const = 0;
 
   // Convert a string to ValueType.
+  // Exits if s isn't the text of a ValueType.
   ValueType from_string(const std::string& s) {
-    ValueType t;
+    ValueType t{};
     std::stringstream ss(s);
     ss >> t;
+    if (ss.fail() || !(ss >> std::ws).eof()) {
+      printf("Can not read the value `%s` of a relation\n", s.c_str());
+      std::exit(1);
+    }
     return t;
   };
 
-- 
2.43.0


From 6d1af9f780fcd8a0f8aec6b836e76684ea2317cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 40/61] fix: malformed and repeated observation lines were only
 caught by assertions

---
 cxx/util_io.cc | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 9fc039c..ca09fe1 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -91,7 +91,10 @@ void verify_noisy_relation_domains(const T_schema& schema) {
 
 T_schema load_schema(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to open %s\n", path.c_str());
+    std::exit(1);
+  }
 
   T_schema schema;
   std::string line;
@@ -210,9 +213,13 @@ T_schema load_schema(const std::string& path) {
 
 T_observations load_observations(const std::string& path, T_schema& schema) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to open %s\n", path.c_str());
+    std::exit(1);
+  }
 
   T_observations observations;
+  std::map<std::string, std::set<std::vector<std::string>>> observed_items;
   std::string line;
   while (std::getline(fp, line)) {
     std::istringstream stream(line);
@@ -222,11 +229,13 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     std::vector<std::string> items;
 
     if (!getline(stream, value_str, ',')) {
-      assert(false && "Error parsing schema. No comma separating value.");
+      printf("Error parsing observation `%s`: no value\n", line.c_str());
+      std::exit(1);
     }
 
     if (!getline(stream, relname, ',')) {
-      assert(false && "Error parsing schema. No comma separating relation.");
+      printf("Error parsing observation `%s`: no relation\n", line.c_str());
+      std::exit(1);
     }
 
     if (!schema.contains(relname)) {
@@ -238,7 +247,19 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     while (getline(stream, word, ',')) {
       items.push_back(word);
     }
-    assert((items.size() > 0) && "No Domain values specified.");
+    const size_t arity = std::visit(
+        [](const auto& trel) { return trel.domains.size(); },
+        schema.at(relname));
+    if (items.size() != arity) {
+      printf("Error parsing observation `%s`: expected %ld items, got %ld\n",
+             line.c_str(), arity, items.size());
+      std::exit(1);
+    }
+    if (!observed_items[relname].insert(items).second) {
+      printf("Error parsing observation `%s`: already observed\n",
+             line.c_str());
+      std::exit(1);
+    }
     auto entry = std::make_tuple(items, value_str);
     observations[relname].push_back(entry);
   }
@@ -542,7 +563,10 @@ void to_txt(const std::string& path, const HIRM& hirm,
 std::map<std::string, std::map<int, std::vector<std::string>>>
 load_clusters_irm(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to open %s\n", path.c_str());
+    std::exit(1);
+  }
 
   std::map<std::string, std::map<int, std::vector<std::string>>> clusters;
   std::string line;
@@ -593,7 +617,10 @@ std::tuple<std::map<int, std::vector<std::string>>,  // x[table] = {relation
            >
 load_clusters_hirm(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to open %s\n", path.c_str());
+    std::exit(1);
+  }
 
   std::map<int, std::vector<std::string>> relations;
   std::map<int, std::map<std::string, std::map<int, std::vector<std::string>>>>
-- 
2.43.0


From 85e44cca5d0f8a2ffe27ed3c599f5bab4c46a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 41/61] fix: malformed cluster files were only caught by
 assertions

---
 cxx/util_io.cc | 144 +++++++++++++++++++++++++++++++------------------
 1 file changed, 93 insertions(+), 51 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index ca09fe1..74b67e0 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -305,7 +305,10 @@ void write_observations(const std::string& path,
                         const T_encoding& encoding,
                         std::variant<IRM*, HIRM*> h_irm) {
   std::ofstream fp(path);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to write %s\n", path.c_str());
+    std::exit(1);
+  }
   write_observations(fp, observations, encoding, h_irm);
   fp.close();
 }
@@ -547,7 +550,10 @@ void to_txt(std::ostream& fp, const HIRM& hirm, const T_encoding& encoding) {
 void to_txt(const std::string& path, const IRM& irm,
             const T_encoding& encoding) {
   std::ofstream fp(path);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to write %s\n", path.c_str());
+    std::exit(1);
+  }
   to_txt(fp, irm, encoding);
   fp.close();
 }
@@ -555,17 +561,26 @@ void to_txt(const std::string& path, const IRM& irm,
 void to_txt(const std::string& path, const HIRM& hirm,
             const T_encoding& encoding) {
   std::ofstream fp(path);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Unable to write %s\n", path.c_str());
+    std::exit(1);
+  }
   to_txt(fp, hirm, encoding);
   fp.close();
 }
 
+#define CLUSTER_CHECK(condition, line)                              \
+  if (!(condition)) {                                               \
+    printf("Error parsing clusters at line `%s`\n", line.c_str()); \
+    std::exit(1);                                                   \
+  }
+
 std::map<std::string, std::map<int, std::vector<std::string>>>
 load_clusters_irm(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
   if (!fp.good()) {
-    printf("Unable to open %s\n", path.c_str());
-    std::exit(1);
+    // A missing file is the same as an empty one: there are no clusters.
+    printf("Unable to open %s, starting without clusters\n", path.c_str());
   }
 
   std::map<std::string, std::map<int, std::vector<std::string>>> clusters;
@@ -578,16 +593,17 @@ load_clusters_irm(const std::string& path) {
     std::istringstream stream(line);
 
     std::string domain;
-    int table;
+    int table = -1;
     std::vector<std::string> items;
 
     stream >> domain;
     stream >> table;
+    CLUSTER_CHECK(!stream.fail() && (table >= 0), line);
     for (std::string w; stream >> w;) {
       items.push_back(w);
     }
-    assert(items.size() > 0);
-    assert(clusters[domain].count(table) == 0);
+    CLUSTER_CHECK(items.size() > 0, line);
+    CLUSTER_CHECK(clusters[domain].count(table) == 0, line);
     clusters[domain][table] = items;
   }
   fp.close();
@@ -595,7 +611,7 @@ load_clusters_irm(const std::string& path) {
 }
 
 int isnumeric(const std::string& s) {
-  for (char c : s) {
+  for (unsigned char c : s) {
     if (!isdigit(c)) {
       return false;
     }
@@ -618,8 +634,8 @@ std::tuple<std::map<int, std::vector<std::string>>,  // x[table] = {relation
 load_clusters_hirm(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
   if (!fp.good()) {
-    printf("Unable to open %s\n", path.c_str());
-    std::exit(1);
+    // A missing file is the same as an empty one: there are no clusters.
+    printf("Unable to open %s, starting without clusters\n", path.c_str());
   }
 
   std::map<int, std::vector<std::string>> relations;
@@ -647,54 +663,84 @@ load_clusters_hirm(const std::string& path) {
       for (std::string item; stream >> item;) {
         items.push_back(item);
       }
-      assert(items.size() > 0);
-      assert(relations.count(table) == 0);
+      CLUSTER_CHECK(items.size() > 0, line);
+      CLUSTER_CHECK(relations.count(table) == 0, line);
       relations[table] = items;
       continue;
     }
 
     // Parse an irm= line.
     if (first.rfind("irm=", 0) == 0) {
-      assert(irmc == -1);
-      assert(first.size() > 4);
+      CLUSTER_CHECK(irmc == -1, line);
       std::string x = first.substr(4);
+      CLUSTER_CHECK(isnumeric(x), line);
       irmc = std::stoi(x);
-      assert(irms.count(irmc) == 0);
+      CLUSTER_CHECK(irms.count(irmc) == 0, line);
       irms[irmc] = {};
       continue;
     }
 
     // Parse a domain cluster.
-    assert(irmc > -1);
-    assert(irms.count(irmc) == 1);
+    CLUSTER_CHECK(irmc > -1, line);
+    CLUSTER_CHECK(irms.count(irmc) == 1, line);
     std::string second;
     stream >> second;
-    assert(second.size() > 0);
-    assert(isnumeric(second));
+    CLUSTER_CHECK(isnumeric(second), line);
     std::string& domain = first;
     int table = std::stoi(second);
     std::vector<std::string> items;
     for (std::string item; stream >> item;) {
       items.push_back(item);
     }
-    assert(items.size() > 0);
+    CLUSTER_CHECK(items.size() > 0, line);
     if (irms.at(irmc).count(domain) == 0) {
       irms.at(irmc)[domain] = {};
     }
-    assert(irms.at(irmc).at(domain).count(table) == 0);
+    CLUSTER_CHECK(irms.at(irmc).at(domain).count(table) == 0, line);
     irms.at(irmc).at(domain)[table] = items;
   }
 
-  assert(relations.size() == irms.size());
+  bool same_tables = relations.size() == irms.size();
   for (const auto& [t, rs] : relations) {
-    if (irms.count(t) != 1) {
-      assert(false);
-    }
+    same_tables = same_tables && irms.contains(t);
+  }
+  if (!same_tables) {
+    printf("Error parsing clusters: %s doesn't have one irm per cluster of "
+           "relations\n", path.c_str());
+    std::exit(1);
   }
   fp.close();
   return std::make_pair(relations, irms);
 }
 
+// Adds the entities of an IRM with fixed clustering.
+void incorporate_clusters(
+    std::mt19937* prng, IRM* irm, const T_encoding_f& item_to_code,
+    const std::map<std::string, std::map<int, std::vector<std::string>>>&
+        clusters) {
+  for (const auto& [domain, tables] : clusters) {
+    if (!irm->domains.contains(domain)) {
+      printf("Error loading clusters: unknown domain %s\n", domain.c_str());
+      std::exit(1);
+    }
+    assert(irm->domains.at(domain)->items.size() == 0);
+    const auto& codes = item_to_code.at(domain);
+    for (const auto& [table, items] : tables) {
+      assert(0 <= table);
+      for (const std::string& item : items) {
+        auto it = codes.find(item);
+        if (it == codes.end() ||
+            irm->domains.at(domain)->items.contains(it->second)) {
+          printf("Error loading clusters: entity %s of domain %s is unknown or "
+                 "listed twice\n", item.c_str(), domain.c_str());
+          std::exit(1);
+        }
+        irm->domains.at(domain)->incorporate(prng, it->second, table);
+      }
+    }
+  }
+}
+
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
               const std::string& path_clusters) {
@@ -712,17 +758,7 @@ void from_txt(std::mt19937* prng, IRM* const irm,
     std::visit([&](const auto& trel) { irm->add_relation(r, trel); }, ds);
   }
   // Add the domain entities with fixed clustering.
-  T_encoding_f item_to_code = std::get<0>(encoding);
-  for (const auto& [domain, tables] : clusters) {
-    assert(irm->domains.at(domain)->items.size() == 0);
-    for (const auto& [table, items] : tables) {
-      assert(0 <= table);
-      for (const std::string& item : items) {
-        T_item code = item_to_code.at(domain).at(item);
-        irm->domains.at(domain)->incorporate(prng, code, table);
-      }
-    }
-  }
+  incorporate_clusters(prng, irm, std::get<0>(encoding), clusters);
   // Add the observations.
   incorporate_observations(prng, irm, encoding, observations);
 }
@@ -734,6 +770,22 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
   T_observations observations = load_observations(path_obs, schema);
   T_encoding encoding = calculate_encoding(schema, observations);
   auto [relations, irms] = load_clusters_hirm(path_clusters);
+  // Every relation must be in exactly one cluster.
+  std::set<std::string> clustered;
+  for (const auto& [table, rs] : relations) {
+    for (const std::string& r : rs) {
+      if (!schema.contains(r) || !clustered.insert(r).second) {
+        printf("Error loading clusters: relation %s is unknown or listed "
+               "twice\n", r.c_str());
+        std::exit(1);
+      }
+    }
+  }
+  if (!clustered.empty() && (clustered.size() != schema.size())) {
+    printf("Error loading clusters: relations are missing from %s\n",
+           path_clusters.c_str());
+    std::exit(1);
+  }
   // Add the relations.
   assert(hirm->schema.empty());
   assert(hirm->irms.empty());
@@ -742,7 +794,9 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
   for (const auto& [r, ds] : schema) {
     hirm->add_relation(prng, r, ds);
     assert(hirm->irms.size() == hirm->crp.tables.size());
-    hirm->set_cluster_assignment_gibbs(prng, r, -1);
+    if (!clustered.empty()) {
+      hirm->set_cluster_assignment_gibbs(prng, r, -1);
+    }
   }
   // Add each IRM.
   for (const auto& [table, rs] : relations) {
@@ -757,21 +811,9 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
       }
     }
     // Add the domain entities with fixed clustering to this IRM.
-    // TODO: Duplicated code with from_txt(IRM)
     IRM* irm = hirm->irms.at(table);
-    auto clusters = irms.at(table);
     assert(irm->relations.size() == rs.size());
-    T_encoding_f item_to_code = std::get<0>(encoding);
-    for (const auto& [domain, tables] : clusters) {
-      assert(irm->domains.at(domain)->items.size() == 0);
-      for (const auto& [t, items] : tables) {
-        assert(0 <= t);
-        for (const std::string& item : items) {
-          int code = item_to_code.at(domain).at(item);
-          irm->domains.at(domain)->incorporate(prng, code, t);
-        }
-      }
-    }
+    incorporate_clusters(prng, irm, std::get<0>(encoding), irms.at(table));
   }
   assert(hirm->irms.count(-1) == 0);
   // Add the observations.
-- 
2.43.0


From e79e396382b1a63475157b6c8e984b8397288e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:19 +0000
Subject: [PATCH 42/61] fix: observations of the base of a noisy relation were
 incorporated repeatedly

---
 cxx/util_io.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 74b67e0..8dd8890 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -409,9 +409,14 @@ void incorporate_observations_relation(
           },
           rel_var);
     }
-    incorporate_observations_relation(prng, base_name, h_irm, observations,
-                                      noisy_to_base, relation_items,
-                                      completed_relations);
+    // The observations of a relation are incorporated once, but each noisy
+    // relation may add items to an unobserved base.
+    if (!observations.contains(base_name) ||
+        !completed_relations.contains(base_name)) {
+      incorporate_observations_relation(prng, base_name, h_irm, observations,
+                                        noisy_to_base, relation_items,
+                                        completed_relations);
+    }
   }
 
   ObservationVariant ov;
-- 
2.43.0


From 83720e8a407fb643a4af91a7edeffce818fe5f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 43/61] fix: noisy relations whose name sorts before their
 base's broke IRM and loading

---
 cxx/irm.cc     | 28 ++++++++++++++++++++++++++--
 cxx/irm.hh     |  4 ++++
 cxx/util_io.cc |  9 +++++----
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 5d1e013..0eb27c2 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -29,10 +29,34 @@ RelationVariant clean_relation_from_spec(const std::string& name,
   }
 }
 
+std::vector<std::string> base_first_order(const T_schema& schema) {
+  std::vector<std::string> order;
+  std::set<std::string> ordered;
+  while (order.size() < schema.size()) {
+    const size_t num_ordered = order.size();
+    for (const auto& [name, relation] : schema) {
+      if (ordered.contains(name)) {
+        continue;
+      }
+      const auto* noisy = std::get_if<T_noisy_relation>(&relation);
+      if ((noisy == nullptr) || ordered.contains(noisy->base_relation)) {
+        order.push_back(name);
+        ordered.insert(name);
+      }
+    }
+    if (order.size() == num_ordered) {
+      printf("Detected loop in schema\n");
+      std::exit(1);
+    }
+  }
+  return order;
+}
+
 IRM::IRM(const T_schema& init_schema) {
   assert(schema.empty());
-  for (const auto& [name, relation] : init_schema) {
-    std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+  for (const std::string& name : base_first_order(init_schema)) {
+    std::visit([&](auto trel) { this->add_relation(name, trel); },
+               init_schema.at(name));
   }
   assert(schema.size() == relations.size());
 }
diff --git a/cxx/irm.hh b/cxx/irm.hh
index c82ae70..62d5131 100644
--- a/cxx/irm.hh
+++ b/cxx/irm.hh
@@ -18,6 +18,10 @@ using RelationVariant = std::variant<Relation<std::string>*, Relation<double>*,
 // Map from names to T_relation's.
 typedef std::map<std::string, T_relation> T_schema;
 
+// Returns the names of the relations of schema, in an order in which the base
+// of every noisy relation comes first.  Exits if there is no such order.
+std::vector<std::string> base_first_order(const T_schema& schema);
+
 class IRM {
  public:
   T_schema schema;                                   // schema of relations
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 8dd8890..5ce324d 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -759,8 +759,9 @@ void from_txt(std::mt19937* prng, IRM* const irm,
   assert(irm->domains.empty());
   assert(irm->relations.empty());
   assert(irm->domain_to_relations.empty());
-  for (const auto& [r, ds] : schema) {
-    std::visit([&](const auto& trel) { irm->add_relation(r, trel); }, ds);
+  for (const std::string& r : base_first_order(schema)) {
+    std::visit([&](const auto& trel) { irm->add_relation(r, trel); },
+               schema.at(r));
   }
   // Add the domain entities with fixed clustering.
   incorporate_clusters(prng, irm, std::get<0>(encoding), clusters);
@@ -796,8 +797,8 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
   assert(hirm->irms.empty());
   assert(hirm->relation_to_code.empty());
   assert(hirm->code_to_relation.empty());
-  for (const auto& [r, ds] : schema) {
-    hirm->add_relation(prng, r, ds);
+  for (const std::string& r : base_first_order(schema)) {
+    hirm->add_relation(prng, r, schema.at(r));
     assert(hirm->irms.size() == hirm->crp.tables.size());
     if (!clustered.empty()) {
       hirm->set_cluster_assignment_gibbs(prng, r, -1);
-- 
2.43.0


From 6bfee25fe3fa316ebeea2067be78eed74de58254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 44/61] fix: hirm --load --heldout mixed two encodings of the
 entities

---
 cxx/hirm_main.cc | 10 +++++++---
 cxx/util_io.cc   | 14 ++++++++++----
 cxx/util_io.hh   |  8 ++++++--
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 0d03dcd..8d071e0 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -81,7 +81,9 @@ int main(int argc, char** argv) {
     encoding_observations = observations;
   } else {
     std::cout << "loading held out observations from " << held_out << std::endl;
-    heldout_obs = load_observations(held_out, schema);
+    // Relations that are only observed in the held out data stay latent.
+    T_schema heldout_schema = schema;
+    heldout_obs = load_observations(held_out, heldout_schema);
     encoding_observations = merge_observations(observations, heldout_obs);
   }
 
@@ -99,7 +101,8 @@ int main(int argc, char** argv) {
     } else {
       irm = new IRM({});
       std::cout << "loading clusters from " << path_clusters << std::endl;
-      from_txt(&prng, irm, path_schema, path_obs, path_clusters);
+      from_txt(&prng, irm, path_schema, path_obs, path_clusters,
+               &encoding);
     }
     // Infer
     std::cout << "inferring " << iters << " iters; timeout " << timeout
@@ -135,7 +138,8 @@ int main(int argc, char** argv) {
     } else {
       hirm = new HIRM({}, &prng);
       std::cout << "loading clusters from " << path_clusters << std::endl;
-      from_txt(&prng, hirm, path_schema, path_obs, path_clusters);
+      from_txt(&prng, hirm, path_schema, path_obs, path_clusters,
+               &encoding);
     }
     // Infer
     std::cout << "inferring " << iters << " iters; timeout " << timeout
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 5ce324d..e295558 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -748,11 +748,14 @@ void incorporate_clusters(
 
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters) {
+              const std::string& path_clusters,
+              const T_encoding* known_encoding) {
   // Load the data.
   T_schema schema = load_schema(path_schema);
   T_observations observations = load_observations(path_obs, schema);
-  T_encoding encoding = calculate_encoding(schema, observations);
+  T_encoding encoding = known_encoding
+                            ? *known_encoding
+                            : calculate_encoding(schema, observations);
   auto clusters = load_clusters_irm(path_clusters);
   // Add the relations.
   assert(irm->schema.empty());
@@ -771,10 +774,13 @@ void from_txt(std::mt19937* prng, IRM* const irm,
 
 void from_txt(std::mt19937* prng, HIRM* const hirm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters) {
+              const std::string& path_clusters,
+              const T_encoding* known_encoding) {
   T_schema schema = load_schema(path_schema);
   T_observations observations = load_observations(path_obs, schema);
-  T_encoding encoding = calculate_encoding(schema, observations);
+  T_encoding encoding = known_encoding
+                            ? *known_encoding
+                            : calculate_encoding(schema, observations);
   auto [relations, irms] = load_clusters_hirm(path_clusters);
   // Every relation must be in exactly one cluster.
   std::set<std::string> clustered;
diff --git a/cxx/util_io.hh b/cxx/util_io.hh
index a6d8779..d852bb5 100644
--- a/cxx/util_io.hh
+++ b/cxx/util_io.hh
@@ -66,12 +66,16 @@ std::tuple<std::map<int, std::vector<std::string>>,  // x[table] = {relation
            >
 load_clusters_hirm(const std::string& path);
 
+// Loads the clusters of a model and incorporates the observations.  encoding
+// must cover these; if it is null, it is calculated from them.
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters);
+              const std::string& path_clusters,
+              const T_encoding* encoding = nullptr);
 void from_txt(std::mt19937* prng, HIRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters);
+              const std::string& path_clusters,
+              const T_encoding* encoding = nullptr);
 
 T_observations merge_observations(const T_observations& obs1,
                                   const T_observations& obs2);
-- 
2.43.0


From f693c04e105a16af9cb995f092180e487c40de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 45/61] fix: hirm released its model with free()

---
 cxx/hirm_main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 8d071e0..286e523 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -123,7 +123,7 @@ int main(int argc, char** argv) {
     }
 
     // Free
-    free(irm);
+    delete irm;
     return 0;
   }
 
@@ -164,7 +164,7 @@ int main(int argc, char** argv) {
     }
 
     // Free
-    free(hirm);
+    delete hirm;
     return 0;
   }
 }
-- 
2.43.0


From a7f58c542d4713af682325b5a64c4e9f07a32461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 46/61] fix: ragged, trailing and repeated CSV columns were
 read out of bounds

---
 cxx/pclean/csv.cc | 48 +++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index e9f527f..8c1887a 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -2,6 +2,7 @@
 
 #include <cassert>
 #include <cctype>
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 
@@ -11,7 +12,7 @@ DataFrame DataFrame::from_csv(
 
   if (!f.is_open()) {
     printf("Unable to open CSV file %s\n", filename.c_str());
-    assert(false);
+    std::exit(1);
   }
 
   DataFrame df = DataFrame::from_csv(f, column_names);
@@ -35,37 +36,44 @@ DataFrame DataFrame::from_csv(
   std::string line;
   while (std::getline(is, line)) {
     // TODO(thomawc): Strip off comments started with a #
-    if (line.empty()) {
+    if (line.empty() || line == "\r") {
       continue;
     }
 
+    std::vector<std::string> parts;
     std::stringstream ss(line);
     std::string part;
-    size_t i = 0;
     // TODO(thomaswc): Handle quoted fields
     while (std::getline(ss, part, ',')) {
       // Erase white space from end of part
-      while (isspace(part.back())) {
+      while (!part.empty() && isspace((unsigned char)part.back())) {
         part.pop_back();
       }
-      if (first_line && column_names.empty()) {
-        df.columns.push_back(part);
-        df.data[part] = {};
-        continue;
-      }
-
-      df.data[df.columns[i++]].push_back(part);
+      parts.push_back(part);
     }
-    if (!first_line) {
-      if (line.back() == ',') {
-        // std::getline is broken and won't let the last field be empty.
-        df.data[df.columns[i++]].push_back("");
-      }
-      if (i != df.columns.size()) {
-        printf("Only found %ld out of %ld expected columns in line\n%s\n",
-               i, df.columns.size(), line.c_str());
-        assert(false);
+    if (line.back() == ',') {
+      // std::getline is broken and won't let the last field be empty.
+      parts.push_back("");
+    }
+    if (first_line && column_names.empty()) {
+      for (const std::string& column : parts) {
+        if (df.data.contains(column)) {
+          printf("Two columns are named %s\n", column.c_str());
+          std::exit(1);
+        }
+        df.columns.push_back(column);
+        df.data[column] = {};
       }
+      first_line = false;
+      continue;
+    }
+    if (parts.size() != df.columns.size()) {
+      printf("Found %ld instead of %ld expected columns in line\n%s\n",
+             parts.size(), df.columns.size(), line.c_str());
+      std::exit(1);
+    }
+    for (size_t i = 0; i < parts.size(); ++i) {
+      df.data[df.columns[i]].push_back(parts[i]);
     }
     first_line = false;
   }
-- 
2.43.0


From 6a1ec6a93666058672628141d913f4657a7186b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 47/61] fix: samples of the data-cleaning model were written to
 an empty file

---
 cxx/pclean/pclean_lib.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 25dcbbe..43ba995 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -33,7 +33,7 @@ void incorporate_observations(std::mt19937* prng,
 
       // Don't allow non-printable characters in val.
       for (const char c: val) {
-        if (!std::isprint(c)) {
+        if (!std::isprint((unsigned char)c)) {
           printf("Found non-printable character with ascii value %d on line "
                  "%d of column %s in value `%s`.\n",
                  (int) c, i + 2, col_name.c_str(), val.c_str());
@@ -79,7 +79,9 @@ DataFrame make_pclean_samples(int num_samples, int start_row, GenDB *gendb,
      for (const auto& [column, val] : query_values) {
        df.data[column].push_back(val);
      }
-
+  }
+  for (const auto& [column, unused_values] : df.data) {
+    df.columns.push_back(column);
   }
   return df;
 }
-- 
2.43.0


From 4b203e329fb9655ebacbb32cf16cd7988c512527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 48/61] fix: held-out rows and samples reused the ids of
 existing rows

---
 cxx/pclean/csv.hh        | 4 ++++
 cxx/pclean/pclean.cc     | 6 ++++--
 cxx/pclean/pclean_lib.cc | 7 ++++---
 cxx/pclean/pclean_lib.hh | 6 ++++--
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/cxx/pclean/csv.hh b/cxx/pclean/csv.hh
index 0d5fe80..80867ff 100644
--- a/cxx/pclean/csv.hh
+++ b/cxx/pclean/csv.hh
@@ -27,6 +27,10 @@ class DataFrame {
   bool to_csv(const std::string& filename);
   bool to_csv(std::ostream& os);
 
+  size_t num_rows() const {
+    return data.empty() ? 0 : data.begin()->second.size();
+  }
+
   std::vector<std::string> columns;
 
   // data['column_name'] holds the data for that column.
diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 0284376..f2bd784 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -115,13 +115,15 @@ int main(int argc, char** argv) {
     to_txt(out_fn, *(gendb.hirm), encoding);
   }
 
+  int num_rows = df.num_rows();
   std::string heldout_fn = result["heldout"].as<std::string>();
   if (!heldout_fn.empty()) {
     std::cout << "Loading held out observations from " << heldout_fn << std::endl;
     DataFrame heldout_df = DataFrame::from_csv(heldout_fn);
     std::cout << "Incorporating held out observations ...\n";
     double lp1 = gendb.logp_score();
-    incorporate_observations(&prng, &gendb, heldout_df);
+    incorporate_observations(&prng, &gendb, heldout_df, num_rows);
+    num_rows += heldout_df.num_rows();
     double lp2 = gendb.logp_score();
     std::cout << "Log likelihood of held out data is " << (lp2 - lp1) << std::endl;
   }
@@ -131,7 +133,7 @@ int main(int argc, char** argv) {
     std::string samples_out = result["output"].as<std::string>() + ".samples";
     std::cout << "Generating " << num_samples << " samples\n";
     DataFrame samples_df = make_pclean_samples(
-        num_samples, df.data.begin()->second.size(), &gendb, &prng);
+        num_samples, num_rows, &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
     samples_df.to_csv(samples_out);
   }
diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 43ba995..bf09143 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -11,8 +11,9 @@
 
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df) {
-  int num_rows = df.data.begin()->second.size();
+                              const DataFrame& df,
+                              int start_row) {
+  int num_rows = df.num_rows();
   for (int i = 0; i < num_rows; i++) {
     std::map<std::string, ObservationVariant> row_values;
     for (const auto& col : df.data) {
@@ -50,7 +51,7 @@ void incorporate_observations(std::mt19937* prng,
     // TODO(emilyaf): Consider using new_rows_have_unique_entities=false
     // after entity transitions are allowed and numeric stability issues
     // are addressed.
-    gendb->incorporate(prng, std::make_pair(i, row_values), true);
+    gendb->incorporate(prng, std::make_pair(start_row + i, row_values), true);
   }
 }
 
diff --git a/cxx/pclean/pclean_lib.hh b/cxx/pclean/pclean_lib.hh
index a763294..115cc5f 100644
--- a/cxx/pclean/pclean_lib.hh
+++ b/cxx/pclean/pclean_lib.hh
@@ -13,10 +13,12 @@
 // For each non-missing value in the DataFrame df, create an
 // observation and incorporate it into the GenDB.  The column name of the value
 // is used as the relation name, and each entity in each domain is given
-// its own unique value.
+// its own unique value.  The first row gets the id start_row; all rows already
+// added to gendb should have ids < start_row.
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df);
+                              const DataFrame& df,
+                              int start_row = 0);
 
 // Return a dataframe of num_samples samples from the GenDB.
 // All existing rows added to gendb should have ids < start_row.
-- 
2.43.0


From 0082c405f7234185128157c3392e82cfcc2da261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 49/61] fix: pclean went on after failing to read its schema

---
 cxx/pclean/pclean.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index f2bd784..68108a4 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -74,6 +74,7 @@ int main(int argc, char** argv) {
   std::cout << "Reading schema file from " << schema_fn << "\n";
   if (!read_schema_file(schema_fn, &pclean_schema)) {
     std::cout << "Error reading schema file" << schema_fn << "\n";
+    return 1;
   }
 
   // Make GenDB
-- 
2.43.0


From 5bc6b8dc91f195c47bbf7efd56f4452e4ba98d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 50/61] fix: pclean --samples without --output threw after
 inference

---
 cxx/pclean/pclean.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 68108a4..c3bc6b5 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -63,6 +63,11 @@ int main(int argc, char** argv) {
     return 0;
   }
 
+  if ((result["samples"].as<int>() > 0) && (result.count("output") < 1)) {
+    std::cout << "Must specify --output with --samples\n";
+    return 1;
+  }
+
   int seed = result["seed"].as<int>();
   std::cout << "Setting seed to " << seed << "\n";
   std::mt19937 prng(seed);
-- 
2.43.0


From 14655254ee182df70284e2378c9540d9055ebac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 51/61] fix: a cycle of class references recursed until the
 stack overflowed

---
 cxx/gendb.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 25d6f08..9f4f7ce 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -942,11 +942,18 @@ void GenDB::compute_domains_for(const std::string& name) {
   assert(schema.classes.contains(name));
   PCleanClass c = schema.classes.at(name);
 
+  // An empty entry marks a class whose domains are still being computed.
+  domains[name] = {};
   for (const auto& v : c.vars) {
     if (const ClassVar* cv = std::get_if<ClassVar>(&(v.second.spec))) {
       if (!domains.contains(cv->class_name)) {
         compute_domains_for(cv->class_name);
       }
+      if (domains.at(cv->class_name).empty()) {
+        printf("Class %s refers to itself through %s\n", name.c_str(),
+               cv->class_name.c_str());
+        std::exit(1);
+      }
       for (const std::string& s : domains[cv->class_name]) {
         ds.push_back(s);
       }
-- 
2.43.0


From e8cea9f9faff8251e7b4690921e283e967f634a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 52/61] fix: categories and characters out of range were used
 as indices

---
 cxx/distributions/bigram.cc                |  5 ++++-
 cxx/distributions/dirichlet_categorical.cc | 13 +++++++++++--
 cxx/emissions/bigram_string.cc             |  8 +++++++-
 cxx/emissions/categorical.hh               | 17 ++++++++++++++---
 4 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index f095701..6d7e9fc 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -9,7 +9,10 @@
 #include "distributions/base.hh"
 
 void Bigram::assert_valid_char(const char c) const {
-  assert(c >= min_char && c <= max_char);
+  if (c < min_char || c > max_char) {
+    printf("Character %d can not occur in this string\n", (int)c);
+    std::exit(1);
+  }
 }
 
 size_t Bigram::char_to_index(const char c) const {
diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index d189f39..9a49df6 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -5,12 +5,21 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 #include <random>
 
 #include "util_math.hh"
 
+static void check_category(int x, size_t num_categories) {
+  if (x < 0 || size_t(x) >= num_categories) {
+    printf("%d is not one of the %ld categories\n", x, num_categories);
+    std::exit(1);
+  }
+}
+
 void DirichletCategorical::incorporate(const int& x, double weight) {
-  assert(x >= 0 && x < std::ssize(counts));
+  check_category(x, counts.size());
   // Never remove more than there is, which undoing a fractionally weighted
   // observation could do: a negative count has no probability.
   weight = std::max(weight, -counts[size_t(x)]);
@@ -19,7 +28,7 @@ void DirichletCategorical::incorporate(const int& x, double weight) {
 }
 
 double DirichletCategorical::logp(const int& x) const {
-  assert(x >= 0 && x < std::ssize(counts));
+  check_category(x, counts.size());
   const double numer = log(alpha + counts[size_t(x)]);
   const double denom = log(N + alpha * counts.size());
   return numer - denom;
diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index e043d99..8824a04 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -1,5 +1,7 @@
 #include <algorithm>
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 #include <iterator>
 
 #include "emissions/bigram_string.hh"
@@ -42,10 +44,14 @@ size_t BigramStringEmission::get_index(std::string current_char) {
     return 0;
   }
   assert(current_char.length() == 1);
-  return (current_char[0] - lowest_char) + 1;
+  return get_index(current_char[0]);
 }
 
 size_t BigramStringEmission::get_index(char current_char) {
+  if (current_char < lowest_char || current_char > highest_char) {
+    printf("Character %d can not occur in this string\n", (int)current_char);
+    std::exit(1);
+  }
   return (current_char - lowest_char) + 1;
 }
 
diff --git a/cxx/emissions/categorical.hh b/cxx/emissions/categorical.hh
index 5152ee4..7f41c58 100644
--- a/cxx/emissions/categorical.hh
+++ b/cxx/emissions/categorical.hh
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 #include <limits>
 #include <utility>
 
@@ -20,13 +22,22 @@ class CategoricalEmission : public Emission<int> {
     }
   };
 
+  DirichletCategorical& emission_dist(int clean) const {
+    if (clean < 0 || size_t(clean) >= emission_dists.size()) {
+      printf("%d is not one of the %ld clean categories\n", clean,
+             emission_dists.size());
+      std::exit(1);
+    }
+    return emission_dists[clean];
+  }
+
   void incorporate(const std::pair<int, int>& x, double weight = 1.0) {
     N += weight;
-    emission_dists[x.first].incorporate(x.second, weight);
+    emission_dist(x.first).incorporate(x.second, weight);
   }
 
   double logp(const std::pair<int, int>& x) const {
-    return emission_dists[x.first].logp(x.second);
+    return emission_dist(x.first).logp(x.second);
   }
 
   double logp_score() const {
@@ -44,7 +55,7 @@ class CategoricalEmission : public Emission<int> {
   }
 
   int sample_corrupted(const int& clean, std::mt19937* prng) {
-    return emission_dists[clean].sample(prng);
+    return emission_dist(clean).sample(prng);
   }
 
   int propose_clean(const std::vector<int>& corrupted,
-- 
2.43.0


From f20ec3d0713a14aec23770ba8f3b2e2133661638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 53/61] fix: saving a data-cleaning model failed on the rows'
 entities

---
 cxx/pclean/pclean_lib.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index bf09143..9ff193e 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -91,11 +91,15 @@ T_encoding make_dummy_encoding_from_gendb(const GenDB& gendb) {
   T_encoding_f item_to_code;
   T_encoding_r code_to_item;
 
-  for (const auto& [domain, crp] : gendb.entity_crps) {
-    for (int i = 0; i <= crp.max_table(); ++i) {
-      // TODO: Make the auto-generated string include the row number
-      // and CSV field name, for ease in debugging and visualizations.
-      code_to_item[domain][i] = domain + ":" + std::to_string(i);
+  // The entities of the record class (the rows) have no entity CRP, so collect
+  // the entities from the domains of the model.
+  for (const auto& [unused_table, irm] : gendb.hirm->irms) {
+    for (const auto& [name, domain] : irm->domains) {
+      for (const T_item item : domain->items) {
+        // TODO: Make the auto-generated string include the row number
+        // and CSV field name, for ease in debugging and visualizations.
+        code_to_item[name][item] = name + ":" + std::to_string(item);
+      }
     }
   }
 
-- 
2.43.0


From 4589f08cd4f72619c5edbc61bef7675a012e1c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 54/61] fix: repeated declarations and quoted symbols were
 accepted in schemas

---
 cxx/pclean/io.cc |  2 +-
 cxx/util_io.cc   | 28 +++++++++++++++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index 0ae7294..824787c 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -166,7 +166,7 @@ bool read_query(std::istream& is, PCleanQuery* query) {
       continue;
     }
 
-    if (tokens[0].val == "from") {
+    if ((tokens[0].type == TokenType::identifier) && (tokens[0].val == "from")) {
       if ((tokens.size() != 2) || (tokens[1].type != TokenType::identifier)) {
         printf("Expected `from` and a class name on query line %s\n", line.c_str());
         return false;
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index e295558..f78e3ef 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -79,9 +79,13 @@ void verify_noisy_relation_domains(const T_schema& schema) {
     std::exit(1);                                                           \
   }
 
+static bool is_symbol(const Token& token, const std::string& symbol) {
+  return (token.type == TokenType::symbol) && (token.val == symbol);
+}
+
 #define VAL_CHECK(i, expected_val)                                          \
   LEN_CHECK(i)                                                              \
-  if (tokens[i].val != expected_val) {                                      \
+  if (!is_symbol(tokens[i], expected_val)) {                                    \
     printf("Error parsing schema line %s:  expected %s for %ld-th token\n", \
            line.c_str(), expected_val, i + 1);                              \
     printf("Got %s of type %d instead\n", tokens[i].val.c_str(),            \
@@ -112,6 +116,11 @@ T_schema load_schema(const std::string& path) {
     size_t i = 0;
     TYPE_CHECK(i, identifier);
     std::string relname = tokens[i].val;
+    if (schema.contains(relname)) {
+      printf("Error parsing schema line %s: %s is already declared\n",
+             line.c_str(), relname.c_str());
+      std::exit(1);
+    }
 
     i = 1;
     VAL_CHECK(i, "~");
@@ -123,7 +132,7 @@ T_schema load_schema(const std::string& path) {
     i = 3;
     LEN_CHECK(i);
     std::map<std::string, std::string> params;
-    if (tokens[i].val == "[") {  // Handle parameters
+    if (is_symbol(tokens[i], "[")) {  // Handle parameters
       do {
         ++i;
         TYPE_CHECK(i, identifier);
@@ -133,9 +142,14 @@ T_schema load_schema(const std::string& path) {
         ++i;
 
         LEN_CHECK(i + 1);
+        if (params.contains(param_name)) {
+          printf("Error parsing schema line %s: %s is given twice\n",
+                 line.c_str(), param_name.c_str());
+          std::exit(1);
+        }
         params[param_name] = tokens[i++].val;
 
-        if ((tokens[i].val != ",") && (tokens[i].val != "]")) {
+        if (!is_symbol(tokens[i], ",") && !is_symbol(tokens[i], "]")) {
           printf(
               "Error parsing schema line %s: expected ',' or ']' after "
               "parameter definition\n",
@@ -145,7 +159,7 @@ T_schema load_schema(const std::string& path) {
           std::exit(1);
         }
 
-      } while (tokens[i].val == ",");
+      } while (is_symbol(tokens[i], ","));
       ++i;
     }
 
@@ -159,7 +173,7 @@ T_schema load_schema(const std::string& path) {
     TYPE_CHECK(i, identifier);
 
     LEN_CHECK(i + 1);
-    if (tokens[i + 1].val == ";") {  // We have an emission!
+    if (is_symbol(tokens[i + 1], ";")) {  // We have an emission!
       base_relation = tokens[i].val;
       i += 2;
     }
@@ -169,7 +183,7 @@ T_schema load_schema(const std::string& path) {
       LEN_CHECK(i + 1);
       domains.push_back(tokens[i++].val);
 
-      if ((tokens[i].val != ",") && (tokens[i].val != ")")) {
+      if (!is_symbol(tokens[i], ",") && !is_symbol(tokens[i], ")")) {
         printf(
             "Error parsing schema line %s: expected ',' or ')' after domain\n",
             line.c_str());
@@ -177,7 +191,7 @@ T_schema load_schema(const std::string& path) {
                (int)(tokens[i].type));
         std::exit(1);
       }
-    } while (tokens[i++].val == ",");
+    } while (is_symbol(tokens[i++], ","));
 
     if (i != tokens.size()) {
       printf("Error parsing schema line %s: unexpected %s after ')'\n",
-- 
2.43.0


From 51fd08e2db1e8739cb10c31059c4c085e24b31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 55/61] fix: SimpleStringEmission left the end of some strings
 out of its counts

When the clean or the noisy string runs out first, the missing insertion that
ends the noisy string wasn't counted.  From pairs with an empty clean string
the insertion probability could be inferred to be one, and sampling a noisy
string then practically never ends.
---
 cxx/emissions/simple_string.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index db75cd0..5259369 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -42,6 +42,8 @@ class SimpleStringEmission : public Emission<std::string> {
     if (clean.empty()) {
       // All of dirty must be insertions.
       insertions.incorporate(1, weight * dirty.length());
+      // No further insertion happened after them.
+      insertions.incorporate(0, weight);
       return;
     }
 
@@ -49,7 +51,7 @@ class SimpleStringEmission : public Emission<std::string> {
       // All of clean must have be deleted.
       deletions.incorporate(1, weight * clean.length());
       // This is also evidence that clean.length()+1 insertions didn't happen.
-      insertions.incorporate(0, weight * clean.length());
+      insertions.incorporate(0, weight * (clean.length() + 1));
       return;
     }
 
-- 
2.43.0


From ab92c2b8886cfd4efde6944261284aef21ffec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 56/61] fix: Python schema reader refused or misread valid
 schemas

Blank lines, blanks before the parenthesis of a parameterised relation, quoted
parameters holding commas or brackets and the base of noisy relations were not
understood, and a blank before the closing parenthesis became part of the last
domain.
---
 py/hirm_io.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/py/hirm_io.py b/py/hirm_io.py
index e683f17..d4ca821 100644
--- a/py/hirm_io.py
+++ b/py/hirm_io.py
@@ -21,11 +21,16 @@ DomainCluster = collections.namedtuple(
 def load_schema(path):
   """Load the schema from path, and return it as a dict of Relations."""
   relations = {}
-  comment_line_re = re.compile(r'\s*#.*')
-  line_re = re.compile(r'\s*(\w+)\s*~\s*(\w+)\s*(\[[^\]]*\])?\(\s*([^\)]+)\s*\)\s*(#.*)?')
+  blank_line_re = re.compile(r'\s*(#.*)?$')
+  # Strings in the parameters may contain brackets and commas.
+  quoted = r'"[^"]*"|\'[^\']*\''
+  line_re = re.compile(
+      rf'\s*(\w+)\s*~\s*(\w+)\s*(\[(?:{quoted}|[^\]"\'])*\])?\s*'
+      r'\(\s*(?:\w+\s*;\s*)?([^\)]+?)\s*\)\s*(#.*)?')
+  param_re = re.compile(rf'(\w+)\s*=\s*({quoted}|[^\s,\]]+)')
   with open(path, 'r') as f:
     for line in f:
-      if comment_line_re.match(line):
+      if blank_line_re.match(line):
         continue
       m = line_re.match(line)
       if not m:
@@ -34,12 +39,8 @@ def load_schema(path):
       name = m.group(1)
       parameters = {}
       if m.group(3):
-        param_string = m.group(3)[1:-1]
-        ps = re.split(r'\s*,\s*', param_string)
-        for p in ps:
-          kv = re.split(r'\s*=\s*', p)
-          assert len(kv) == 2
-          parameters[kv[0]] = kv[1]
+        for k, v in param_re.findall(m.group(3)):
+          parameters[k] = v
       domains = re.split(r'\s*,\s*', m.group(4))
       relations[name] = Relation(name=name,
                                  distribution=m.group(2),
-- 
2.43.0


From b02abafc3d3d79001c94c2aae20242c78e305157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 57/61] fix: Python observation reader dropped blanks at the
 end of entity names

---
 py/hirm_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/hirm_io.py b/py/hirm_io.py
index d4ca821..c07c962 100644
--- a/py/hirm_io.py
+++ b/py/hirm_io.py
@@ -54,7 +54,7 @@ def load_observations(path):
   data = []
   with open(path, 'r') as f:
         for line in f:
-          fields = line.rstrip().split(',')
+          fields = line.rstrip('\n').split(',')
           assert len(fields) >= 3
           data.append(Observation(relation=fields[1],
                                   value=fields[0],
-- 
2.43.0


From 7ee949eb4d48c65280429f93f2645f7301925fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 58/61] fix: plots of a cluster included relations of other
 clusters

Their entities need not be in the cluster, and make_plots then stopped with a
ValueError.
---
 py/visualize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/visualize.py b/py/visualize.py
index 4308909..c4d7acf 100644
--- a/py/visualize.py
+++ b/py/visualize.py
@@ -182,6 +182,8 @@ def collate_observations(obs):
 def html_for_cluster(cluster, schema, obs, clusters):
   """Return the html for visualizing a single cluster."""
   html = ''
+  # Only the relations of the cluster are laid out by its entities.
+  obs = [ob for ob in obs if ob.relation in cluster.relations]
   unary_obs, binary_obs = collate_observations(obs)
   if unary_obs:
     print(f"For irm #{cluster.cluster_id}, building unary matrix based on {len(unary_obs)} observations")
-- 
2.43.0


From 454843c0d8ca0a868625103b1e73c33f79398319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 59/61] fix: values of entities with the same name in two
 domains were plotted in one row

---
 py/visualize.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/py/visualize.py b/py/visualize.py
index c4d7acf..968ce11 100644
--- a/py/visualize.py
+++ b/py/visualize.py
@@ -107,7 +107,16 @@ def unary_matrix_plot(schema, cluster, obs, clusters):
   ax.set_yticks(np.arange(num_rows), labels=all_entities, fontsize=fontsize)
 
   # Matrix of data
-  m = make_unary_matrix(obs, all_entities, relations)
+  if schema:
+    # Entities of different domains may share a name.
+    domains = sorted(set(dc.domain for dc in cluster.domain_clusters))
+    m = np.vstack([
+        make_unary_matrix(
+            [ob for ob in obs if schema[ob.relation].domains[0] == domain],
+            get_all_entities_for_domain(cluster, domain)[0], relations)
+        for domain in domains])
+  else:
+    m = make_unary_matrix(obs, all_entities, relations)
   cmap = copy.copy(plt.get_cmap())
   cmap.set_bad(color='white')
   ax.imshow(m, cmap=cmap)
-- 
2.43.0


From 12594ef6d704b89f73f5791eb9993b83b552c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:43 +0000
Subject: [PATCH 60/61] fix: entity names with dollar signs were parsed as
 formulas in plots

---
 py/visualize.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/visualize.py b/py/visualize.py
index 968ce11..e0c4c3f 100644
--- a/py/visualize.py
+++ b/py/visualize.py
@@ -104,7 +104,8 @@ def unary_matrix_plot(schema, cluster, obs, clusters):
   ax.xaxis.tick_top()
   ax.set_xticks(np.arange(num_columns), labels=relations,
                 rotation=90, fontsize=fontsize)
-  ax.set_yticks(np.arange(num_rows), labels=all_entities, fontsize=fontsize)
+  ax.set_yticks(np.arange(num_rows), labels=all_entities, fontsize=fontsize,
+                parse_math=False)
 
   # Matrix of data
   if schema:
@@ -157,8 +158,11 @@ def binary_matrix_plot(schema, cluster, obs, clusters):
   fig, ax = plt.subplots(figsize=(width, height))
 
   ax.xaxis.tick_top()
-  ax.set_yticks(np.arange(n1), labels=domain1_entities, fontsize=fontsize)
-  ax.set_xticks(np.arange(n2), labels=domain2_entities, rotation=90, fontsize=fontsize)
+  # Names are no mathematical formulas, whatever they contain.
+  ax.set_yticks(np.arange(n1), labels=domain1_entities, fontsize=fontsize,
+                parse_math=False)
+  ax.set_xticks(np.arange(n2), labels=domain2_entities, rotation=90,
+                fontsize=fontsize, parse_math=False)
 
   m = make_binary_matrix(obs, domain1_entities, domain2_entities)
   cmap = copy.copy(plt.get_cmap())
-- 
2.43.0


From 0d51e562ac97d08e981030922c3d9476673da3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 61/61] fix: removing a far value could leave a negative
 variance, whose NaN scores broke inference

---
 cxx/distributions/normal.cc           | 5 ++++-
 cxx/distributions/zero_mean_normal.cc | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cxx/distributions/normal.cc b/cxx/distributions/normal.cc
index e8b1bb5..0a935b0 100644
--- a/cxx/distributions/normal.cc
+++ b/cxx/distributions/normal.cc
@@ -3,6 +3,7 @@
 
 #include "normal.hh"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <numbers>
@@ -21,7 +22,9 @@ void Normal::incorporate(const double& x, double weight) {
   }
   double old_mean = mean;
   mean += weight * (x - mean) / N;
-  var += weight * ((x - mean) * (x - old_mean) - var) / N;
+  // Rounding can leave less than nothing when an x that was far from the other
+  // data is unincorporated.
+  var = std::max(0.0, var + weight * ((x - mean) * (x - old_mean) - var) / N);
 }
 
 void Normal::posterior_hypers(double* mprime, double* sprime) const {
diff --git a/cxx/distributions/zero_mean_normal.cc b/cxx/distributions/zero_mean_normal.cc
index 03e93c2..1bf5ec6 100644
--- a/cxx/distributions/zero_mean_normal.cc
+++ b/cxx/distributions/zero_mean_normal.cc
@@ -25,7 +25,8 @@ void ZeroMeanNormal::incorporate(const double& x, double weight) {
     var = 0.0;
     return;
   }
-  var += weight * (x * x - var) / N;
+  // Rounding can leave less than nothing when a large x is unincorporated.
+  var = std::max(0.0, var + weight * (x * x - var) / N);
 }
 
 double ZeroMeanNormal::logp(const double& x) const {
-- 
2.43.0

