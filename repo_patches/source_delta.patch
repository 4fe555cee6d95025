From 391ce94d0f8cef80e34f0feb14220af10b5c318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 01/25] fix: account for the left endpoint in the median of
 symmetric beta distributions

---
 src/distribution/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 8a89b27..895451f 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -127,7 +127,7 @@ impl distribution::Median for Beta {
     fn median(&self) -> f64 {
         use distribution::Inverse;
         if self.alpha == self.beta {
-            0.5 * (self.b - self.a)
+            0.5 * (self.a + self.b)
         } else if self.alpha > 1.0 && self.beta > 1.0 {
             self.a
                 + (self.b - self.a) * (self.alpha - 1.0 / 3.0)
-- 
2.43.0


From 0ad529cbdc1bab27094135a3fe0d98c6b174b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 02/25] fix: compute the density of beta and PERT at the
 endpoints for unit shape parameters

---
 src/distribution/beta.rs | 14 ++++++++++++--
 src/distribution/pert.rs | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 895451f..cc53747 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -65,8 +65,18 @@ impl distribution::Continuous for Beta {
         } else {
             let scale = self.b - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            // A unit shape parameter contributes nothing, even at the endpoints.
+            let left = if self.alpha == 1.0 {
+                0.0
+            } else {
+                (self.alpha - 1.0) * x.ln()
+            };
+            let right = if self.beta == 1.0 {
+                0.0
+            } else {
+                (self.beta - 1.0) * (-x).ln_1p()
+            };
+            (left + right - self.ln_beta).exp() / scale
         }
     }
 }
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 7edf373..be81bec 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -75,8 +75,18 @@ impl distribution::Continuous for Pert {
         } else {
             let scale = self.c - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            // A unit shape parameter contributes nothing, even at the endpoints.
+            let left = if self.alpha == 1.0 {
+                0.0
+            } else {
+                (self.alpha - 1.0) * x.ln()
+            };
+            let right = if self.beta == 1.0 {
+                0.0
+            } else {
+                (self.beta - 1.0) * (-x).ln_1p()
+            };
+            (left + right - self.ln_beta).exp() / scale
         }
     }
 }
-- 
2.43.0


From 94f685212a635f4d90106fa28f5e325e9daddae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 03/25] fix: skip impossible outcomes when computing the
 entropy of categorical distributions

---
 src/distribution/categorical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index e4ba842..8a54d7d 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -75,7 +75,11 @@ impl distribution::Distribution for Categorical {
 
 impl distribution::Entropy for Categorical {
     fn entropy(&self) -> f64 {
-        -self.p.iter().fold(0.0, |sum, p| sum + p * p.ln())
+        -self
+            .p
+            .iter()
+            .filter(|&&p| p > 0.0)
+            .fold(0.0, |sum, p| sum + p * p.ln())
     }
 }
 
-- 
2.43.0


From 78062df04ad4dd6566ffd31c46fd60174752a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 04/25] fix: let the distribution function of categorical reach
 one at the last possible outcome

---
 src/distribution/categorical.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 8a54d7d..3ce7008 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -27,9 +27,16 @@ impl Categorical {
         let k = p.len();
         let mut cumsum = p.to_vec();
         for i in 1..(k - 1) {
-            cumsum[i] += cumsum[i - 1];
+            cumsum[i] = (cumsum[i] + cumsum[i - 1]).min(1.0);
         }
         cumsum[k - 1] = 1.0;
+        // Nothing is left after the last possible outcome.
+        for i in (1..k).rev() {
+            if p[i] > 0.0 {
+                break;
+            }
+            cumsum[i - 1] = 1.0;
+        }
         Categorical {
             k,
             p: p.to_vec(),
-- 
2.43.0


From eb2cab0fe5f685b9f0ccc01742ae4dbab21f0064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:45 +0000
Subject: [PATCH 05/25] fix: keep the density of logistic from overflowing in
 the left tail

---
 src/distribution/logistic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index 23d0b43..c9370ed 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -45,7 +45,8 @@ impl Default for Logistic {
 impl distribution::Continuous for Logistic {
     #[inline]
     fn density(&self, x: f64) -> f64 {
-        let exp = (-(x - self.mu) / self.s).exp();
+        // The density is symmetric, and the exponential should not overflow.
+        let exp = (-(x - self.mu).abs() / self.s).exp();
         exp / (self.s * (1.0 + exp).powi(2))
     }
 }
-- 
2.43.0


From cd52b3c86a40b4773040002e07368f08311be96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 06/25] fix: assign no mass to more successes than trials in
 binomial

---
 src/distribution/binomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ec8903e..df13405 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -95,6 +95,10 @@ impl distribution::Discrete for Binomial {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
+        if x > self.n {
+            return 0.0;
+        }
+
         let n = self.n as f64;
         if x == 0 {
             (n * self.q.ln()).exp()
-- 
2.43.0


From 88c99b00af977cf2df3262eed100acb6dda226fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 07/25] fix: do not truncate the number of trials in the
 distribution function of binomial

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index df13405..a29a5bf 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -130,7 +130,7 @@ impl distribution::Distribution for Binomial {
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powi(self.n as i32);
+            return self.q.powf(self.n as f64);
         }
         if x >= self.n {
             return 1.0;
-- 
2.43.0


From d36a5ddfd84d3c92e9a8283fadbc35d1e6fa22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 08/25] fix: skip vanishing outcomes when computing the entropy
 of binomial

---
 src/distribution/binomial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index a29a5bf..dc76f37 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -149,7 +149,10 @@ impl distribution::Entropy for Binomial {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| sum + self.mass(i) * self.mass(i).ln())
+            -(0..(self.n + 1))
+                .map(|i| self.mass(i))
+                .filter(|&mass| mass > 0.0)
+                .fold(0.0, |sum, mass| sum + mass * mass.ln())
         }
     }
 }
-- 
2.43.0


From aa5a411300e5ecfbe5cc535c48664e3f35ab11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 09/25] fix: correct the normal approximation in the inverse of
 binomial

---
 src/distribution/binomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index dc76f37..76c51e5 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -214,7 +214,7 @@ impl distribution::Inverse for Binomial {
             }
         } else if self.npq > 80.0 {
             // Use a normal approximation.
-            inverse_normal(self.p, self.np, self.npq, p).floor() as usize
+            (inverse_normal(self.p, self.np, self.npq, p).floor() as usize).min(self.n)
         } else {
             // Use Newton’s method starting at the mode.
             const ALPHA: f64 = 0.999;
@@ -333,7 +333,7 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     (2.0 * p - 1.0) * w2 / 6.0 +
     sd_em1 * w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
     w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
-    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0 / 1620.0) +
+    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0) / 1620.0 +
     sd_em3 * (
         w5 * (4.0 * p4 - 8.0 * p3 - 48.0 * p2 + 52.0 * p - 23.0) / 17280.0 +
         w3 * (256.0 * p4 - 512.0 * p3 - 147.0 * p2 + 403.0 * p - 137.0) / 38880.0 -
-- 
2.43.0


From f7dcaae271a4f9348f402a253f7a56fe66cc0dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 10/25] fix: do not round the mean to find the median of
 binomial where it is not valid

---
 src/distribution/binomial.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 76c51e5..6d7f36e 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -248,21 +248,22 @@ impl distribution::Mean for Binomial {
 
 impl distribution::Median for Binomial {
     fn median(&self) -> f64 {
-        use core::f64::consts::LN_2;
-        use distribution::Inverse;
+        use distribution::{Distribution, Inverse};
 
         if (self.np - self.np.trunc()) == 0.0 || (self.p == 0.5 && self.n % 2 != 0) {
             self.np
-        } else if self.p <= 1.0 - LN_2
-            || self.p >= LN_2
-            || (self.np.round() - self.np).abs() <= self.p.min(self.q)
-        {
+        } else if (self.np.round() - self.np).abs() <= self.p.min(self.q) {
             self.np.round()
-        } else if self.n > 1000 && self.npq > 80.0 {
-            // Use a normal approximation.
-            self.np.floor()
         } else {
-            self.inverse(0.5) as f64
+            // For many trials, the inverse can be off by one.
+            let median = self.inverse(0.5) as f64;
+            if self.distribution(median) < 0.5 {
+                median + 1.0
+            } else if self.distribution(median - 1.0) >= 0.5 {
+                median - 1.0
+            } else {
+                median
+            }
         }
     }
 }
-- 
2.43.0


From 4e4c687f2abd6f3ca9c71d80340c8fa3e9d19606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 11/25] fix: make the inverse of binomial terminate with the
 smallest suitable outcome

---
 src/distribution/binomial.rs | 46 ++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 6d7f36e..d03f617 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -179,7 +179,7 @@ impl distribution::Inverse for Binomial {
                 let mut k = 1;
                 let mut a = self.q.powi(self.n as i32);
                 let mut sum = a - p;
-                while sum < 0.0 {
+                while sum < 0.0 && k <= self.n {
                     a *= $prod_term(k);
                     sum += a;
                     k += 1;
@@ -192,12 +192,12 @@ impl distribution::Inverse for Binomial {
                 let mut k = 1;
                 let mut a = self.p.powi(self.n as i32);
                 let mut sum = (1.0 - p) - a;
-                while sum >= 0.0 {
+                while sum >= 0.0 && k <= self.n {
                     a *= $prod_term(k);
                     sum -= a;
                     k += 1;
                 }
-                self.n - k + 1
+                self.n + 1 - k
             });
         );
 
@@ -205,29 +205,45 @@ impl distribution::Inverse for Binomial {
             0
         } else if p == 1.0 {
             self.n
-        } else if self.n < 1000 {
+        } else if self.n < 1000
+            && self.q.powi(self.n as i32) >= f64::MIN_POSITIVE
+            && self.p.powi(self.n as i32) >= f64::MIN_POSITIVE
+        {
             // Find if top-down or bottom-up summation is better.
             if p <= self.distribution((self.n / 2) as f64) {
                 sum_bottom_up!(|k| self.p / self.q * ((self.n - k + 1) as f64 / k as f64))
             } else {
                 sum_top_down!(|k| self.q / self.p * ((self.n - k + 1) as f64 / k as f64))
             }
-        } else if self.npq > 80.0 {
+        } else if self.n >= 1000 && self.npq > 80.0 {
             // Use a normal approximation.
             (inverse_normal(self.p, self.np, self.npq, p).floor() as usize).min(self.n)
         } else {
-            // Use Newton’s method starting at the mode.
-            const ALPHA: f64 = 0.999;
-            let mut q = self.modes()[0] as f64;
-            let mut alpha = 1.0;
-            loop {
-                let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
-                if delta.abs() < 0.5 {
-                    return q as usize;
+            // Use Newton’s method starting at the mode. The answer is kept
+            // between two bounds; when a step disregards them, bisect instead.
+            let (mut low, mut high) = (0, self.n);
+            let mut q = self.modes()[0];
+            while low < high {
+                let error = p - self.distribution(q as f64);
+                let delta = error / self.mass(q);
+                if self.n >= 1000 && delta.abs() < 0.5 {
+                    return q;
                 }
-                q += delta;
-                alpha *= ALPHA;
+                if error > 0.0 {
+                    low = q + 1;
+                } else {
+                    high = q;
+                }
+                let next = (q as f64 + delta).round() as usize;
+                q = if delta > 0.0 && next < high {
+                    next.max(low)
+                } else if delta < 0.0 && next >= low {
+                    next.min(high.saturating_sub(1))
+                } else {
+                    low + (high - low) / 2
+                };
             }
+            low
         }
     }
 }
-- 
2.43.0


From fe985da5661748d1884b32231319f03256af0e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 12/25] fix: keep the density of gamma from overflowing for
 large shape parameters

---
 src/distribution/gamma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index d769a21..f0ef35b 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -10,7 +10,7 @@ use source::Source;
 pub struct Gamma {
     k: f64,
     theta: f64,
-    norm: f64,
+    ln_norm: f64,
 }
 
 impl Gamma {
@@ -25,7 +25,7 @@ impl Gamma {
         Gamma {
             k,
             theta,
-            norm: k.gamma() * theta.powf(k),
+            ln_norm: k.ln_gamma().0 + k * theta.ln(),
         }
     }
 
@@ -47,7 +47,7 @@ impl distribution::Continuous for Gamma {
         if x <= 0.0 {
             0.0
         } else {
-            x.powf(self.k - 1.0) * (-x / self.theta).exp() / self.norm
+            ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
         }
     }
 }
-- 
2.43.0


From f180b902d50d61bac9cac3273a342d7306fbc447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 13/25] fix: compute the density of gamma at zero

---
 src/distribution/gamma.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index f0ef35b..31d2906 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -44,10 +44,16 @@ impl Gamma {
 
 impl distribution::Continuous for Gamma {
     fn density(&self, x: f64) -> f64 {
-        if x <= 0.0 {
+        if x < 0.0 {
             0.0
         } else {
-            ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
+            // A unit shape parameter contributes nothing, even at zero.
+            let power = if self.k == 1.0 {
+                0.0
+            } else {
+                (self.k - 1.0) * x.ln()
+            };
+            (power - x / self.theta - self.ln_norm).exp()
         }
     }
 }
-- 
2.43.0


From b0a70278b2971b4a9a7fd87fe2fb0cfde81dac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:31 +0000
Subject: [PATCH 14/25] fix: keep the samples of beta from degenerating for
 small shape parameters

---
 src/distribution/beta.rs  | 8 +++++---
 src/distribution/gamma.rs | 8 ++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index cc53747..6dd5bd9 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -175,9 +175,11 @@ impl distribution::Sample for Beta {
         S: Source,
     {
         use distribution::gamma;
-        let x = gamma::sample(self.alpha, source);
-        let y = gamma::sample(self.beta, source);
-        self.a + (self.b - self.a) * x / (x + y)
+        // Both variables can vanish when the shape parameters are small. Hence,
+        // stay on the logarithmic scale.
+        let x = gamma::sample_ln(self.alpha, source);
+        let y = gamma::sample_ln(self.beta, source);
+        self.a + (self.b - self.a) / (1.0 + (y - x).exp())
     }
 }
 
diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index 31d2906..206b578 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -172,6 +172,14 @@ pub fn sample<S: Source>(k: f64, source: &mut S) -> f64 {
     }
 }
 
+/// Draw a sample from the standard Gamma distribution on the logarithmic scale.
+pub fn sample_ln<S: Source>(k: f64, source: &mut S) -> f64 {
+    if k < 1.0 {
+        return sample(1.0 + k, source).ln() + source.read::<f64>().ln() / k;
+    }
+    sample(k, source).ln()
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::{vec, vec::Vec};
-- 
2.43.0


From c4c732de7927cf7a694f30125808bd0a6e6d31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 15/25] fix: keep the density of lognormal from dividing zero
 by zero near zero

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index bd6baf8..43f3ed5 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -54,7 +54,7 @@ impl distribution::Continuous for Lognormal {
             0.0
         } else {
             let &Lognormal { mu, sigma, .. } = self;
-            (-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (x * sigma * (2.0 * PI).sqrt())
+            (-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / x / (sigma * (2.0 * PI).sqrt())
         }
     }
 }
-- 
2.43.0


From 236586b919bc57d37055fbc0cfc507e46471dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 16/25] fix: stop the search in the inverse of binomial early
 only next to the answer

---
 src/distribution/binomial.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index d03f617..f6ba748 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -226,7 +226,11 @@ impl distribution::Inverse for Binomial {
             while low < high {
                 let error = p - self.distribution(q as f64);
                 let delta = error / self.mass(q);
-                if self.n >= 1000 && delta.abs() < 0.5 {
+                // Stop early, but only next to the answer.
+                if self.n >= 1000
+                    && delta.abs() < 0.5
+                    && (error <= 0.0 || p <= self.distribution((q + 1) as f64))
+                {
                     return q;
                 }
                 if error > 0.0 {
-- 
2.43.0


From dd7273f66e26138c4eef8aba70e33839bce969f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 17/25] fix: do not drop the outcomes of binomial with a tiny
 probability of failure

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index f6ba748..51dc2e5 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -91,7 +91,7 @@ impl distribution::Discrete for Binomial {
         if self.p == 0.0 {
             return if x == 0 { 1.0 } else { 0.0 };
         }
-        if self.p == 1.0 {
+        if self.q == 0.0 {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
-- 
2.43.0


From df2b1bb8765ea91934d0bc256cec85c800dfd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 18/25] fix: let the density of gamma vanish at infinity

---
 src/distribution/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index 206b578..23a63d8 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -44,7 +44,7 @@ impl Gamma {
 
 impl distribution::Continuous for Gamma {
     fn density(&self, x: f64) -> f64 {
-        if x < 0.0 {
+        if x < 0.0 || x == f64::INFINITY {
             0.0
         } else {
             // A unit shape parameter contributes nothing, even at zero.
-- 
2.43.0


From bd9229896f07721ef166b2a6768b97bb77a27263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 19/25] fix: keep the samples of cauchy finite when the
 denominator vanishes

---
 src/distribution/cauchy.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/distribution/cauchy.rs b/src/distribution/cauchy.rs
index d56b93d..21fef54 100644
--- a/src/distribution/cauchy.rs
+++ b/src/distribution/cauchy.rs
@@ -110,8 +110,12 @@ impl distribution::Sample for Cauchy {
     {
         let gaussian = distribution::Gaussian::new(0.0, 1.0);
         let a = gaussian.sample(source);
-        let b = gaussian.sample(source);
-        self.x_0() + self.gamma() * a / (b.abs() + f64::MIN_POSITIVE)
+        let mut b = gaussian.sample(source);
+        // The denominator vanishes once in a while.
+        while b == 0.0 {
+            b = gaussian.sample(source);
+        }
+        self.x_0() + self.gamma() * a / b.abs()
     }
 }
 
-- 
2.43.0


From 65df3cdb2623692e978ac8e7321113db8145238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 20/25] fix: compute the quantile of logistic at negative zero
 and subnormal probabilities

---
 src/distribution/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index c9370ed..bf53707 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -71,7 +71,7 @@ impl distribution::Inverse for Logistic {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
         should!((0.0..=1.0).contains(&p));
-        self.mu - self.s * (1.0 / p - 1.0).ln()
+        self.mu + self.s * (p / (1.0 - p)).ln()
     }
 }
 
-- 
2.43.0


From 88abc6c0ce8354bc1376214e285f15e88b937a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 21/25] fix: keep the variance and skewness of triangular from
 cancelling for large parameters

---
 src/distribution/triangular.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index f2c1682..ffd09d5 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -156,8 +156,10 @@ impl distribution::Sample for Triangular {
 impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        let npart = (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let dpart = a * a + b * b + c * c - a * b - a * c - b * c;
+        // Work with differences as the squares of large parameters cancel out.
+        let (ab, ac, cb) = (b - a, c - a, b - c);
+        let npart = (cb - ac) * (ab + ac) * (ab + cb);
+        let dpart = ac * ac + ac * cb + cb * cb;
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
@@ -165,7 +167,9 @@ impl distribution::Skewness for Triangular {
 impl distribution::Variance for Triangular {
     fn variance(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        (a * a + b * b + c * c - a * b - a * c - b * c) / 18.0
+        // Work with differences as the squares of large parameters cancel out.
+        let (ac, cb) = (c - a, b - c);
+        (ac * ac + ac * cb + cb * cb) / 18.0
     }
 }
 
-- 
2.43.0


From 88f19338910f9e1753688a10b9cd55832578d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 22/25] fix: keep the moments of lognormal from cancelling for
 small sigma

---
 src/distribution/lognormal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index 43f3ed5..ef9ccfa 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -89,7 +89,7 @@ impl distribution::Kurtosis for Lognormal {
     #[inline]
     fn kurtosis(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (4.0 * s2).exp() + 2.0 * (3.0 * s2).exp() + 3.0 * (2.0 * s2).exp() - 6.0
+        (4.0 * s2).exp_m1() + 2.0 * (3.0 * s2).exp_m1() + 3.0 * (2.0 * s2).exp_m1()
     }
 }
 
@@ -127,8 +127,8 @@ impl distribution::Sample for Lognormal {
 impl distribution::Skewness for Lognormal {
     #[inline]
     fn skewness(&self) -> f64 {
-        let es2 = (self.sigma * self.sigma).exp();
-        (es2 - 1.0).sqrt() * (2.0 + es2)
+        let es2_m1 = (self.sigma * self.sigma).exp_m1();
+        es2_m1.sqrt() * (3.0 + es2_m1)
     }
 }
 
@@ -136,7 +136,7 @@ impl distribution::Variance for Lognormal {
     #[inline]
     fn variance(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (s2.exp() - 1.0) * (2.0 * self.mu + s2).exp()
+        s2.exp_m1() * (2.0 * self.mu + s2).exp()
     }
 }
 
-- 
2.43.0


From 1cc49dd9ff03c37ec5b466bea9ca62660a766f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:42 +0000
Subject: [PATCH 23/25] fix: keep the entropy of lognormal from overflowing for
 large mu

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index ef9ccfa..482402d 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -75,7 +75,7 @@ impl distribution::Entropy for Lognormal {
     #[inline]
     fn entropy(&self) -> f64 {
         use core::f64::consts::PI;
-        (self.sigma * (self.mu + 0.5).exp() * (2.0 * PI).sqrt()).ln()
+        self.mu + 0.5 + (self.sigma * (2.0 * PI).sqrt()).ln()
     }
 }
 
-- 
2.43.0


From d71b9007cf7683f27ebb99afaaf08ee379271e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:49 +0000
Subject: [PATCH 24/25] fix: keep the inverse of binomial from decreasing in
 the tails of the normal approximation

Far in the tails the asymptotic expansion turns around: with 1000 trials and
p = 0.9, the inverse at 1e-323 was 627 and at 1e-200 only 576. Start the search
at the approximation instead of returning it.
---
 src/distribution/binomial.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 51dc2e5..7c2d71c 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -160,9 +160,9 @@ impl distribution::Entropy for Binomial {
 impl distribution::Inverse for Binomial {
     /// Compute the inverse of the cumulative distribution function.
     ///
-    /// For small `n`, a simple summation is utilized. For large `n` and large
-    /// variances, a normal asymptotic approximation is used. Otherwise,
-    /// Newton’s method is employed.
+    /// For small `n`, a simple summation is utilized. Otherwise, Newton’s method
+    /// is employed; for large `n` and large variances, it starts at a normal
+    /// asymptotic approximation.
     ///
     /// ## References
     ///
@@ -215,19 +215,23 @@ impl distribution::Inverse for Binomial {
             } else {
                 sum_top_down!(|k| self.q / self.p * ((self.n - k + 1) as f64 / k as f64))
             }
-        } else if self.n >= 1000 && self.npq > 80.0 {
-            // Use a normal approximation.
-            (inverse_normal(self.p, self.np, self.npq, p).floor() as usize).min(self.n)
         } else {
-            // Use Newton’s method starting at the mode. The answer is kept
-            // between two bounds; when a step disregards them, bisect instead.
+            // Use Newton’s method starting at a normal approximation or at the
+            // mode. The answer is kept between two bounds; when a step disregards
+            // them, bisect instead.
             let (mut low, mut high) = (0, self.n);
-            let mut q = self.modes()[0];
+            let normal = self.n >= 1000 && self.npq > 80.0;
+            let mut q = if normal {
+                (inverse_normal(self.p, self.np, self.npq, p).floor() as usize).min(self.n)
+            } else {
+                self.modes()[0]
+            };
             while low < high {
                 let error = p - self.distribution(q as f64);
                 let delta = error / self.mass(q);
                 // Stop early, but only next to the answer.
                 if self.n >= 1000
+                    && !normal
                     && delta.abs() < 0.5
                     && (error <= 0.0 || p <= self.distribution((q + 1) as f64))
                 {
-- 
2.43.0


From 597046a0c6f73e4f1c1397ab0d0bebd5f9ae539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 25/25] fix: sum up the smaller tail in the inverse of binomial

With 50 trials and p = 0.99, the inverse at 1e-30 was 0, below the inverse at
1e-36 (26): the probability was lost next to one when summing from the top.
---
 src/distribution/binomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 7c2d71c..be826c2 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -209,8 +209,8 @@ impl distribution::Inverse for Binomial {
             && self.q.powi(self.n as i32) >= f64::MIN_POSITIVE
             && self.p.powi(self.n as i32) >= f64::MIN_POSITIVE
         {
-            // Find if top-down or bottom-up summation is better.
-            if p <= self.distribution((self.n / 2) as f64) {
+            // Sum up what is smaller, so as not to lose it next to one.
+            if p <= 0.5 {
                 sum_bottom_up!(|k| self.p / self.q * ((self.n - k + 1) as f64 / k as f64))
             } else {
                 sum_top_down!(|k| self.q / self.p * ((self.n - k + 1) as f64 / k as f64))
-- 
2.43.0

