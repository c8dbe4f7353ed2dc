From c99fe4970ac75442dc2a5aa68fa031308c23315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 01/36] fix: ic2par returned nan where rounding pushes the
 cosine of an angle past one

At an apside (and on the node line) the argument of acos can exceed one by an
ulp, so that e.g. ic2par of r=(0.2,0,0), v=(0,0,2.236...) had a nan true anomaly.
---
 src/core_astro/ic2par2ic.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/ic2par2ic.cpp b/src/core_astro/ic2par2ic.cpp
index ae0b091..adf599d 100644
--- a/src/core_astro/ic2par2ic.cpp
+++ b/src/core_astro/ic2par2ic.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 
@@ -22,6 +23,15 @@ namespace kep3
 using xt::linalg::cross;
 using xt::linalg::dot;
 
+namespace
+{
+// acos of the cosine of an angle: the argument can exceed one by rounding (e.g. at an apside), where acos returns nan.
+double clamped_acos(double x)
+{
+    return std::acos(std::clamp(x, -1., 1.));
+}
+} // namespace
+
 // r,v,mu -> keplerian osculating elements [a,e,i,W,w,f]. The last
 // is the true anomaly. The semi-major axis a is positive for ellipses, negative
 // for hyperbolae. The anomalies W, w, f are in [0, 2pi]. Inclination is in [0,
@@ -61,25 +71,25 @@ std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel
 
     // Inclination is calculated and stored as the third orbital element
     // i = acos(hy/h) in [0, pi]
-    retval[2] = std::acos(h(2) / xt::linalg::norm(h));
+    retval[2] = clamped_acos(h(2) / xt::linalg::norm(h));
 
     // Argument of pericentrum is calculated and stored as the fifth orbital
     // element. w = acos(n.e)\|n||e| in [0, 2pi]
     auto temp = dot(n, evett);
-    retval[4] = std::acos(temp(0) / retval[1]);
+    retval[4] = clamped_acos(temp(0) / retval[1]);
     if (evett(2) < 0) {
         retval[4] = 2 * pi - retval[4];
     }
     // Argument of longitude is calculated and stored as the fourth orbital
     // element in [0, 2pi]
-    retval[3] = std::acos(n(0));
+    retval[3] = clamped_acos(n(0));
     if (n(1) < 0) {
         retval[3] = 2 * pi - retval[3];
     }
 
     // 4 - We compute ni: the true anomaly in [0, 2pi]
     temp = dot(evett, r0);
-    auto f = std::acos(temp(0) / retval[1] / R0);
+    auto f = clamped_acos(temp(0) / retval[1] / R0);
 
     temp = dot(r0, v0);
     if (temp(0) < 0.0) {
-- 
2.43.0


From e8267e1956550b308b4635f504424bb2a8d46318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 02/36] fix: propagate_lagrangian_u bracketed the universal
 anomaly in the wrong units

---
 src/core_astro/propagate_lagrangian.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core_astro/propagate_lagrangian.cpp b/src/core_astro/propagate_lagrangian.cpp
index 902be8e..34569d2 100644
--- a/src/core_astro/propagate_lagrangian.cpp
+++ b/src/core_astro/propagate_lagrangian.cpp
@@ -203,9 +203,14 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
 
     // solve kepler's equation in the universal anomaly DS
     double IG = 0;
+    // The universal anomaly has the dimension of the square root of a length: sqrt(a) times the difference in the
+    // eccentric (hyperbolic) anomaly. The guess and its bounds must be in the same units.
+    double const scale = (alpha != 0.) ? 1. / std::sqrt(std::abs(alpha)) : std::sqrt(R0);
     alpha > 0. ? IG = std::sqrt(mu) * dt_copy * std::abs(alpha)
-               : IG = 3.; // TODO(darioizzo): initial guess for the universal
-                          // anomaly. For hyperbolas is 3 .... can be better?
+               : IG = 3. * scale; // TODO(darioizzo): initial guess for the universal
+                                  // anomaly. For hyperbolas is 3 .... can be better?
+    double const IG_min = IG - 2 * pi * scale;
+    double const IG_max = IG + (alpha > 0. ? 2 * pi : 50.) * scale;
 
     // Solve Kepler Equation in DS (univrsal anomaly difference)
     const int digits = std::numeric_limits<double>::digits;
@@ -216,7 +221,7 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
         [dt_copy, R0, VR0, alpha, mu](double DS) {
             return std::make_tuple(kepDS(DS, dt_copy, R0, VR0, alpha, mu), d_kepDS(DS, R0, VR0, alpha, mu));
         },
-        IG, IG - 2 * pi, IG + 2 * pi, digits,
+        IG, IG_min, IG_max, digits,
         max_iter); // limiting the IG error within
                    // only pi will not work.
     if (max_iter == 100u) {
-- 
2.43.0


From 53a74588f874f6658013eb6836b7195803eb4908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 03/36] fix: lambert_problem lost or invented multi-revolution
 solutions where the search for the minimum time left (-1, 1)

---
 src/lambert_problem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 77b4a19..78f39e6 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -108,10 +108,17 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
             double err = 1.0;
             double T_min = T0;
             double x_old = 0.0, x_new = 0.0;
+            // The minimum is in (-1, 1) and bracketed: a step that leaves the bracket (it happens for lambda close to
+            // -1) is replaced by a bisection.
+            double x_min = -1.0, x_max = 1.0;
             while (true) {
                 dTdx(DT, DDT, DDDT, x_old, T_min);
                 if (DT != 0.0) {
+                    (DT < 0.0 ? x_min : x_max) = x_old;
                     x_new = x_old - DT * DDT / (DDT * DDT - DT * DDDT / 2.0);
+                    if (!(x_new > x_min && x_new < x_max)) {
+                        x_new = (x_min + x_max) / 2.0;
+                    }
                 }
                 err = std::abs(x_old - x_new);
                 if ((err < 1e-13) || (it > 12)) {
-- 
2.43.0


From b1685288d416e28018178aaa2beee7f09e330b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 04/36] fix: lambert_problem returned nan for positions aligned
 with the origin instead of rejecting them

---
 src/lambert_problem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 78f39e6..17db9e7 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -63,6 +63,10 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     auto irs = rs / Rs;
     auto irf = rf / Rf;
     auto ih = cross(irs, irf);
+    if (!(xt::linalg::norm(ih) > 0)) {
+        throw std::domain_error("lambert_problem: The two positions are aligned with the origin, "
+                                "the plane of the transfer is not defined");
+    }
     ih = ih / xt::linalg::norm(ih);
 
     if (ih(2) == 0) {
-- 
2.43.0


From b71f0f0aadc8a8c008a044159e992a3400f92510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 05/36] fix: sims_flanagan::set checked the old values of the
 leg instead of the new ones

---
 src/leg/sims_flanagan.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 604e459..e378dc5 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -123,7 +123,12 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
                         const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                         double isp, double mu, double cut)
 {
-    kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
+    kep3::leg::_check_throttles(throttles);
+    kep3::leg::_check_tof(tof);
+    kep3::leg::_check_max_thrust(max_thrust);
+    kep3::leg::_check_isp(isp);
+    kep3::leg::_check_mu(mu);
+    kep3::leg::_check_cut(cut);
     m_rvs = rvs;
     m_ms = ms;
     m_throttles = throttles;
-- 
2.43.0


From dd73ee3909c91c1a89cad3ee0f46acfe70d6784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 06/36] fix: sims_flanagan::compute_mc_grad returned nan where
 a throttle is zero, as in the default leg

---
 src/leg/sims_flanagan.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index e378dc5..ce49e79 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -337,7 +337,9 @@ std::pair<std::array<double, 49>, std::vector<double>> sims_flanagan::gradients_
         double Dvn = c / m[i] * un;
         dDv[i] = c / m[i] * du[i] - c / m[i] / m[i] * xt::linalg::dot(xt::transpose(u[i]), dm[i])
                  + m_max_thrust / m[i] * xt::linalg::dot(xt::transpose(u[i]), dtof) / nseg;
-        auto dDvn = c / m[i] / un * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
+        // The norm is not differentiable at a zero throttle, where we take its gradient as zero.
+        double const inv_un = (un == 0.) ? 0. : 1. / un;
+        auto dDvn = c / m[i] * inv_un * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
                     + m_max_thrust / m[i] * un * dtof / nseg;
         m[i + 1] = m[i] * std::exp(-Dvn * a);
         dm[i + 1] = -m[i + 1] * a * dDvn + std::exp(-Dvn * a) * dm[i];
-- 
2.43.0


From 15f234239cfd360513e4038ad2d91500dadd5cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:44 +0000
Subject: [PATCH 07/36] fix: epochs built from a duration were counted from
 1970 instead of MJD2000

---
 include/kep3/epoch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kep3/epoch.hpp b/include/kep3/epoch.hpp
index 2bde48d..3a6ad94 100644
--- a/include/kep3/epoch.hpp
+++ b/include/kep3/epoch.hpp
@@ -124,7 +124,7 @@ public:
      */
     template <typename Rep, typename Period>
     explicit epoch(std::chrono::duration<Rep, Period> duration)
-        : m_tp{std::chrono::duration_cast<microseconds>(duration)}
+        : m_tp{y2k + std::chrono::duration_cast<microseconds>(duration)}
     {
     }
 
-- 
2.43.0


From 0109ac74d3fda39d0edccf1ca2fc85395da8163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:44 +0000
Subject: [PATCH 08/36] fix: epoch accepted impossible years, months and days
 that wrap into valid ones

---
 src/epoch.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index cb857e8..84b1cc9 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -128,20 +128,21 @@ time_point epoch::make_tp(int y, unsigned mon, unsigned d, const std::int32_t h,
                           const std::int32_t s, const std::int32_t ms, const std::int32_t us)
 {
     // Construct and validate year, month and day.
+    // NOTE: the chrono types store only a few bits of the values, hence we also check that these are not changed.
     const std::chrono::year chr_y(y);
-    if (!chr_y.ok()) {
+    if (!chr_y.ok() || static_cast<int>(chr_y) != y) {
         throw std::invalid_argument(
             fmt::format("An invalid year value of {} was specified in the construction of a time point", y));
     }
 
     const std::chrono::month chr_mon(mon);
-    if (!chr_mon.ok()) {
+    if (!chr_mon.ok() || static_cast<unsigned>(chr_mon) != mon) {
         throw std::invalid_argument(
             fmt::format("An invalid month value of {} was specified in the construction of a time point", mon));
     }
 
     const std::chrono::day chr_d(d);
-    if (!chr_d.ok()) {
+    if (!chr_d.ok() || static_cast<unsigned>(chr_d) != d) {
         throw std::invalid_argument(
             fmt::format("An invalid day value of {} was specified in the construction of a time point", d));
     }
-- 
2.43.0


From 6b8307c4b098bd221cb7be5d42949467ab205634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:12 +0000
Subject: [PATCH 09/36] fix: fb_con and fb_dv returned nan for parallel
 velocities where rounding pushes the cosine past one

---
 src/core_astro/flyby.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/flyby.cpp b/src/core_astro/flyby.cpp
index 34094b3..dd5b738 100644
--- a/src/core_astro/flyby.cpp
+++ b/src/core_astro/flyby.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <utility>
@@ -30,8 +31,9 @@ std::pair<double, double> fb_con(const std::array<double, 3> &v_rel_in, const st
 
     const double e_min = 1 + safe_radius / mu * Vin2;
     const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+        = std::acos(std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                                   / std::sqrt(Vin2 * Vout2),
+                               -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
     return {eq_V2, ineq_delta};
 }
@@ -51,8 +53,9 @@ double fb_dv(const std::array<double, 3> &v_rel_in, const std::array<double, 3>
 
     const double e_min = 1 + safe_radius / mu * Vin2;
     const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+        = std::acos(std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                                   / std::sqrt(Vin2 * Vout2),
+                               -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
 
     double dv = 0.;
-- 
2.43.0


From b9c1cadc871856f52f1c3479c1247f63a46b7d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:12 +0000
Subject: [PATCH 10/36] fix: planets refused the mean anomaly of ellipses with
 a semi-major axis below one

---
 src/planet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index dd45724..05b3d57 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -47,7 +47,7 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
         case kep3::elements_type::KEP_F:
             break;
         case kep3::elements_type::KEP_M:
-            if (retval[0] < 1) {
+            if (retval[0] < 0) {
                 throw std::logic_error("Mean anomaly is only available for ellipses.");
             }
             retval[5] = kep3::f2m(retval[5], retval[1]);
-- 
2.43.0


From b44c718076121e1c16056be64e4908c976aee304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:12 +0000
Subject: [PATCH 11/36] fix: keplerian refused equinoctial elements of
 hyperbolas, checking p,f as if they were a,e

---
 src/udpla/keplerian.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index 7707cec..d92633b 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -55,8 +55,9 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
       m_radius(added_params[1]), m_safe_radius(added_params[2]), m_period(), m_ellipse(), m_pos_vel_0(),
       m_kep_f_elements(elem)
 {
-    // We check if the input is consistent with the pykep convention of a,e
-    if (m_kep_f_elements[0] * (1 - m_kep_f_elements[1]) <= 0) {
+    // We check if the input is consistent with the pykep convention of a,e (the equinoctial elements contain p,f instead)
+    const bool equinoctial = (el_type == kep3::elements_type::MEQ || el_type == kep3::elements_type::MEQ_R);
+    if (m_kep_f_elements[0] * (equinoctial ? 1. : 1 - m_kep_f_elements[1]) <= 0) {
         throw std::domain_error("A Keplerian planet constructor was called with with non compatible "
                                 "a,e:"
                                 "The following must hold: a<0 -> e>1 [a>0 -> e<1].");
-- 
2.43.0


From 2deaf6c5a9273538ed5fb51403e91951543815ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 12/36] fix: sims_flanagan_hf::set changed the leg before
 refusing its arguments

---
 src/leg/sims_flanagan_hf.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 2cde273..1022415 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -249,6 +249,14 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
                            const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                            double isp, double mu, double cut, double tol)
 {
+    // Check everything before changing anything.
+    kep3::leg::_check_throttles(throttles);
+    kep3::leg::_check_tof(tof);
+    kep3::leg::_check_max_thrust(max_thrust);
+    kep3::leg::_check_isp(isp);
+    kep3::leg::_check_mu(mu);
+    kep3::leg::_check_cut(cut);
+    kep3::leg::_check_tol(tol);
     // Set initial state
     set_rvs(rvs);
     set_ms(ms);
@@ -265,7 +273,6 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
@@ -277,6 +284,14 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
                            const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp, double mu,
                            double cut, double tol)
 {
+    // Check everything before changing anything.
+    kep3::leg::_check_throttles(throttles);
+    kep3::leg::_check_tof(tof);
+    kep3::leg::_check_max_thrust(max_thrust);
+    kep3::leg::_check_isp(isp);
+    kep3::leg::_check_mu(mu);
+    kep3::leg::_check_cut(cut);
+    kep3::leg::_check_tol(tol);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
@@ -289,7 +304,6 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
@@ -300,6 +314,9 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double time_of_flight)
 {
+    // Check everything before changing anything.
+    kep3::leg::_check_throttles(throttles);
+    kep3::leg::_check_tof(time_of_flight);
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
@@ -307,7 +324,6 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    _sanity_checks(throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-- 
2.43.0


From 3e55793778d6b5d8ebd7bdaffd513ef4eb742868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 13/36] fix: sims_flanagan_hf kept integrating with the old
 max_thrust, isp, mu and tol after they were set

---
 src/leg/sims_flanagan_hf.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 1022415..d564cfa 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -203,16 +203,23 @@ void sims_flanagan_hf::set_max_thrust(double max_thrust)
 {
     kep3::leg::_check_max_thrust(max_thrust);
     m_max_thrust = max_thrust;
+    // The thrusts scale with the maximum thrust.
+    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(),
+                   [this](double throttle) { return throttle * get_max_thrust(); });
 }
 void sims_flanagan_hf::set_isp(double isp)
 {
     kep3::leg::_check_isp(isp);
     m_isp = isp;
+    *(m_tas.get_pars_data() + 1) = m_isp * kep3::G0;
+    *(m_tas_var.get_pars_data() + 1) = m_isp * kep3::G0;
 }
 void sims_flanagan_hf::set_mu(double mu)
 {
     kep3::leg::_check_mu(mu);
     m_mu = mu;
+    *m_tas.get_pars_data() = m_mu;
+    *m_tas_var.get_pars_data() = m_mu;
 }
 void sims_flanagan_hf::set_cut(double cut)
 {
@@ -224,7 +231,15 @@ void sims_flanagan_hf::set_cut(double cut)
 void sims_flanagan_hf::set_tol(double tol)
 {
     kep3::leg::_check_tol(tol);
+    if (tol == m_tol) {
+        return;
+    }
+    // The tolerance is fixed at construction: we need new integrators.
+    m_tas = kep3::ta::get_ta_stark(tol);
+    m_tas_var = kep3::ta::get_ta_stark_var(tol);
     m_tol = tol;
+    set_mu(m_mu);
+    set_isp(m_isp);
 }
 void sims_flanagan_hf::set_rvms(const std::array<double, 7> &rvms)
 {
@@ -266,10 +281,10 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
     m_throttles = throttles;
     m_tof = tof;
     m_max_thrust = max_thrust;
-    m_isp = isp;
-    m_mu = mu;
     m_cut = cut;
-    m_tol = tol;
+    set_tol(tol);
+    set_isp(isp);
+    set_mu(mu);
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
@@ -297,10 +312,10 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     set_rvmf(rvmf);
     m_tof = tof;
     m_max_thrust = max_thrust;
-    m_isp = isp;
-    m_mu = mu;
     m_cut = cut;
-    m_tol = tol;
+    set_tol(tol);
+    set_isp(isp);
+    set_mu(mu);
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-- 
2.43.0


From 25e3164a5c50dcc415d095593d49d15bf4cc20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 14/36] fix: archives of sims_flanagan_hf left out the
 variational integrator, so that loaded legs wrote out of bounds

---
 include/kep3/leg/sims_flanagan_hf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index fce03a7..66c1010 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -152,6 +152,7 @@ private:
         ar & m_nseg_fwd;
         ar & m_nseg_bck;
         ar & m_tas;
+        ar & m_tas_var;
     }
 
     // Initial rvm state
-- 
2.43.0


From 060b034af6e1366aa432c88bd1117cfaeb038d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 15/36] fix: sims_flanagan_hf::get_state_history read past the
 time grid of legs with one segment

---
 src/leg/sims_flanagan_hf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index d564cfa..a6afe08 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -802,7 +802,7 @@ std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned gr
     double timestep = 0.0;
     leg_time_grid.push_back(timestep);
 
-    for (decltype(m_nseg) i = 0; i < grid_points_per_segment * m_nseg - 2; ++i) {
+    for (decltype(m_nseg) i = 0; i < (grid_points_per_segment - 1) * m_nseg; ++i) {
         timestep += (prop_seg_duration / (grid_points_per_segment - 1));
         leg_time_grid.push_back(timestep);
     }
-- 
2.43.0


From ec71d184a98121191682d762f5db043787094d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:02 +0000
Subject: [PATCH 16/36] fix: the sizes of the variational integrator caches
 were read under the wrong mutex

---
 src/ta/cr3bp.cpp | 2 +-
 src/ta/stark.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ta/cr3bp.cpp b/src/ta/cr3bp.cpp
index ae4b742..5cc362c 100644
--- a/src/ta/cr3bp.cpp
+++ b/src/ta/cr3bp.cpp
@@ -116,7 +116,7 @@ size_t get_ta_cr3bp_cache_dim()
 size_t get_ta_cr3bp_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_cr3bp_mutex);
+    std::lock_guard const lock(ta_cr3bp_var_mutex);
     return ta_cr3bp_var_cache.size();
 }
 
diff --git a/src/ta/stark.cpp b/src/ta/stark.cpp
index 9885a34..2b82bf5 100644
--- a/src/ta/stark.cpp
+++ b/src/ta/stark.cpp
@@ -127,7 +127,7 @@ size_t get_ta_stark_cache_dim()
 size_t get_ta_stark_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_stark_mutex);
+    std::lock_guard const lock(ta_stark_var_mutex);
     return ta_stark_var_cache.size();
 }
 
-- 
2.43.0


From 10a23ec692b3da350ad0693c96a0b492b42b7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 17/36] fix: sims_flanagan_hf::compute_mc_grad returned
 derivatives by the thrusts in place of the throttles

---
 src/leg/sims_flanagan_hf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index a6afe08..a9431c8 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -732,7 +732,7 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
                                      "any leg and therefore cannot find the corresponding gradients."); // LCOV_EXCL_LINE
         }
         xt::view(xgrad_final_throttle, xt::all(), xt::range(3 * i, 3 * (i + 1)))
-            = xt::linalg::dot(corresponding_M, current_U);
+            = xt::linalg::dot(corresponding_M, current_U) * m_max_thrust; // From thrusts to throttles.
     }
 
     // ToF derivatives
-- 
2.43.0


From 923108a3f2f17f02457ed7d9730a3fb8c1fdce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:09 +0000
Subject: [PATCH 18/36] fix: the legs converted a negative or nan number of
 segments to unsigned before checking the cut

---
 src/leg/sf_checks.cpp        |  2 +-
 src/leg/sims_flanagan.cpp    |  7 +++++--
 src/leg/sims_flanagan_hf.cpp | 14 ++++++++++----
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/leg/sf_checks.cpp b/src/leg/sf_checks.cpp
index 6ced0cc..5133bfc 100644
--- a/src/leg/sf_checks.cpp
+++ b/src/leg/sf_checks.cpp
@@ -53,7 +53,7 @@ void _check_mu(double mu)
 }
 void _check_cut(double cut)
 {
-    if (cut < 0. || cut > 1.) {
+    if (!(cut >= 0. && cut <= 1.)) {
         throw std::domain_error("The parameter cut of a sims_flanagan leg must be in [0, 1].");
     }
 }
diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index ce49e79..9d7eae0 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -47,9 +47,12 @@ sims_flanagan::sims_flanagan(const std::array<std::array<double, 3>, 2> &rvs, do
                              double isp, double mu, double cut)
     : m_rvs(rvs), m_ms(ms), m_throttles(std::move(throttles)), m_rvf(rvf), m_mf(mf), m_tof(tof),
       m_max_thrust(max_thrust), m_isp(isp), m_mu(mu), m_cut(cut),
-      m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u),
-      m_nseg_fwd(static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut)), m_nseg_bck(m_nseg - m_nseg_fwd)
+      m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u)
 {
+    // The cut is checked before it is used: converting a negative or a nan number of segments is undefined.
+    kep3::leg::_check_cut(m_cut);
+    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
+    m_nseg_bck = m_nseg - m_nseg_fwd;
     kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
 }
 
diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index a9431c8..96f76dc 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -76,9 +76,12 @@ sims_flanagan_hf::sims_flanagan_hf(const std::array<std::array<double, 3>, 2> &r
                                    const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof,
                                    double max_thrust, double isp, double mu, double cut, double tol)
     : m_throttles(std::move(throttles)), m_tof(tof), m_max_thrust(max_thrust), m_isp(isp), m_mu(mu), m_cut(cut),
-      m_tol(tol), m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u),
-      m_nseg_fwd(static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut)), m_nseg_bck(m_nseg - m_nseg_fwd)
+      m_tol(tol), m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u)
 {
+    // The cut is checked before it is used: converting a negative or a nan number of segments is undefined.
+    kep3::leg::_check_cut(m_cut);
+    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
+    m_nseg_bck = m_nseg - m_nseg_fwd;
     // We perform some sanity checks on the user provided inputs
     kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
@@ -116,9 +119,12 @@ sims_flanagan_hf::sims_flanagan_hf(const std::array<double, 7> &rvms, std::vecto
                                    const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp,
                                    double mu, double cut, double tol)
     : m_rvms(rvms), m_throttles(std::move(throttles)), m_rvmf(rvmf), m_tof(tof), m_max_thrust(max_thrust), m_isp(isp),
-      m_mu(mu), m_cut(cut), m_tol(tol), m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u),
-      m_nseg_fwd(static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut)), m_nseg_bck(m_nseg - m_nseg_fwd)
+      m_mu(mu), m_cut(cut), m_tol(tol), m_nseg(static_cast<unsigned>(m_throttles.size()) / 3u)
 {
+    // The cut is checked before it is used: converting a negative or a nan number of segments is undefined.
+    kep3::leg::_check_cut(m_cut);
+    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
+    m_nseg_bck = m_nseg - m_nseg_fwd;
     // We perform some sanity checks on the user provided inputs
     kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
-- 
2.43.0


From 717c7029b663131fa8f7dd1166690029457ddf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 19/36] fix: lambert_problem converted the largest number of
 revolutions to unsigned before limiting it

---
 src/lambert_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 17db9e7..2daef16 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -100,8 +100,8 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     // 2 - We now have lambda, T and we will find all x
     // 2.1 - Let us first detect the maximum number of revolutions for which there
     // exists a solution
-    m_Nmax = static_cast<unsigned>(T / kep3::pi);
-    m_Nmax = std::min(m_multi_revs, m_Nmax);
+    // NOTE: the minimum is taken before the conversion, since T / pi may not be representable as an unsigned.
+    m_Nmax = static_cast<unsigned>(std::max(0., std::min(T / kep3::pi, static_cast<double>(m_multi_revs))));
     double const T00 = std::acos(m_lambda) + m_lambda * std::sqrt(1.0 - lambda2);
     double const T0 = (T00 + m_Nmax * kep3::pi);
     double const T1 = 2.0 / 3.0 * (1.0 - lambda3);
-- 
2.43.0


From a68ac80f74e85974e8883e4ed84fa270742db12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 20/36] fix: epochs were made from nan and from days beyond
 their range

---
 src/epoch.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index 84b1cc9..5c87844 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -8,6 +8,7 @@
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 #include <chrono>
+#include <cmath>
 #include <iostream>
 #include <stdexcept>
 #include <string>
@@ -211,6 +212,12 @@ bool operator!=(const epoch &c1, const epoch &c2)
  */
 time_point epoch::tp_from_days(double days)
 {
+    // NOTE: 64 bits of microseconds hold some 10^8 days on each side of 1970, offsets between calendars included.
+    constexpr double max_days = 1e8;
+    if (!(std::abs(days) <= max_days)) {
+        throw std::invalid_argument(
+            fmt::format("An epoch cannot be constructed from {} days, which are out of its range", days));
+    }
     return y2k + std::chrono::duration_cast<microseconds>(std::chrono::duration<double, seconds_day_ratio>(days));
 }
 
-- 
2.43.0


From ec0d6bfc4b4362ff7862ff45d33424152642476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 21/36] fix: pykep.DEG2RAD held the value of RAD2DEG

---
 pykep/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 780bbf8..57e72aa 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -59,7 +59,7 @@ PYBIND11_MODULE(core, m) // NOLINT
     m.attr("EARTH_J2") = py::float_(kep3::EARTH_J2);
     m.attr("EARTH_RADIUS") = py::float_(kep3::EARTH_RADIUS);
     m.attr("RAD2DEG") = py::float_(kep3::RAD2DEG);
-    m.attr("DEG2RAD") = py::float_(kep3::RAD2DEG);
+    m.attr("DEG2RAD") = py::float_(kep3::DEG2RAD);
     m.attr("DAY2SEC") = py::float_(kep3::DAY2SEC);
     m.attr("SEC2DAY") = py::float_(kep3::SEC2DAY);
     m.attr("DAY2YEAR") = py::float_(kep3::DAY2YEAR);
-- 
2.43.0


From c089d660f45ef7ff552cada5952100fa72f3342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 22/36] fix: the legs could not be pickled: their names did not
 lead back to the classes

---
 pykep/leg/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykep/leg/__init__.py b/pykep/leg/__init__.py
index 8963bcf..1667d96 100644
--- a/pykep/leg/__init__.py
+++ b/pykep/leg/__init__.py
@@ -15,11 +15,13 @@ from .. import core as _core
 # would report them as aliases and fail to document these classes)
 sims_flanagan = _core._sims_flanagan
 sims_flanagan.__name__ = "sims_flanagan"
-sims_flanagan.__module__ = "leg"
+sims_flanagan.__qualname__ = "sims_flanagan"
+sims_flanagan.__module__ = "pykep.leg"
 
 sims_flanagan_hf = _core._sims_flanagan_hf
 sims_flanagan_hf.__name__ = "sims_flanagan_hf"
-sims_flanagan_hf.__module__ = "leg"
+sims_flanagan_hf.__qualname__ = "sims_flanagan_hf"
+sims_flanagan_hf.__module__ = "pykep.leg"
 
 # Removing core from the list of imported symbols.
 del _core
-- 
2.43.0


From f8845c99f209015a474dd06915823d8417a8eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 23/36] fix: planet.extract(object) did not return the Python
 udpla

---
 pykep/_patch_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/_patch_planet.py b/pykep/_patch_planet.py
index cf977c4..5def529 100644
--- a/pykep/_patch_planet.py
+++ b/pykep/_patch_planet.py
@@ -60,7 +60,7 @@ def _planet_extract(self, t):
     # Else we extract the UDPLA from the python class, check its type 
     # and see if we want to return None or not as to have a consistent behaviour
     udpla = self._py_extract()
-    if (type(udpla) == t):
+    if (t is object or type(udpla) == t):
         return udpla
     else:
         return None
-- 
2.43.0


From a4e635be8ed4cc0bb11901f61670e381d2ee67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 24/36] fix: planet.eph_v read out of bounds when the eph_v of
 a Python udpla returned too few values

---
 pykep/core.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 57e72aa..575e4e9 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -212,6 +212,12 @@ PYBIND11_MODULE(core, m) // NOLINT
         "eph_v",
         [](const kep3::planet &pl, const std::vector<double> &eps) {
             std::vector<double> res = pl.eph_v(eps);
+            if (res.size() != eps.size() * 6u) {
+                pykep::py_throw(PyExc_ValueError, ("the eph_v() method of the planet returned " + std::to_string(res.size())
+                                                   + " values for " + std::to_string(eps.size())
+                                                   + " epochs: six are needed for each")
+                                                      .c_str());
+            }
             // We create a capsule for the py::array_t to manage ownership change.
             auto vec_ptr = std::make_unique<std::vector<double>>(std::move(res));
 
-- 
2.43.0


From e84d345a10d1fe541be310a3e38a786319a55735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 25/36] fix: get_extra_info of the Cassini problems used an
 undefined name

---
 pykep/trajopt/gym/_cassini_mga.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykep/trajopt/gym/_cassini_mga.py b/pykep/trajopt/gym/_cassini_mga.py
index b45bf75..183a3bb 100644
--- a/pykep/trajopt/gym/_cassini_mga.py
+++ b/pykep/trajopt/gym/_cassini_mga.py
@@ -27,7 +27,7 @@ class _cassini1_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P1): Cassini MGA, single objective, direct encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -52,7 +52,7 @@ class _cassini1a_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P2): Cassini MGA, single objective, alpha encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -77,7 +77,7 @@ class _cassini1n_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P3): Cassini MGA, single objective, eta encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
-- 
2.43.0


From b261ccbf5cf742e8c7430185f04cc8a10bc8ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 26/36] fix: mga changed the t0 list it was given, or its own
 default

---
 pykep/trajopt/_mga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index a25d449..beb1bf7 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -92,7 +92,8 @@ class mga:
                 "All planets in the sequence need to have exactly the same mu_central_body"
             )
 
-        # 2 - We try to build epochs out of the t0 list (mjd2000 by default)
+        # 2 - We try to build epochs out of the t0 list (mjd2000 by default), leaving the argument as it is
+        t0 = list(t0)
         for i in range(len(t0)):
             if type(t0[i]) != type(_pk.epoch(0.0)):
                 t0[i] = _pk.epoch(t0[i], _pk.epoch.julian_type.MJD2000)
-- 
2.43.0


From a193c850af85c19a3c9e3f07c574ae4d4ee0a85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 27/36] fix: mga truncated the launch epoch, and direct2eta its
 results, when the times of flight are integers

---
 pykep/trajopt/_mga.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index beb1bf7..679b03e 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -273,9 +273,7 @@ class mga:
         """
         if self.tof_encoding != "eta":
             raise ValueError("cannot call this method if the tof_encoding is not 'eta'")
-        from copy import deepcopy
-
-        retval = deepcopy(x)
+        retval = _np.array(x, dtype=float)
         retval[1] = x[1] / self.tof
         for i in range(2, len(x)):
             retval[i] = x[i] / (self.tof - sum(x[1:i]))
@@ -293,6 +291,7 @@ class mga:
     ]:
         # 1 -  we 'decode' the times of flights and compute all epochs (mjd2000)
         # of the various planetary encounters
+        x = _np.asarray(x, dtype=float)  # integers would truncate the launch epoch below
         T: List[float] = self._decode_tofs(x)  # T is [T1, T2 ...]
         ep = _np.insert(T, 0, x[0])  # T is [t0, T1, T2 ...]
         ep = _np.cumsum(ep)  # [t0, t1, t2, ...]
-- 
2.43.0


From cb27b8703e4c8c6842c31027d90e90925eb84ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 28/36] fix: the planet made from an mga trajectory reported
 the launch date as the arrival date

---
 pykep/trajopt/_mga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index 679b03e..e988a9a 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -386,7 +386,7 @@ class mga:
                         "Ephemerides out-of-bounds, requested at mjd2000 "
                         + str(mjd2000)
                         + " which is after the arrival date "
-                        + str(self.mjd2000s[0])
+                        + str(self.mjd2000s[-1])
                     )
 
                 if mjd2000 == self.mjd2000s[0]:
-- 
2.43.0


From ef2ab277db1c46b4301332a445c6b653a5289c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 29/36] fix: add_lambert drew clockwise transfers along the
 wrong arc

---
 pykep/plot/_lambert.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pykep/plot/_lambert.py b/pykep/plot/_lambert.py
index 14ec8f0..da10b78 100644
--- a/pykep/plot/_lambert.py
+++ b/pykep/plot/_lambert.py
@@ -54,12 +54,9 @@ def add_lambert(ax, lp, N: int = 60, sol: int = 0, units=_pk.AU, **kwargs):
     # Compute the angle in radians (clipped to avoid domain errors due to floating point precision)
     theta = _np.arccos(_np.clip(cos_theta, -1.0, 1.0))
     
-    # Compute the cross product to determine the direction
-    cross_product = _np.cross(r0, r1)
-    
-    # Assuming motion is in the xy-plane (i.e., third component z gives the direction)
-    if cross_product[2] < 0:  # If the z-component is negative, the motion is clockwise
-        theta = 2 * _np.pi - theta  # Adjust the angle to account for counterclockwise motion
+    # The motion is along the angular momentum: if this is opposite to r0 x r1 the long way is flown
+    if _np.dot(_np.cross(r0, r1), _np.cross(r0, v0)) < 0:
+        theta = 2 * _np.pi - theta
     
     # We define the integration grid
     if sol == 0:
-- 
2.43.0


From 2bae0c0fc2340106c0cb579ecec339ad37a5de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 30/36] fix: add_solar_system used an undefined name and the
 size of Uranus for Neptune

---
 pykep/plot/_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/plot/_planet.py b/pykep/plot/_planet.py
index 32a0446..870c4f8 100644
--- a/pykep/plot/_planet.py
+++ b/pykep/plot/_planet.py
@@ -179,6 +179,6 @@ def add_solar_system(
             label="",
             plot_range=[-40000, -40000 + 164.8 * 365.25],
         )
-        _pk.plot.add_planet(ax, neptune, when=ep, c="orchid", s=s[7], label = "Neptune")
+        _pk.plot.add_planet(ax, neptune, when=when, c="orchid", s=s[8], label = "Neptune")
 
     return ax
-- 
2.43.0


From 2e68139e8f1c7e231b85dc002bbb4fdbaec90a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 31/36] fix: the plots of the direct problems mixed the
 requested units with astronomical units

---
 pykep/trajopt/_direct_pl2pl.py       | 12 ++++++------
 pykep/trajopt/_direct_point2point.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pykep/trajopt/_direct_pl2pl.py b/pykep/trajopt/_direct_pl2pl.py
index d35acd0..5a4157f 100644
--- a/pykep/trajopt/_direct_pl2pl.py
+++ b/pykep/trajopt/_direct_pl2pl.py
@@ -324,14 +324,14 @@ class direct_pl2pl:
             ax = _pk.plot.make_3Daxis(figsize=(7, 7))
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting planets
-        ax = _pk.plot.add_planet(ax, self.pls, when=x[0])
-        ax = _pk.plot.add_planet_orbit(ax, self.pls, c="gray", alpha=0.5)
-        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1])
-        ax = _pk.plot.add_planet_orbit(ax, self.plf, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.pls, when=x[0], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.pls, units=units, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.plf, units=units, c="gray", alpha=0.5)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
diff --git a/pykep/trajopt/_direct_point2point.py b/pykep/trajopt/_direct_point2point.py
index 4a7207a..8fc0776 100644
--- a/pykep/trajopt/_direct_point2point.py
+++ b/pykep/trajopt/_direct_point2point.py
@@ -237,8 +237,8 @@ class direct_point2point:
 
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
-- 
2.43.0


From 096a91ce44d7bc52f36cdd6ae3db4924c5d575f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 32/36] fix: add_sf_leg failed to show the midpoints or
 throttles of a leg with all segments on one side of the cut

---
 pykep/plot/_sf_leg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index b0b6192..b0fa304 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -91,8 +91,8 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=dt / 2, mu=sf.mu, stm=False)
         pos_fwd.append(rv[0])
     pos_fwd = _np.array(pos_fwd)
-    pos_m_fwd = _np.array(pos_m_fwd)
-    throttles_fwd = _np.array(throttles_fwd)
+    pos_m_fwd = _np.array(pos_m_fwd).reshape(-1, 3)
+    throttles_fwd = _np.array(throttles_fwd).reshape(-1, 3)
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
@@ -157,8 +157,8 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=-dt / 2, mu=sf.mu, stm=False)
         pos_bck.append(rv[0])
     pos_bck = _np.array(pos_bck)
-    pos_bck_m = _np.array(pos_bck_m)
-    throttles_bck = _np.array(throttles_bck)
+    pos_bck_m = _np.array(pos_bck_m).reshape(-1, 3)
+    throttles_bck = _np.array(throttles_bck).reshape(-1, 3)
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
-- 
2.43.0


From 3373c0ad481c490d8b322e865af8bd51fb51f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:17 +0000
Subject: [PATCH 33/36] fix: add_sf_hf_leg drew the throttles of the backward
 segments on the wrong segments

---
 pykep/plot/_sf_leg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index b0fa304..4a8db91 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -313,7 +313,10 @@ def add_sf_hf_leg(
             current_states = state_history_bck[
                 i * N : (i + 1) * N, 0:3
             ]
-            current_throttles = throttles_bck[:, i * 3 : (i + 1) * 3]
+            # the states go backwards from the end of the leg, the throttles do not
+            current_throttles = throttles_bck[
+                :, (nseg_bck - 1 - i) * 3 : (nseg_bck - i) * 3
+            ]
             current_quiver_tips = current_states / units + current_throttles * length
             ax.quiver(
                 current_states[:, 0] / units,
-- 
2.43.0


From 15a3e06375f1ac55a4597b42f5e618effbd695f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:30 +0000
Subject: [PATCH 34/36] fix: mga.plot ignored the number of points asked for
 when drawing the arcs

---
 pykep/trajopt/_mga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index e988a9a..e321668 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -494,10 +494,10 @@ class mga:
         
         if len(leg_ids) == 0:
             for lp in lps:
-                _pk.plot.add_lambert(ax, lp, N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lp, N = N, sol = 0, units=units, c=c, **kwargs)
         else:
             for leg_id in leg_ids:
-                _pk.plot.add_lambert(ax, lps[leg_id], N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lps[leg_id], N = N, sol = 0, units=units, c=c, **kwargs)
 
         return ax
 
-- 
2.43.0


From cd175e6deb4f80e5101bc11ee842025b0bb4379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:53 +0000
Subject: [PATCH 35/36] fix: set_and_compute_constraints read past the end of a
 chromosome that is too short

---
 src/leg/sims_flanagan_hf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 96f76dc..340141e 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -518,6 +518,10 @@ std::vector<double> sims_flanagan_hf::compute_constraints() const
 
 std::vector<double> sims_flanagan_hf::set_and_compute_constraints(const std::vector<double> &chromosome)
 {
+    if (chromosome.size() != 7u + m_nseg * 3u + 7u + 1u) {
+        throw std::logic_error("The chromosome of a high-fidelity sims-flanagan leg must contain the initial state, the "
+                               "throttles, the final state and the time of flight.");
+    }
     std::array<double, 7> rvms;
     std::copy(chromosome.begin(), chromosome.begin() + 7, rvms.begin());
     std::vector<double> throttles(m_nseg * 3);
-- 
2.43.0


From b4ffd2252970655204387f6d6dca57e222413c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:53 +0000
Subject: [PATCH 36/36] fix: get_state_history asked for unbounded memory for
 zero points per segment

---
 src/leg/sims_flanagan_hf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 340141e..8266614 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -805,6 +805,10 @@ std::vector<double> sims_flanagan_hf::compute_tc_grad() const
 
 std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned grid_points_per_segment) const
 {
+    if (grid_points_per_segment < 2u) {
+        throw std::logic_error("The state history of a high-fidelity sims-flanagan leg needs at least two points per "
+                               "segment.");
+    }
     // Get time grid
     const double prop_seg_duration = (m_tof / m_nseg);
     std::vector<double> leg_time_grid;
-- 
2.43.0

