From 80d3233bc2ce7b6132ba28753b45758262ffb872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 01/50] fix: turbulence spectrum exponent 11/3 was an integer
 division

std::pow(1 + f/fpeak, 11 / 3) used the exponent 3; the spectrum of
arXiv:1704.05871 has 11/3.
---
 src/gravitational_waves/gw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 506ae1e..fdae82f 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -138,7 +138,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
 
     res += this->data.h2OmegaPeakTurbulence *
            std::pow(f / this->data.fPeakTurbulence, 3) /
-           std::pow(1 + f / this->data.fPeakTurbulence, 11 / 3) /
+           std::pow(1 + f / this->data.fPeakTurbulence, 11. / 3) /
            (1 + 8 * M_PI * f / this->data.Hstar);
   }
 
-- 
2.43.0


From 80fbc0a67b684aacc368ebff216263e8d0a447d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:37 +0000
Subject: [PATCH 02/50] fix: CalcGWAmplitude computes the peak frequency on its
 first call

The peak frequency was only computed if the peak amplitude was already
set, so the first call divided by a peak frequency of zero and returned
NaN unless the caller had computed the frequency explicitly.
---
 src/gravitational_waves/gw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index fdae82f..6b99f82 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -115,7 +115,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
     {
       this->CalcPeakAmplitudeSoundWave();
     }
-    else if (!this->data.fPeakSoundWave)
+    if (!this->data.fPeakSoundWave)
     {
       this->CalcPeakFrequencySoundWave();
     }
@@ -131,7 +131,7 @@ double GravitationalWave::CalcGWAmplitude(double f, bool swON, bool turbON)
     {
       this->CalcPeakAmplitudeTurbulence();
     }
-    else if (!this->data.fPeakTurbulence)
+    if (!this->data.fPeakTurbulence)
     {
       this->CalcPeakFrequencyTurbulence();
     }
-- 
2.43.0


From d4feeb44eb20d6730279f35429a13a325f505317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 03/50] fix: SNR integral uses an adaptive rule without
 extrapolation

gsl_integration_qags stops with a round-off error on the integrand, which
covers seven decades in f, and returns a result that is wrong by up to 8%
for small beta/H (or aborts with the default GSL error handler).
---
 src/gravitational_waves/gw.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/gravitational_waves/gw.cpp b/src/gravitational_waves/gw.cpp
index 6b99f82..6932958 100644
--- a/src/gravitational_waves/gw.cpp
+++ b/src/gravitational_waves/gw.cpp
@@ -205,15 +205,18 @@ Nintegrate_SNR(GravitationalWave &obj, const double fmin, const double fmax)
 
   struct resultErrorPair res;
 
-  gsl_integration_qags(&F,
-                       fmin,
-                       fmax,
-                       abs_err,
-                       rel_err,
-                       workspace_size,
-                       w,
-                       &res.result,
-                       &res.error);
+  // The integrand covers many decades in f: use the adaptive rule without
+  // extrapolation, which terminates early with a wrong result here
+  gsl_integration_qag(&F,
+                      fmin,
+                      fmax,
+                      abs_err,
+                      rel_err,
+                      workspace_size,
+                      GSL_INTEG_GAUSS31,
+                      w,
+                      &res.result,
+                      &res.error);
 
   gsl_integration_workspace_free(w);
 
-- 
2.43.0


From 80916da029885297faa627c0e44e066bc84a2d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 04/50] fix: bisection for the percolation/completion
 temperature gave up at the solution

The loop also ended as soon as the exponent matched to 1e-7, before the
temperature interval was small enough to count as success, so existing
percolation and completion temperatures were reported as not met.
---
 src/bounce_solution/bounce_solution.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index f40d186..c8157d1 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -754,14 +754,10 @@ double BounceSolution::CalcTempAtFalseVacFraction(const double &false_vac_frac)
     this->SetStoredTemp(T_middle); // update temp storage for inner integral
     double IatT = prefac * Nintegrate_Outer(*this).result;
 
-    while ((std::abs(T_up / T_down - 1) >
-            RelativeTemperatureInCalcTempAtFalseVacFraction *
-                MarginOfCalcTempAtFalseVacFractionBeforeFailure) and
-           (not almost_the_same(
-               int_at_false_vac_frac,
-               IatT,
-               RelativeErrorInCalcTempAtFalseVacFraction *
-                   MarginOfCalcTempAtFalseVacFractionBeforeFailure)))
+    // The bisection only ends early by fulfilling the condition for success
+    while (std::abs(T_up / T_down - 1) >
+           RelativeTemperatureInCalcTempAtFalseVacFraction *
+               MarginOfCalcTempAtFalseVacFractionBeforeFailure)
     {
       T_middle = (T_up + T_down) / 2.;
       this->SetStoredTemp(T_middle); // update temp storage for inner integral
-- 
2.43.0


From 55ad39cd8c5f410f90248dade1e32758d10040ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 05/50] fix: minimiser threads check and take the next starting
 point under the lock

---
 src/minimizer/MinimizeGSL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/minimizer/MinimizeGSL.cpp b/src/minimizer/MinimizeGSL.cpp
index 333de73..5cc05f5 100644
--- a/src/minimizer/MinimizeGSL.cpp
+++ b/src/minimizer/MinimizeGSL.cpp
@@ -202,7 +202,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
                        std::queue<std::vector<double>> &mResults,
                        bool UseLock = true)
   {
-    while (mFoundSolutions < mMaxSol and not mStartingPoints.empty())
+    while (mFoundSolutions < mMaxSol)
     {
       std::vector<double> start;
       {
@@ -211,6 +211,7 @@ GSL_Minimize_gen_all(const Class_Potential_Origin &model,
         {
           lock = std::unique_lock<std::mutex>(mWriteResultLock);
         }
+        if (mStartingPoints.empty()) break;
         start = mStartingPoints.front();
         mStartingPoints.pop();
       }
-- 
2.43.0


From a4f2127c0957471652e1c59e3221d6435be43f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 06/50] fix: use one minimiser thread if the number of
 processors is unknown

---
 include/BSMPT/minimizer/Minimizer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/BSMPT/minimizer/Minimizer.h b/include/BSMPT/minimizer/Minimizer.h
index a9c1dbe..7b47bf7 100644
--- a/include/BSMPT/minimizer/Minimizer.h
+++ b/include/BSMPT/minimizer/Minimizer.h
@@ -48,7 +48,11 @@ const bool UseNLoptDefault = true;
 const bool UseNLoptDefault    = false;
 #endif
 
-const std::size_t Num_threads = std::thread::hardware_concurrency();
+// hardware_concurrency returns 0 if the number is not known
+const std::size_t Num_threads =
+    std::thread::hardware_concurrency() > 0
+        ? std::thread::hardware_concurrency()
+        : 1;
 
 /**
  * @brief CalcWhichMinimizer Calculates the WhichMinimizer value with the given
-- 
2.43.0


From 823f6f378e7920a7f06bc4ba3c33351e0ba32e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 07/50] fix: do not read past the end of VevOrder in
 MinimizeOrderVEV and SetEWVEVZero

---
 src/models/ClassPotentialOrigin.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 271e7d0..e1717d7 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3515,7 +3515,7 @@ double Class_Potential_Origin::EWSBVEV(const std::vector<double> &v) const
 
 void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
 {
-  int count = 0;
+  std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; i++)
   {
     double checkgauge = 0;
@@ -3523,7 +3523,8 @@ void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
     {
       checkgauge += std::abs(Curvature_Gauge_G2H2[j][j][i][i]);
     }
-    if (checkgauge > 1e-10 and i == VevOrder[count]) // true for doublet vevs
+    if (checkgauge > 1e-10 and count < VevOrder.size() and
+        i == VevOrder[count]) // true for doublet vevs
     {
       sol.at(count) = 0;
       count += 1;
@@ -3971,7 +3972,7 @@ std::vector<double> Class_Potential_Origin::MinimizeOrderVEV(
   std::size_t count = 0;
   for (std::size_t i = 0; i < NHiggs; ++i)
   {
-    if (i == VevOrder[count])
+    if (count < VevOrder.size() and i == VevOrder[count])
     {
       vevFunction.push_back(vevMinimizer.at(count));
       count++;
-- 
2.43.0


From c4bd1e2c458eea9a2c4b53a337248738176f4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 08/50] fix: derivative of the low-temperature expansion used
 an integer exponent

---
 src/ThermalFunctions/ThermalFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalFunctions/ThermalFunctions.cpp b/src/ThermalFunctions/ThermalFunctions.cpp
index 2f67693..c957bfc 100644
--- a/src/ThermalFunctions/ThermalFunctions.cpp
+++ b/src/ThermalFunctions/ThermalFunctions.cpp
@@ -297,7 +297,7 @@ double JInterpolatedHigh(const double &x, const int &n, int diff)
     {
       double Kl =
           JInterpolatedHighCoefficientCalculator.GetCoefficentAtOrder(l);
-      sum += Kl * pow(x, (1 - l) / 2) * (2 * l + 2 * sqrt(x) - 3);
+      sum += Kl * pow(x, (1 - l) / 2.0) * (2 * l + 2 * sqrt(x) - 3);
     }
     res = exp(-sqrt(x)) * sqrt(2 * M_PI) / (8 * pow(x, 3.0 / 4.0)) * sum;
   }
-- 
2.43.0


From 2e9b1539f90b199444eb61908c1e06e54d459762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 09/50] fix: VEff passes the order on for a configuration in
 minimiser order

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index e1717d7..bce3b03 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2973,7 +2973,7 @@ double Class_Potential_Origin::VEff(const std::vector<double> &v,
     Logger::Write(LoggingLevel::Default, ss.str());
     std::vector<double> Transformedv;
     Transformedv = MinimizeOrderVEV(v);
-    return VEff(Transformedv, Temp, diff);
+    return VEff(Transformedv, Temp, diff, Order);
   }
 
   double resOut = 0;
-- 
2.43.0


From 06e7f7fbd501dce3be2df40c8c48208cb20e54c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 10/50] fix: scalar mass derivatives use the mass matrix, not
 its derivative, for the masses

---
 src/models/ClassPotentialOrigin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index bce3b03..148ed42 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2424,7 +2424,7 @@ Class_Potential_Origin::HiggsMassesSquared(const std::vector<double> &v,
 {
   std::vector<double> res;
 
-  auto MassMatrix = HiggsMassMatrix(v, Temp, diff);
+  auto MassMatrix = HiggsMassMatrix(v, Temp);
 
   double ZeroMass = std::pow(10, -5);
 
-- 
2.43.0


From 8f046050384110052172a7fd7aa525d7ac252ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 11/50] fix: derivatives of the one-loop potential are those of
 the returned value

Use the thermal functions of the value for its derivatives, for every field
direction, keep the sign of negative squared masses in the Coleman-Weinberg
derivative and include the temperature dependence of the thermal masses.
---
 src/models/ClassPotentialOrigin.cpp | 35 ++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 148ed42..1ba8472 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -115,7 +115,7 @@ double Class_Potential_Origin::boson(double MassSquared,
                                      int diff) const
 {
   double res = 0;
-  if (diff >= 0) res = CWTerm(std::abs(MassSquared), cb, diff);
+  if (diff >= 0) res = CWTerm(MassSquared, cb, diff);
   if (Temp == 0) return res;
   double Ratio = MassSquared / std::pow(Temp, 2);
   if (diff == 0)
@@ -123,18 +123,18 @@ double Class_Potential_Origin::boson(double MassSquared,
     res += std::pow(Temp, 4) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JbosonInterpolated(Ratio);
   }
-  else if (diff == 1)
+  else if (diff > 0)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JbosonNumericalIntegration(Ratio, 1);
+           ThermalFunctions::JbosonInterpolated(Ratio, 1);
   }
   else if (diff == -1)
   {
     res += 1.0 / (2 * std::pow(M_PI, 2)) *
            (4 * std::pow(Temp, 3) *
-                ThermalFunctions::JbosonNumericalIntegration(Ratio, 0) -
+                ThermalFunctions::JbosonInterpolated(Ratio) -
             2 * Temp * MassSquared *
-                ThermalFunctions::JbosonNumericalIntegration(Ratio, 1));
+                ThermalFunctions::JbosonInterpolated(Ratio, 1));
   }
   return res;
 }
@@ -143,7 +143,7 @@ double
 Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
 {
   double res = 0;
-  if (diff >= 0) res = CWTerm(std::abs(MassSquared), C_CWcbFermion, diff);
+  if (diff >= 0) res = CWTerm(MassSquared, C_CWcbFermion, diff);
   double Ratio = MassSquared / std::pow(Temp, 2);
   if (Temp == 0) return res;
   if (diff == 0)
@@ -151,18 +151,18 @@ Class_Potential_Origin::fermion(double MassSquared, double Temp, int diff) const
     res += std::pow(Temp, 4) / (2 * std::pow(M_PI, 2)) *
            ThermalFunctions::JfermionInterpolated(Ratio);
   }
-  else if (diff == 1)
+  else if (diff > 0)
   {
     res += std::pow(Temp, 2) / (2 * std::pow(M_PI, 2)) *
-           ThermalFunctions::JfermionNumericalIntegration(Ratio, 1);
+           ThermalFunctions::JfermionInterpolated(Ratio, 1);
   }
   else if (diff == -1)
   {
     res += 1.0 / (2 * std::pow(M_PI, 2)) *
            (4 * std::pow(Temp, 3) *
-                ThermalFunctions::JfermionNumericalIntegration(Ratio) -
+                ThermalFunctions::JfermionInterpolated(Ratio) -
             2 * Temp * MassSquared *
-                ThermalFunctions::JfermionNumericalIntegration(Ratio, 1));
+                ThermalFunctions::JfermionInterpolated(Ratio, 1));
   }
   return res;
 }
@@ -3214,6 +3214,21 @@ double Class_Potential_Origin::V1Loop(const std::vector<double> &v,
 
       VDebye *= -1.0 / (12 * M_PI);
       res += VDebye;
+
+      double VDebyeDiff = 0;
+      for (std::size_t k = 0; k < NHiggs; k++)
+      {
+        if (HiggsMassesVec[k] > 0)
+          VDebyeDiff += 1.5 * HiggsMassesVec.at(k + NHiggs) *
+                        std::pow(HiggsMassesVec[k], 0.5);
+      }
+      for (std::size_t k = 0; k < NGauge; k++)
+      {
+        if (GaugeMassesVec[k] > 0)
+          VDebyeDiff += 1.5 * GaugeMassesVec.at(k + NGauge) *
+                        std::pow(GaugeMassesVec[k], 0.5);
+      }
+      res += -Temp / (12 * M_PI) * VDebyeDiff;
     }
   }
 
-- 
2.43.0


From 03bc68c5bc79389e2f7921b061d743669c284a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 12/50] fix: fbaseFour of one massless and three different
 masses is not zero

The branch for two equal masses also captured three different ones and left the result at zero.
---
 src/models/ClassPotentialOrigin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 1ba8472..7bcbc26 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -563,7 +563,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
   }
 
   // 2) two of the three non-zero masses are equal
-  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0)
+  else if (mas == 0 and mbs != 0 and mcs != 0 and mds != 0 and
+           (mbs == mcs or mbs == mds or mcs == mds))
   {
     if (mbs == mcs and mds != mbs)
     {
@@ -587,7 +588,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mbs - mcs) * (mbs - mcs));
     }
   }
-  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0)
+  else if (mas != 0 and mbs == 0 and mcs != 0 and mds != 0 and
+           (mas == mcs or mas == mds or mcs == mds))
   {
     if (mas == mcs and mds != mas)
     {
@@ -611,7 +613,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mcs * (mcs - mas) * (mcs - mas));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0)
+  else if (mas != 0 and mbs != 0 and mcs == 0 and mds != 0 and
+           (mas == mbs or mas == mds or mbs == mds))
   {
     if (mas == mbs and mds != mas)
     {
@@ -635,7 +638,8 @@ double Class_Potential_Origin::fbaseFour(double MassSquaredA,
             (mbs * (mas - mbs) * (mas - mbs));
     }
   }
-  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0)
+  else if (mas != 0 and mbs != 0 and mcs != 0 and mds == 0 and
+           (mas == mbs or mas == mcs or mbs == mcs))
   {
     if (mas == mbs and mcs != mas)
     {
-- 
2.43.0


From dded0642857fb9f89f290a40eba66481427033b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:58 +0000
Subject: [PATCH 13/50] fix: set_All on a used model kept the couplings of the
 previous point

---
 src/models/ClassPotentialOrigin.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 7bcbc26..5c703bc 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -51,8 +51,10 @@ void Class_Potential_Origin::set_All(const std::vector<double> &par,
                                      const std::vector<double> &parCT)
 {
 
+  // couplings of a previously set parameter point must not be reused
+  resetbools();
   set_gen(par);
-  if (!SetCurvatureDone) SetCurvatureArrays();
+  SetCurvatureArrays();
   set_CT_Pot_Par(parCT);
   CalculateDebye();
   CalculateDebyeGauge();
-- 
2.43.0


From 660d66f9447d2971c771ffcdcaf3cea1a1918e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 14/50] fix: order of the tadpole counterterm names in the CP
 in the Dark legend

---
 src/models/ClassPotentialCPintheDark.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/ClassPotentialCPintheDark.cpp b/src/models/ClassPotentialCPintheDark.cpp
index d13d99b..ac717a5 100644
--- a/src/models/ClassPotentialCPintheDark.cpp
+++ b/src/models/ClassPotentialCPintheDark.cpp
@@ -85,10 +85,10 @@ std::vector<std::string> Class_Potential_CPintheDark::addLegendCT() const
   labels.push_back("dL6");
   labels.push_back("dL7");
   labels.push_back("dL8");
+  labels.push_back("dTCB");
   labels.push_back("dT1");
   labels.push_back("dT2");
   labels.push_back("dTCP");
-  labels.push_back("dTCB");
   labels.push_back("dTS");
   labels.push_back("dImL5");
 
-- 
2.43.0


From 1f9abc35caaef3164ab25ca41081133efc454696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 15/50] fix: SetEWVEVZero ignored doublet VEVs behind a singlet
 VEV

---
 src/models/ClassPotentialOrigin.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 5c703bc..770e4d5 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -3544,10 +3544,9 @@ void Class_Potential_Origin::SetEWVEVZero(std::vector<double> &sol) const
     {
       checkgauge += std::abs(Curvature_Gauge_G2H2[j][j][i][i]);
     }
-    if (checkgauge > 1e-10 and count < VevOrder.size() and
-        i == VevOrder[count]) // true for doublet vevs
+    if (count < VevOrder.size() and i == VevOrder[count])
     {
-      sol.at(count) = 0;
+      if (checkgauge > 1e-10) sol.at(count) = 0; // true for doublet vevs
       count += 1;
     }
   }
-- 
2.43.0


From a7d56cbb064aa7169e75dc6f274f48153de5bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:27 +0000
Subject: [PATCH 16/50] fix: SetLogger read past the end of the level table for
 other arguments

---
 src/utility/Logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/Logger.cpp b/src/utility/Logger.cpp
index 061282d..8ae7691 100644
--- a/src/utility/Logger.cpp
+++ b/src/utility/Logger.cpp
@@ -100,10 +100,11 @@ void SetLogger(const std::vector<std::string> &args)
         std::find_if(LoggingPrefixes.begin(),
                      LoggingPrefixes.end(),
                      [&el](auto pr) { return StringStartsWith(el, pr.first); });
-    if (pos != LoggingPrefixes.end())
+    if (pos == LoggingPrefixes.end())
     {
-      Logger::SetLevel(pos->second, el.substr(pos->first.size()) == "true");
+      continue;
     }
+    Logger::SetLevel(pos->second, el.substr(pos->first.size()) == "true");
     // Catch logginglevel::complete
     if ((pos->second == LoggingLevel::Complete) and
         (el.substr(pos->first.size()) == "true"))
-- 
2.43.0


From e9fb885d5d08e82737ef3b272a42ff51824f9890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 17/50] fix: arc length of curved tunnelling paths integrated
 at the wrong parameter

---
 src/utility/const_velocity_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/const_velocity_spline.cpp b/src/utility/const_velocity_spline.cpp
index 907e39d..35320fa 100644
--- a/src/utility/const_velocity_spline.cpp
+++ b/src/utility/const_velocity_spline.cpp
@@ -134,7 +134,7 @@ void cvspline::initialize() // Initalizes the class
   {
     double step = linL / num_inter;
     list_l.push_back(list_l.back() +
-                     Simpson_step(list_l.back(), list_l.back() + step));
+                     Simpson_step(list_x.back(), list_x.back() + step));
     list_x.push_back(list_x.back() + step);
   }
   L = list_l.back(); // Set complet length of the path
-- 
2.43.0


From 30028c17eb37221892a43f2e1e441573d7278d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 18/50] fix: tunnelling paths with three knots had no spline
 (singular boundary conditions)

---
 src/utility/const_velocity_spline.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utility/const_velocity_spline.cpp b/src/utility/const_velocity_spline.cpp
index 35320fa..eb272d2 100644
--- a/src/utility/const_velocity_spline.cpp
+++ b/src/utility/const_velocity_spline.cpp
@@ -112,15 +112,18 @@ void cvspline::initialize() // Initalizes the class
   transposed_phi = BSMPT::Transpose(
       phipath); // Transposes the path, helpfull when computing the spline
   splines = {}; // Reset splines list
+  // The not-a-knot condition needs at least four points
+  const auto boundary = phipath.size() > 3 ? tk::spline::not_a_knot
+                                           : tk::spline::second_deriv;
   for (int i = 0; i < dim; i++)
   {
     tk::spline s(lin_lengths,
                  transposed_phi[i],
                  tk::spline::cspline,
                  false,
-                 tk::spline::not_a_knot,
+                 boundary,
                  0.0,
-                 tk::spline::not_a_knot,
+                 boundary,
                  0.0);
     splines.push_back(s);
   }
-- 
2.43.0


From 8db67c10e9cc83caa62a1a36380e78832c327db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:15 +0000
Subject: [PATCH 19/50] fix: add_point of a path read past its positions and
 could loop forever

---
 src/utility/const_velocity_spline.cpp | 51 ++++++---------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/src/utility/const_velocity_spline.cpp b/src/utility/const_velocity_spline.cpp
index eb272d2..4cd92f4 100644
--- a/src/utility/const_velocity_spline.cpp
+++ b/src/utility/const_velocity_spline.cpp
@@ -18,6 +18,7 @@
  */
 
 #include <BSMPT/utility/const_velocity_spline.h>
+#include <algorithm>
 
 double cvspline::lin_abs_deriv(
     double x) // Length of vector speed of non constant velocity spline
@@ -163,50 +164,20 @@ void cvspline::add_point(const double &p,
   // The position "p" is going to be rewritten when the path is recompiled
   // It is necessary in order to disambiguate the order of the VEVs
 
-  if (p < 0)
+  // First known point that lies at "p" or further along the path. We allow for
+  // p < 0 as an easy way to add a new true vacuum and for p > L as an easy way
+  // to add a new false vacuum, no (good) reason to do this tho
+  const auto next =
+      std::lower_bound(vev_position.begin(), vev_position.end(), p);
+  if (next != vev_position.end() and *next == p)
   {
-    phipath.insert(phipath.begin(), new_vev); // Add VEV
-    if (compile) initialize();                // Redo calculations
+    // Point already exists in the position "p", no point is added
+    BSMPT::Logger::Write(BSMPT::LoggingLevel::TransitionDetailed,
+                         "Point in that position already exists!");
     return;
   }
-  // We allow for p > L as an easy way to add a new false vacuum, no (good)
-  // reason to do this tho
-  if (p > L)
-  {
-    phipath.push_back(new_vev); // Add VEV
-    if (compile) initialize();  // Redo calculations
-    return;
-  }
-
-  int lower = 0;              // Index of lower bound
-  int upper = phipath.size(); // Index of upper bound
-  int lower_temp, upper_temp; // Floor/Ceil of the middle point
-
-  while (upper - lower !=
-         1) // When upper - lower = 1 then we add the point at that position
-  {
-
-    // Use the integer version of the bisection method
-    lower_temp = int(floor((upper + lower) / 2)); // Floor of the middle point
-    upper_temp = int(ceil((upper + lower) / 2));  // Ceiling of the middle point
+  const auto upper = next - vev_position.begin();
 
-    if ((vev_position[upper] == upper_temp) or
-        (vev_position[lower] == lower_temp))
-    {
-      // Point already exists in the position "p", no point is added
-      BSMPT::Logger::Write(BSMPT::LoggingLevel::TransitionDetailed,
-                           "Point in that position already exists!");
-      return;
-    }
-    if (vev_position[lower_temp] < p)
-    {
-      lower = lower_temp;
-    }
-    if (vev_position[upper_temp] > p)
-    {
-      upper = upper_temp;
-    }
-  }
   phipath.insert(phipath.begin() + upper, new_vev); // Add the point
   vev_position.insert(vev_position.begin() + upper,
                       p); // Update the "vev_positions" list, very importante
-- 
2.43.0


From 88acfe4c2c5217260a32df20c198cf47e23b2b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:15 +0000
Subject: [PATCH 20/50] fix: spline lost its left boundary value with a right
 not-a-knot condition

---
 src/utility/spline/spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/spline/spline.cpp b/src/utility/spline/spline.cpp
index 9060bb9..1696d4a 100644
--- a/src/utility/spline/spline.cpp
+++ b/src/utility/spline/spline.cpp
@@ -178,7 +178,7 @@ void spline::set_points(const std::vector<double> &x,
       A(n - 1, n - 3) = -(x[n - 1] - x[n - 2]);
       A(n - 1, n - 2) = x[n - 1] - x[n - 3];
       A(n - 1, n - 1) = -(x[n - 2] - x[n - 3]);
-      rhs[0]          = 0.0;
+      rhs[n - 1]      = 0.0;
     }
     else
     {
-- 
2.43.0


From a14ece9bc192d8ddbc08c7f2196ddf8de2256e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 21/50] fix: sign-flip option of the vector comparison was
 inverted

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index e806ad2..5339e26 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1450,7 +1450,7 @@ bool almost_the_same(const std::vector<double> &a,
   int count_true = 0;
   for (std::size_t i = 0; i < a.size(); i++)
   {
-    if (allow_for_sign_flip)
+    if (not allow_for_sign_flip)
     {
       count_true +=
           int(almost_the_same(a.at(i), b.at(i), rel_precision, num_zero));
-- 
2.43.0


From f3fa8cac71b4d96f35953c48714510e5eb21c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:06 +0000
Subject: [PATCH 22/50] fix: bounce was computed to the first symmetry image of
 the true vacuum instead of the closest

---
 src/bounce_solution/bounce_solution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index c8157d1..ed0452d 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -89,9 +89,9 @@ void BounceSolution::CalculateOptimalDiscreteSymmetry()
   for (auto GroupElement : GroupElements)
   {
     Eigen::VectorXd CandidateTrueVacuum = GroupElement * TrueVacuum;
-    std::vector<double> DeltaVEV        = FalseVacuum;
+    std::vector<double> DeltaVEV;
     for (std::size_t el = 0; el < FalseVacuum.size(); el++)
-      DeltaVEV.push_back(FalseVacuum[el] - TrueVacuum[el]);
+      DeltaVEV.push_back(FalseVacuum[el] - CandidateTrueVacuum[el]);
 
     if (L2NormVector(DeltaVEV) < MaximumDistance)
     {
-- 
2.43.0


From 16729c4f1f4cb175c37ecc201dec0dac623764bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 23/50] fix: high-temperature stationary point had the wrong
 sign

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 5339e26..3145bff 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1244,7 +1244,7 @@ int MinimumTracer::IsThereEWSymmetryRestoration()
     return 1;
 
   Eigen::VectorXd StationaryPoint =
-      HessianEigen.colPivHouseholderQr().solve(GradientEigen);
+      HessianEigen.colPivHouseholderQr().solve(-GradientEigen);
 
   // Locate global stationary point
   point = std::vector<double>(StationaryPoint.data(),
-- 
2.43.0


From cb0db41a08e5ec8a79065d08a9d8a05f747df0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 24/50] fix: flat directions at high temperature were reported
 as symmetry restoration

---
 src/minimum_tracer/minimum_tracer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 3145bff..c693416 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1240,7 +1240,8 @@ int MinimumTracer::IsThereEWSymmetryRestoration()
     return -1;
   }
 
-  if (ActualSmallestEigenvalue == 0) // Potential is not positively definite.
+  // SmallestEigenvalue() shifts by 1e-7, a flat direction is never exactly zero
+  if (ActualSmallestEigenvalue <= 2e-7) // Potential is not positively definite.
     return 1;
 
   Eigen::VectorXd StationaryPoint =
-- 
2.43.0


From b7192611fa773b556bf661e06926b00be31d0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 25/50] fix: potential was NaN when rounding made a massless
 fermion's squared mass negative

---
 src/models/ClassPotentialOrigin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/ClassPotentialOrigin.cpp b/src/models/ClassPotentialOrigin.cpp
index 770e4d5..917637b 100644
--- a/src/models/ClassPotentialOrigin.cpp
+++ b/src/models/ClassPotentialOrigin.cpp
@@ -2650,7 +2650,7 @@ Class_Potential_Origin::QuarkMassesSquared(const std::vector<double> &v,
     for (std::size_t i = 0; i < NQuarks; i++)
     {
       double tmp = es.eigenvalues().real()[i];
-      if (std::abs(tmp) < ZeroMass)
+      if (tmp < ZeroMass) // |M|^2 has no negative eigenvalues
         res.push_back(0);
       else
         res.push_back(tmp);
@@ -2748,7 +2748,7 @@ Class_Potential_Origin::LeptonMassesSquared(const std::vector<double> &v,
     for (std::size_t i = 0; i < NLepton; i++)
     {
       double tmp = es.eigenvalues().real()[i];
-      if (std::abs(tmp) < ZeroMass)
+      if (tmp < ZeroMass) // |M|^2 has no negative eigenvalues
         res.push_back(0);
       else
         res.push_back(tmp);
-- 
2.43.0


From a605217c8460fb612986477bef056a303f31a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:43 +0000
Subject: [PATCH 26/50] fix: high-temperature verdict was taken from rounding
 errors for large temperatures

---
 src/minimum_tracer/minimum_tracer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index c693416..acf3e47 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1198,6 +1198,9 @@ int MinimumTracer::IsThereEWSymmetryRestoration()
        exponentT += log(Tmax) / (20 * log(Tmax)))
   {
     T = exp(exponentT);
+    // the steps of the derivatives have to grow with T, otherwise the field
+    // dependence is lost in the rounding of the T^4 part of the potential
+    eps = std::max(0.1, 1e-4 * T);
     // wrappers for potential, first and second numerical derivative
     V = [&](std::vector<double> vev)
     {
-- 
2.43.0


From 9b2174a852a8471b0521a1da221637ba324b2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:21 +0000
Subject: [PATCH 27/50] fix: critical point was reported as zero when no
 midpoint of the bisection is broken

---
 src/minimizer/Minimizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index 09989da..940692a 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -343,6 +343,11 @@ PTFinder_gen_all(const std::shared_ptr<Class_Potential_Origin> &modelPointer,
     return result;
   }
 
+  // the broken point below the critical temperature, if no other one is found
+  pSol[0] = vStart;
+  for (std::size_t k = 0; k < dim; k++)
+    pSol[k + 1] = solStart.at(k);
+
   for (std::size_t k = 0; k < dim; k++)
     startMitte.push_back(modelPointer->get_vevTreeMin(k));
   do
-- 
2.43.0


From 198deb80a7cdcaa3e6f293cd279f53e57cfd4838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:51 +0000
Subject: [PATCH 28/50] fix: NLopt search box collapsed for tree-level VEVs
 below -300 GeV

---
 src/minimizer/LibNLOPT/MinimizeNLOPT.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
index 8e8f767..1ffbc31 100644
--- a/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
+++ b/src/minimizer/LibNLOPT/MinimizeNLOPT.cpp
@@ -42,7 +42,7 @@ NLOPTReturnType MinimizeUsingNLOPT(const Class_Potential_Origin &model,
   {
     if (std::abs(model.get_vevTreeMin(i)) > UpperBound.at(i))
     {
-      UpperBound.at(i) = 1.5 * model.get_vevTreeMin(i);
+      UpperBound.at(i) = 1.5 * std::abs(model.get_vevTreeMin(i));
     }
     if (-std::abs(model.get_vevTreeMin(i)) < LowerBound.at(i))
     {
@@ -99,7 +99,8 @@ MinimizePlaneUsingNLOPT(const struct PointerContainerMinPlane &params)
     {
       if (std::abs(params.modelPointer->get_vevTreeMin(i)) > UpperBound.at(i))
       {
-        UpperBound.at(i) = 1.5 * params.modelPointer->get_vevTreeMin(i);
+        UpperBound.at(i) =
+            1.5 * std::abs(params.modelPointer->get_vevTreeMin(i));
       }
       if (-std::abs(params.modelPointer->get_vevTreeMin(i)) < LowerBound.at(i))
       {
@@ -112,7 +113,8 @@ MinimizePlaneUsingNLOPT(const struct PointerContainerMinPlane &params)
       if (std::abs(params.modelPointer->get_vevTreeMin(i)) >
           UpperBound.at(i - 1))
       {
-        UpperBound.at(i - 1) = 1.5 * params.modelPointer->get_vevTreeMin(i);
+        UpperBound.at(i - 1) =
+            1.5 * std::abs(params.modelPointer->get_vevTreeMin(i));
       }
       if (-std::abs(params.modelPointer->get_vevTreeMin(i)) <
           LowerBound.at(i - 1))
-- 
2.43.0


From 2b6100a369475e0a26b413e4a74f57dcab9a9357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:32 +0000
Subject: [PATCH 29/50] fix: temperature development of minima overran its
 final temperature

---
 src/minimizer/Minimizer.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/minimizer/Minimizer.cpp b/src/minimizer/Minimizer.cpp
index 940692a..ee271da 100644
--- a/src/minimizer/Minimizer.cpp
+++ b/src/minimizer/Minimizer.cpp
@@ -537,10 +537,9 @@ MinimaDevelopmentWithTemperature(
 
   auto StoppingCriteria = [&](const double &Temp)
   {
-    double epsilon = std::abs((FinalTemperature - StartingTemperature) /
-                              StepsizeTemperature) *
+    double epsilon = std::abs(StepsizeTemperature) *
                      1e-2; // because 1+1 = 2.0000000000000001
-    if (StartingTemperature < FinalTemperature)
+    if (StepsizeTemperature > 0)
     {
       return Temp < FinalTemperature + epsilon;
     }
-- 
2.43.0


From be9b493aff9e617043b686780b8671a08d36fbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:34 +0000
Subject: [PATCH 30/50] fix: plane minimisation eliminated a coordinate with a
 tiny component of the normal vector

---
 src/minimizer/MinimizePlane.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/minimizer/MinimizePlane.cpp b/src/minimizer/MinimizePlane.cpp
index f0969ce..ff94ebe 100644
--- a/src/minimizer/MinimizePlane.cpp
+++ b/src/minimizer/MinimizePlane.cpp
@@ -146,10 +146,14 @@ MinimizePlane(const std::vector<double> &basepoint,
   int IndexNorm = -1;
   for (std::size_t i = 0; i < normalvector.size(); i++)
   {
-    if (std::abs(normalvector.at(i)) >= 1e-3)
+    // eliminate the coordinate with the largest component, dividing by a small
+    // one distorts the plane
+    if (std::abs(normalvector.at(i)) >= 1e-3 and
+        (IndexNorm == -1 or std::abs(normalvector.at(i)) >
+                                std::abs(normalvector.at(
+                                    static_cast<std::size_t>(IndexNorm)))))
     {
       IndexNorm = static_cast<int>(i);
-      break;
     }
   }
   if (IndexNorm == -1)
-- 
2.43.0


From e8f574b9afcba18130940e053f2c3b91b51738a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:19 +0000
Subject: [PATCH 31/50] fix: symmetry images of a minimum were not all reduced
 to the same one

---
 src/minimum_tracer/minimum_tracer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index acf3e47..fc34840 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -704,13 +704,15 @@ void MinimumTracer::ReduceVEV(std::vector<double> &vev)
   int MaximumMeasure = -1;
   char *ptr;
   std::string BinaryNumber;
+  // The images are compared with respect to the input VEV
+  const std::vector<double> original_vev = vev;
   for (auto GroupElement : GroupElements)
   {
     // Clean buffer
     BinaryNumber.clear();
     // Feed buffer
     for (size_t i = 0; i < vev.size(); i++)
-      BinaryNumber.append(std::to_string(vev[i] * GroupElement(i, i) >=
+      BinaryNumber.append(std::to_string(original_vev[i] * GroupElement(i, i) >=
                                          1e-5)); // Heaviside function
 
     // Converto to decimal and compare
@@ -718,7 +720,7 @@ void MinimumTracer::ReduceVEV(std::vector<double> &vev)
     {
       MaximumMeasure = std::strtol(BinaryNumber.c_str(), &ptr, 2);
       for (size_t i = 0; i < vev.size(); i++)
-        vev[i] *= GroupElement(i, i); // Transform vev
+        vev[i] = original_vev[i] * GroupElement(i, i); // Transform vev
     }
 
     // Reached maximum measure
-- 
2.43.0


From 76e36ea26f3b9a7882086903b6fd816c891b3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:19 +0000
Subject: [PATCH 32/50] fix: exchange symmetries were taken for flat directions

---
 src/minimum_tracer/minimum_tracer.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index fc34840..370ee1e 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -794,7 +794,7 @@ void MinimumTracer::FindFlatDirections()
   {
     for (std::size_t j = i + 1; j < nvev; j++)
     {
-      for (std::size_t k = j; k < nvev; k++)
+      for (std::size_t k = j + 1; k < nvev; k++)
       {
         point.at(i) = 2;
         point.at(j) = 100;
@@ -834,7 +834,15 @@ void MinimumTracer::FindFlatDirections()
                 point.at(k) = 2;
                 res_2       = this->modelPointer->VEff(
                     this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
-                if (almost_the_same(res_1, res_2, 1e-8))
+                const bool exchange_symmetric =
+                    almost_the_same(res_1, res_2, 1e-8);
+                // an actual rotation, exchanging the fields is not enough
+                point.at(i) = std::sqrt(2. * 2. + 100. * 100. + 200. * 200.);
+                point.at(j) = 0;
+                point.at(k) = 0;
+                res_1       = this->modelPointer->VEff(
+                    this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
+                if (exchange_symmetric and almost_the_same(res_1, res_2, 1e-8))
                 {
                   NonFlatDirections.at(j) = 0; // choose one point in sphere
                   NonFlatDirections.at(k) = 0; // choose one point in sphere
@@ -868,10 +876,16 @@ void MinimumTracer::FindFlatDirections()
       point.at(j) = 2;
       res_2       = this->modelPointer->VEff(
           this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
+      // an actual rotation, exchanging the fields is not enough
+      point.at(i)  = std::sqrt(2. * 2. + 100. * 100.);
+      point.at(j)  = 0;
+      double res_3 = this->modelPointer->VEff(
+          this->modelPointer->MinimizeOrderVEV(point), 0, 0, 0);
       point.at(i) = 1;
       point.at(j) = 1;
 
-      if (almost_the_same(res_1, res_2, 1e-8))
+      if (almost_the_same(res_1, res_2, 1e-8) and
+          almost_the_same(res_1, res_3, 1e-8))
       {
         NonFlatDirections.at(j) = 0; // choose one point in circle
         flat_dirs_found         = true;
-- 
2.43.0


From ad4feb1932fa06b82bbb2e296b80967db365ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:05 +0000
Subject: [PATCH 33/50] fix: endless loop for phases that touch at a single
 temperature

---
 src/minimum_tracer/minimum_tracer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 370ee1e..df30e3a 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2557,8 +2557,8 @@ void Vacuum::setCoexPhases()
     for (std::size_t j = i + 1; j < PhasesList.size(); j++)
     {
       auto true_phase = PhasesList.at(j);
-      if (true_phase.T_high >= false_phase.T_low and
-          true_phase.T_low <= false_phase.T_high)
+      if (true_phase.T_high > false_phase.T_low and
+          true_phase.T_low < false_phase.T_high)
       {
         double T_low_overlap  = max(false_phase.T_low, true_phase.T_low);
         double T_high_overlap = min(false_phase.T_high, true_phase.T_high);
-- 
2.43.0


From 49046a753f51efc7a4255d7dcc3d507bee1df2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:23 +0000
Subject: [PATCH 34/50] fix: coverage by the global minimum was judged with the
 wrong or without a phase if one phase lies inside the other

---
 src/minimum_tracer/minimum_tracer.cpp | 41 ++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index df30e3a..016c050 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -1890,25 +1890,34 @@ bool Vacuum::DoGlobMinOverlap(const Phase &new_phase, const Phase &old_phase)
     if (new_phase.T_high >= old_phase.T_low and
         new_phase.T_low <= old_phase.T_high) // coverage check
     {
-      Phase phase_low, phase_high;
-      if (new_phase.T_high >= old_phase.T_high)
-      {
-        phase_high = new_phase;
-        phase_low  = old_phase;
-      }
-      else if (new_phase.T_low <= old_phase.T_low)
+      Phase phase_new = new_phase;
+      Phase phase_old = old_phase;
+
+      // minimum of the phase that continues outside of the overlap, or the
+      // deeper one if both phases end there
+      auto outer_minimum =
+          [&](const double &T, const bool &only_new, const bool &only_old)
       {
-        phase_high = old_phase;
-        phase_low  = new_phase;
-      }
+        auto min_new = phase_new.Get(T);
+        auto min_old = phase_old.Get(T);
+        if (only_new) return min_new;
+        if (only_old) return min_old;
+        return min_new.potential <= min_old.potential ? min_new : min_old;
+      };
 
       // check for global minimum at innermost overlap
-      auto min_coex_high = phase_high.Get(
-          phase_low.T_high); // high-temperature phase minimum when
-                             // low-temperature phase stops existing
-      auto min_coex_low = phase_low.Get(
-          phase_high.T_low); // low-temperature phase minimum when
-                             // high-temperature phase stops existing
+      auto min_coex_high = outer_minimum(
+          std::min(new_phase.T_high, old_phase.T_high),
+          new_phase.T_high > old_phase.T_high,
+          new_phase.T_high <
+              old_phase.T_high); // high-temperature phase minimum when
+                                 // low-temperature phase stops existing
+      auto min_coex_low = outer_minimum(
+          std::max(new_phase.T_low, old_phase.T_low),
+          new_phase.T_low < old_phase.T_low,
+          new_phase.T_low >
+              old_phase.T_low); // low-temperature phase minimum when
+                                // high-temperature phase stops existing
       MinTracer->IsGlobMin(min_coex_high);
       MinTracer->IsGlobMin(min_coex_low);
       global_minimum_overlap =
-- 
2.43.0


From 06606e98cfa5fab5786a171e5a5418a1d33adb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:23 +0000
Subject: [PATCH 35/50] fix: transitions between phases with the same highest
 temperature were missed

---
 src/minimum_tracer/minimum_tracer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 016c050..7432d60 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2419,10 +2419,16 @@ Vacuum::Vacuum(const double &T_lowIn,
        status_vacuum == StatusTracing::NoCoverage)) // no_coverage can get fixed
                                                     // in setCoexRegion
   {
-    // sort phases in decending T_high
+    // sort phases in decending T_high, the deeper one first if they end at the
+    // same temperature
     std::sort(PhasesList.begin(),
               PhasesList.end(),
-              [](auto a, auto b) { return a.T_high > b.T_high; });
+              [](const Phase &a, const Phase &b)
+              {
+                if (a.T_high != b.T_high) return a.T_high > b.T_high;
+                return a.MinimumPhaseVector.back().potential <
+                       b.MinimumPhaseVector.back().potential;
+              });
 
     // assign ids to phases
     for (std::size_t i = 0; i < PhasesList.size(); i++)
-- 
2.43.0


From 1cba90ed9600b21429bc388dec220d9acba31825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:01 +0000
Subject: [PATCH 36/50] fix: flat directions, restore the range of the last
 index of the three-dimensional search

---
 src/minimum_tracer/minimum_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 7432d60..4ce771d 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -794,7 +794,7 @@ void MinimumTracer::FindFlatDirections()
   {
     for (std::size_t j = i + 1; j < nvev; j++)
     {
-      for (std::size_t k = j + 1; k < nvev; k++)
+      for (std::size_t k = j; k < nvev; k++)
       {
         point.at(i) = 2;
         point.at(j) = 100;
-- 
2.43.0


From 169b5716a347506a56ef7bb14491605819dae844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:55 +0000
Subject: [PATCH 37/50] fix: endless search for the global minimum in
 multi-step mode 2

---
 src/minimum_tracer/minimum_tracer.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 4ce771d..bf9b99f 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2112,7 +2112,7 @@ void Vacuum::MultiStepPTMode2(const std::vector<double> &LowTempPoint_in,
   auto LowTempPoint  = LowTempPoint_in;
   auto HighTempPoint = HighTempPoint_in;
 
-  double T_low_newglob;
+  double T_low_newglob = T_low;
   Phase LowTempPhase(LowTempPoint, T_low, T_high, T_low_newglob, MinTracer);
   T_high_lowTempPhase = LowTempPhase.T_high;
   Logger::Write(LoggingLevel::MinTracerDetailed,
@@ -2124,7 +2124,7 @@ void Vacuum::MultiStepPTMode2(const std::vector<double> &LowTempPoint_in,
                     std::to_string(T_low_newglob) + "] GeV\n");
   if (LowTempPhase.MinimumPhaseVector.size() > 1) addPhase(LowTempPhase);
 
-  double T_high_newglob;
+  double T_high_newglob = T_high;
   Phase HighTempPhase(HighTempPoint, T_high, T_low, T_high_newglob, MinTracer);
   T_low_highTempPhase = HighTempPhase.T_low;
   Logger::Write(LoggingLevel::MinTracerDetailed,
@@ -2164,10 +2164,11 @@ void Vacuum::MultiStepPTMode2(const std::vector<double> &LowTempPoint_in,
             " GeV with " + vec_to_string(LowTempPoint) + "\n");
 
     tmp_T_low_newglob_old = tmp_T_low_newglob;
+    // trace upwards last to get the upper end of the global minimum
     Phase LowTempPhaseMiddle(tmp_T_low_newglob_old,
                              LowTempPoint,
-                             T_low,
                              T_high,
+                             T_low,
                              tmp_T_low_newglob,
                              MinTracer);
     if (LowTempPhaseMiddle.T_low < LowTempPhaseMiddle.T_high)
@@ -2178,11 +2179,9 @@ void Vacuum::MultiStepPTMode2(const std::vector<double> &LowTempPoint_in,
                         std::to_string(LowTempPhaseMiddle.T_high) + " ] GeV\n");
       addPhase(LowTempPhaseMiddle);
     }
-    else
-    {
-      if (tmp_T_low_newglob + 1 < T_high)
-        tmp_T_low_newglob += 1; // try to move out of problematic region
-    }
+    if (tmp_T_low_newglob <= tmp_T_low_newglob_old)
+      tmp_T_low_newglob = tmp_T_low_newglob_old +
+                          deltaT; // try to move out of problematic region
 
     // High-temperature phase
     HighTempPoint = MinTracer->ConvertToVEVDim(
@@ -2209,11 +2208,9 @@ void Vacuum::MultiStepPTMode2(const std::vector<double> &LowTempPoint_in,
                         " ] GeV\n");
       addPhase(HighTempPhaseMiddle);
     }
-    else
-    {
-      if (tmp_T_high_newglob > T_low + 1)
-        tmp_T_high_newglob -= 1; // try to move out of problematic region
-    }
+    if (tmp_T_high_newglob >= tmp_T_high_newglob_old)
+      tmp_T_high_newglob = tmp_T_high_newglob_old -
+                           deltaT; // try to move out of problematic region
   }
   return;
 }
-- 
2.43.0


From 6034a10d171993783b8d5c043748f2c6861fa144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:55 +0000
Subject: [PATCH 38/50] fix: phases that become identical by merging were
 listed twice

---
 src/minimum_tracer/minimum_tracer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index bf9b99f..0f2614a 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2790,8 +2790,16 @@ void Vacuum::addPhase(Phase &phase)
                 std::to_string(existingPhase.T_high) + " GeV.");
 
         // Add Minimum of other phase to the already existing phase.
+        Phase merged_phase = existingPhase;
         for (auto min : phase.MinimumPhaseVector)
-          existingPhase.Add(min);
+        {
+          min.EdgeOfPhase = 0;
+          merged_phase.Add(min);
+        }
+        // The merged phase can coincide with further phases
+        PhasesList.erase(PhasesList.begin() +
+                         (&existingPhase - PhasesList.data()));
+        addPhase(merged_phase);
         return; // The phases coincide. Abort!
       }
     }
-- 
2.43.0


From f188ac3655b0a90d46e23dc52309d45691484ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:27 +0000
Subject: [PATCH 39/50] fix: multi-step mode 1 missed its own coverage when a
 single phase lies in the middle

---
 src/minimum_tracer/minimum_tracer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index 0f2614a..dcc9412 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2053,7 +2053,17 @@ void Vacuum::MultiStepPTMode1(const std::vector<double> &LowTempPoint_in,
           if (side_global_overlap)
           {
             // check for global minimum at innermost overlap
+            const double T_middle =
+                (std::max(LowTempPhaseMiddle.T_low, HighTempPhaseMiddle.T_low) +
+                 std::min(LowTempPhaseMiddle.T_high,
+                          HighTempPhaseMiddle.T_high)) /
+                2;
+            // one single phase covers the middle, there is no inner overlap
+            const bool same_middle_phase =
+                L2NormVector(LowTempPhaseMiddle.Get(T_middle).point -
+                             HighTempPhaseMiddle.Get(T_middle).point) < 1;
             global_minimum_overlap =
+                same_middle_phase or
                 DoGlobMinOverlap(LowTempPhaseMiddle, HighTempPhaseMiddle);
 
             if (global_minimum_overlap) // success
-- 
2.43.0


From 50e06c5a7515dd46568797594227a75b198d606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:45 +0000
Subject: [PATCH 40/50] fix: CalcTemps rejected its own option
 --checkewsr=keep_ewsr

---
 src/prog/CalcTemps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index c8c3efa..5e21a36 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -334,7 +334,7 @@ bool CLIOptions::good() const
     Logger::Write(LoggingLevel::Default, "Invalid choice for num_check_pts.");
     return false;
   }
-  if (CheckEWSymmetryRestoration > 2 or CheckEWSymmetryRestoration < 0)
+  if (CheckEWSymmetryRestoration > 3 or CheckEWSymmetryRestoration < 0)
   {
     Logger::Write(LoggingLevel::Default,
                   "Invalid choice for CheckEWSymmetryRestoration.");
-- 
2.43.0


From 8f5c016f8e2f5b6be3dd225baa8f571935abe004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:45 +0000
Subject: [PATCH 41/50] fix: TransitionTracer ignored the discrete symmetries
 when looking for the closest true vacuum

---
 src/transition_tracer/transition_tracer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 5041100..9eecec3 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -144,7 +144,8 @@ TransitionTracer::TransitionTracer(user_input &input)
                                   input.vwall,
                                   input.epsturb,
                                   input.maxpathintegrations,
-                                  input.number_of_initial_scan_temperatures);
+                                  input.number_of_initial_scan_temperatures,
+                                  mintracer->GroupElements);
 
             ListBounceSolution.push_back(bounce);
 
-- 
2.43.0


From 018f0ab47cbd2188b5091ee3c09df56684095844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:45 +0000
Subject: [PATCH 42/50] fix: the user's wall velocity was not used for
 percolation and completion, and not reported

---
 src/bounce_solution/bounce_solution.cpp     | 1 +
 src/transition_tracer/transition_tracer.cpp | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index ed0452d..3a66beb 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -36,6 +36,7 @@ BounceSolution::BounceSolution(
   Tm         = phase_pair.T_low;
 
   UserDefined_vwall               = UserDefined_vwall_in;
+  if (UserDefined_vwall >= 0) vwall = UserDefined_vwall;
   epsturb                         = UserDefined_epsturb_in;
   MaxPathIntegrations             = MaxPathIntegrations_in;
   NumberOfInitialScanTemperatures = NumberOfInitialScanTemperatures_in;
diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index 9eecec3..b4ba3a6 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -278,9 +278,8 @@ TransitionTracer::TransitionTracer(user_input &input)
                 Logger::Write(LoggingLevel::TransitionDetailed,
                               "Start GW parameters calculation.");
 
-                new_gw_data.vwall = bounce.GetWallVelocity();
-
                 bounce.CalculatePTStrength();
+                new_gw_data.vwall       = bounce.GetWallVelocity();
                 new_gw_data.alpha       = bounce.GetPTStrength();
                 new_gw_data.beta_over_H = bounce.GetInvTimeScale();
 
-- 
2.43.0


From ef878570f32edfd3b8318044c7341a2867090e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:45 +0000
Subject: [PATCH 43/50] fix: the false vacuum fractions given by the user were
 ignored

---
 include/BSMPT/bounce_solution/bounce_solution.h | 5 +++++
 src/bounce_solution/bounce_solution.cpp         | 4 +++-
 src/transition_tracer/transition_tracer.cpp     | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/BSMPT/bounce_solution/bounce_solution.h b/include/BSMPT/bounce_solution/bounce_solution.h
index 96c1813..3c054e4 100644
--- a/include/BSMPT/bounce_solution/bounce_solution.h
+++ b/include/BSMPT/bounce_solution/bounce_solution.h
@@ -81,6 +81,11 @@ public:
    */
   bool completion_temp_set = false;
 
+  /**
+   * @brief false vacuum fraction that defines the percolation temperature
+   */
+  double percolation_false_vac_frac = 0.71;
+
   /**
    * @brief critical temperature/highest temperature when transition can occur
    */
diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 3a66beb..29b0304 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -797,6 +797,8 @@ void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
 {
   if (status_bounce_sol == StatusGW::Success)
   {
+    percolation_false_vac_frac = false_vac_frac;
+
     Tperc = CalcTempAtFalseVacFraction(false_vac_frac);
 
     if (Tperc > 0 and percolation_temp_set == false)
@@ -951,7 +953,7 @@ void BounceSolution::CalculatePTStrength()
     // v_wall = v_wall(alpha, T_*)
     // Should converge quickly, if fails use default value of v_wall = 0.95
     old_alpha = alpha;
-    CalculatePercolationTemp();
+    CalculatePercolationTemp(percolation_false_vac_frac);
     Minimum true_min  = phase_pair.true_phase.Get(GetPercolationTemp());
     Minimum false_min = phase_pair.false_phase.Get(GetPercolationTemp());
 
diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index b4ba3a6..eb9ab6e 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -205,7 +205,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculatePercolationTemp();
+              bounce.CalculatePercolationTemp(input.perc_prbl);
 
               output_store.status.status_perc.push_back(bounce.status_perc);
               if (bounce.status_perc == BSMPT::StatusTemperature::Success)
@@ -228,7 +228,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                     std::vector<double>(num_vev, EmptyValue);
               }
 
-              bounce.CalculateCompletionTemp();
+              bounce.CalculateCompletionTemp(input.compl_prbl);
 
               output_store.status.status_compl.push_back(bounce.status_compl);
               if (bounce.status_compl == BSMPT::StatusTemperature::Success)
-- 
2.43.0


From 61e98d6aae976e619cc8abc867fa76f0be1ae880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:03 +0000
Subject: [PATCH 44/50] fix: TransitionTracer threw an exception if nucleation
 was reached but percolation was not

---
 src/transition_tracer/transition_tracer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transition_tracer/transition_tracer.cpp b/src/transition_tracer/transition_tracer.cpp
index eb9ab6e..8268d09 100644
--- a/src/transition_tracer/transition_tracer.cpp
+++ b/src/transition_tracer/transition_tracer.cpp
@@ -272,7 +272,9 @@ TransitionTracer::TransitionTracer(user_input &input)
                 trans_status = bounce.status_compl;
               }
 
+              // the strength is evaluated at the percolation temperature
               if (trans_status == BSMPT::StatusTemperature::Success &&
+                  bounce.status_perc == BSMPT::StatusTemperature::Success &&
                   input.gw_calculation)
               {
                 Logger::Write(LoggingLevel::TransitionDetailed,
@@ -319,8 +321,7 @@ TransitionTracer::TransitionTracer(user_input &input)
                   new_gw_data.status_gw = gw.data.status;
                 }
               }
-              else if (input.gw_calculation &&
-                       trans_status != BSMPT::StatusTemperature::Success)
+              else if (input.gw_calculation)
               {
                 Logger::Write(LoggingLevel::TransitionDetailed,
                               "Requested transition temperature could not be "
-- 
2.43.0


From b86cf4e2d27132bfb074a4dfb6eb8824b7b439cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:11 +0000
Subject: [PATCH 45/50] fix: no percolation with an approximated wall velocity
 gave strength and wall velocity from temperature -1

---
 src/bounce_solution/bounce_solution.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/bounce_solution/bounce_solution.cpp b/src/bounce_solution/bounce_solution.cpp
index 29b0304..61fa8db 100644
--- a/src/bounce_solution/bounce_solution.cpp
+++ b/src/bounce_solution/bounce_solution.cpp
@@ -812,10 +812,14 @@ void BounceSolution::CalculatePercolationTemp(const double &false_vac_frac)
       }
       percolation_temp_set = true;
       SetBounceSol();
-      Tperc       = CalcTempAtFalseVacFraction(false_vac_frac);
+      Tperc                = CalcTempAtFalseVacFraction(false_vac_frac);
+    }
+
+    if (Tperc > 0)
+    {
       status_perc = BSMPT::StatusTemperature::Success;
     }
-    else if (Tperc < 0)
+    else
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the percolation temperature failed.");
@@ -841,9 +845,13 @@ void BounceSolution::CalculateCompletionTemp(const double &false_vac_frac)
       }
       completion_temp_set = true;
       Tcompl              = CalcTempAtFalseVacFraction(false_vac_frac);
-      status_compl        = BSMPT::StatusTemperature::Success;
     }
-    else if (Tcompl < 0)
+
+    if (Tcompl > 0)
+    {
+      status_compl = BSMPT::StatusTemperature::Success;
+    }
+    else
     {
       Logger::Write(LoggingLevel::TransitionDetailed,
                     "Calculation of the completion temperature failed.");
@@ -954,6 +962,8 @@ void BounceSolution::CalculatePTStrength()
     // Should converge quickly, if fails use default value of v_wall = 0.95
     old_alpha = alpha;
     CalculatePercolationTemp(percolation_false_vac_frac);
+    // No percolation with this wall velocity
+    if (Tperc < 0 and UserDefined_vwall < 0) break;
     Minimum true_min  = phase_pair.true_phase.Get(GetPercolationTemp());
     Minimum false_min = phase_pair.false_phase.Get(GetPercolationTemp());
 
-- 
2.43.0


From b33ec16ee67f947063817ee3b85ce382a380f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:23 +0000
Subject: [PATCH 46/50] fix: CalcTemps, CalcGW and MinimaTracer took the legend
 for a parameter point if firstline was 1

---
 src/prog/CalcGW.cpp       | 3 ++-
 src/prog/CalcTemps.cpp    | 3 ++-
 src/prog/MinimaTracer.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/prog/CalcGW.cpp b/src/prog/CalcGW.cpp
index df90892..1d5533e 100644
--- a/src/prog/CalcGW.cpp
+++ b/src/prog/CalcGW.cpp
@@ -103,7 +103,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1)
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/CalcTemps.cpp b/src/prog/CalcTemps.cpp
index 5e21a36..2e1f663 100644
--- a/src/prog/CalcTemps.cpp
+++ b/src/prog/CalcTemps.cpp
@@ -100,7 +100,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1)
     {
       count += 1; // keep track at which point we are
       output_contents.at(count - 1).precision(
diff --git a/src/prog/MinimaTracer.cpp b/src/prog/MinimaTracer.cpp
index 3214037..989c470 100644
--- a/src/prog/MinimaTracer.cpp
+++ b/src/prog/MinimaTracer.cpp
@@ -91,7 +91,8 @@ try
 
     if (linecounter > args.lastline) break;
 
-    if (linecounter >= args.firstline and linecounter <= args.lastline)
+    if (linecounter >= args.firstline and linecounter <= args.lastline and
+        linecounter != 1)
     {
       Logger::Write(LoggingLevel::ProgDetailed,
                     "Currently at line " + std::to_string(linecounter));
-- 
2.43.0


From 3bb2b66a4b5b6b5b56f1114bb796fe6c8be446d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:23 +0000
Subject: [PATCH 47/50] fix: NLOVEV evaluated an empty line after the end of
 the file

---
 src/prog/NLOVEV.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/prog/NLOVEV.cpp b/src/prog/NLOVEV.cpp
index 8cd51f7..ce88880 100644
--- a/src/prog/NLOVEV.cpp
+++ b/src/prog/NLOVEV.cpp
@@ -80,10 +80,8 @@ try
   std::shared_ptr<BSMPT::Class_Potential_Origin> modelPointer =
       ModelID::FChoose(args.Model, SMConstants);
   std::vector<double> Check;
-  while (true)
+  while (getline(infile, linestr))
   {
-
-    getline(infile, linestr);
     if (linecounter > args.LastLine) break;
     if (linecounter == 1)
     {
-- 
2.43.0


From c80f8eecb415b16c0f3188bbd54a540700cc3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:14 +0000
Subject: [PATCH 48/50] fix: the order of the N2HDM triple Higgs couplings
 depended on an earlier parameter point if no Higgs boson is near 125 GeV

---
 src/models/ClassPotentialN2HDM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/ClassPotentialN2HDM.cpp b/src/models/ClassPotentialN2HDM.cpp
index 2caed38..c6f9420 100644
--- a/src/models/ClassPotentialN2HDM.cpp
+++ b/src/models/ClassPotentialN2HDM.cpp
@@ -847,6 +847,7 @@ void Class_Potential_N2HDM::TripleHiggsCouplings()
   {
     NeutralHiggs[i] = HiggsMasses[posN.at(i)];
   }
+  MSM = 0; // do not keep the value of an earlier parameter point
   for (int i = 0; i < 3; i++)
   {
     if (std::sqrt(NeutralHiggs[i]) < 126 and std::sqrt(NeutralHiggs[i]) > 124)
-- 
2.43.0


From 8b6aca7b85a920599d7ce12a886502e1c6b0abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:14 +0000
Subject: [PATCH 49/50] fix: VEVEVO and PotPlotter took the empty end of the
 file for a parameter point

---
 src/prog/PotPlotter.cpp | 4 +---
 src/prog/VEVEVO.cpp     | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/prog/PotPlotter.cpp b/src/prog/PotPlotter.cpp
index ec4d8da..ec88ba3 100644
--- a/src/prog/PotPlotter.cpp
+++ b/src/prog/PotPlotter.cpp
@@ -89,10 +89,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
diff --git a/src/prog/VEVEVO.cpp b/src/prog/VEVEVO.cpp
index 2903286..f3d9710 100644
--- a/src/prog/VEVEVO.cpp
+++ b/src/prog/VEVEVO.cpp
@@ -81,10 +81,8 @@ try
   int linecounter = 1;
 
   bool found = false;
-  while (true)
+  while (std::getline(infile, linestr))
   {
-    if (infile.eof()) break;
-    std::getline(infile, linestr);
     if (linecounter == 1)
     {
       modelPointer->setUseIndexCol(linestr);
-- 
2.43.0


From 9c549b0c7ee6dc3d6109942cc67aceb58cc48a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:55 +0000
Subject: [PATCH 50/50] fix: phases found while patching up gaps in the tracing
 were neither sorted nor numbered

---
 src/minimum_tracer/minimum_tracer.cpp | 33 ++++++++++++++++-----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/minimum_tracer/minimum_tracer.cpp b/src/minimum_tracer/minimum_tracer.cpp
index dcc9412..2209f5f 100644
--- a/src/minimum_tracer/minimum_tracer.cpp
+++ b/src/minimum_tracer/minimum_tracer.cpp
@@ -2428,24 +2428,31 @@ Vacuum::Vacuum(const double &T_lowIn,
   {
     // sort phases in decending T_high, the deeper one first if they end at the
     // same temperature
-    std::sort(PhasesList.begin(),
-              PhasesList.end(),
-              [](const Phase &a, const Phase &b)
-              {
-                if (a.T_high != b.T_high) return a.T_high > b.T_high;
-                return a.MinimumPhaseVector.back().potential <
-                       b.MinimumPhaseVector.back().potential;
-              });
-
-    // assign ids to phases
-    for (std::size_t i = 0; i < PhasesList.size(); i++)
+    const auto sort_phases = [this]()
     {
-      PhasesList[i].id = i;
-    }
+      std::sort(PhasesList.begin(),
+                PhasesList.end(),
+                [](const Phase &a, const Phase &b)
+                {
+                  if (a.T_high != b.T_high) return a.T_high > b.T_high;
+                  return a.MinimumPhaseVector.back().potential <
+                         b.MinimumPhaseVector.back().potential;
+                });
+
+      // assign ids to phases
+      for (std::size_t i = 0; i < PhasesList.size(); i++)
+      {
+        PhasesList[i].id = i;
+      }
+    };
+    sort_phases();
 
     // identify coexisiting phase regions
     setCoexRegion(UseMultiStepPTMode); // can flip status_vacuum to error code
 
+    // phases found while patching up gaps were appended
+    sort_phases();
+
     if (PhasesList.size() > 0)
     {
       PrintPhasesDiagram();
-- 
2.43.0

