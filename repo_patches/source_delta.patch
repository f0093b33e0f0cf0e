From 58aaf9512c7474191a3be5a28825ae46b4b954b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 01/22] fix: fourth derivative of potentials with a feature
 ignored the feature

---
 primpy/potentials.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 5d8c4a7..533ef80 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1298,6 +1298,11 @@ class FeatureFunction(ABC):
     def d3F(x, x0, a, b):
         """Feature function 3rd derivative."""
 
+    @staticmethod
+    @abstractmethod
+    def d4F(x, x0, a, b):
+        """Feature function 4th derivative."""
+
 
 class GaussianDip(FeatureFunction):
     """Gaussian: `F(x) = -a * exp(-(x-x0)**2 / (2*b**2))`."""
@@ -1322,6 +1327,12 @@ class GaussianDip(FeatureFunction):
         """`F'''(x) = a/b**6 * (x-x0) * ((x-x0)**2 - 3*b**2) * exp(-(x-x0)**2 / (2*b**2))`."""
         return a / b**6 * (x - x0) * ((x - x0)**2 - 3 * b**2) * np.exp(-(x - x0)**2 / (2 * b**2))
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = -a/b**8 * ((x-x0)**4-6*b**2*(x-x0)**2+3*b**4) * exp(-(x-x0)**2/2/b**2)`."""
+        return (-a / b**8 * ((x - x0)**4 - 6 * b**2 * (x - x0)**2 + 3 * b**4)
+                * np.exp(-(x - x0)**2 / (2 * b**2)))
+
 
 class TanhStep(FeatureFunction):
     """Tanh step function: `F(x) = a * tanh((x - x0) / b)`."""
@@ -1349,6 +1360,12 @@ class TanhStep(FeatureFunction):
         tanh = np.tanh((x - x0) / b)
         return -2 * a / b**3 * (1 - 4 * tanh**2 + 3 * tanh**4)
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = 8*a/b**4 * t * (2 - 5*t**2 + 3*t**4)` with `t = tanh((x-x0)/b)`."""
+        tanh = np.tanh((x - x0) / b)
+        return 8 * a / b**4 * tanh * (2 - 5 * tanh**2 + 3 * tanh**4)
+
 
 class FeaturePotential(InflationaryPotential, FeatureFunction):
     """Inflationary potential with a feature: `V(phi) = V0(phi) * (1+F(phi))`."""
@@ -1411,6 +1428,28 @@ class FeaturePotential(InflationaryPotential, FeatureFunction):
         d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
         return d3V0 * (1 + F) + 3 * d2V0 * dF + 3 * dV0 * d2F + V0 * d3F
 
+    def d4V(self, phi):
+        r"""Fourth derivative of the inflationary potential with a feature.
+
+        .. math::
+            V^{(4)}(\phi) = V_0^{(4)}(\phi) * (1 + F(\phi))
+                        + 4 * V_0^{(3)}(\phi) * F'(\phi)
+                        + 6 * V_0''(\phi) * F''(\phi)
+                        + 4 * V_0'(\phi) * F^{(3)}(\phi)
+                        + V_0(\phi) * F^{(4)}(\phi)
+        """
+        V0 = super().V(phi)
+        dV0 = super().dV(phi)
+        d2V0 = super().d2V(phi)
+        d3V0 = super().d3V(phi)
+        d4V0 = super().d4V(phi)
+        F = super().F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        dF = super().dF(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d2F = super().d2F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d4F = super().d4F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        return d4V0 * (1 + F) + 4 * d3V0 * dF + 6 * d2V0 * d2F + 4 * dV0 * d3F + V0 * d4F
+
 
 class StarobinskyGaussianDipPotential(FeaturePotential, StarobinskyPotential, GaussianDip):
     """Starobinsky potential with a Gaussian dip."""
-- 
2.43.0


From dadcfab53cf7a67691db12a04c00acf25f472181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 02/22] fix: reheating e-folds from w_reh and rho_reh_GeV were
 wrong for curved universes

---
 primpy/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a206ed5..a99176d 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -805,7 +805,7 @@ class InflationEquations(Equations, ABC):
                         sol.w_reh = w_reh
                         sol.rho_reh_GeV = rho_reh_GeV
                         sol.rho_reh_mp4 = rho_reh_GeV**4 / mp_GeV * lp_iGeV**3
-                        sol.DeltaN_reh = -(1+w_reh) / 3 * np.log(2/3 * sol.rho_reh_mp4 / sol.V_end)
+                        sol.DeltaN_reh = np.log(3/2*sol.V_end/sol.rho_reh_mp4) / (3*(1+w_reh))
                         sol.DeltaN_minus1 = sol.DeltaN_reh / 4 * (1 - 3 * w_reh)
                         sol.N0 += sol.DeltaN_minus1
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
-- 
2.43.0


From 4db0fe62840f62a60f129cdae5150cc00a8b5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 03/22] fix: third time derivative of the inflaton ignored
 spatial curvature

---
 primpy/time/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/time/inflation.py b/primpy/time/inflation.py
index 5b6d8a9..4d88e81 100644
--- a/primpy/time/inflation.py
+++ b/primpy/time/inflation.py
@@ -77,7 +77,7 @@ class InflationEquationsT(InflationEquations):
     @staticmethod
     def get_d3phi(H, dH, d2H, dphi, d2phi, dV, d2V):  # noqa: D102
         # here: d3phi/dt3
-        return -3 * H * d2phi - d2V * dphi + 3 * dphi**3 / 2
+        return -3 * H * d2phi - 3 * dH * dphi - d2V * dphi
 
     @staticmethod
     def get_d4phi(H, dH, d2H, d3H, dphi, d2phi, d3phi, dV, d2V, d3V):  # noqa: D102
-- 
2.43.0


From 159997150291681d1bfbf4b999e84c5ddd485caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 04/22] fix: approximate spectra were stale after recalibration
 and missing for other methods

---
 primpy/inflation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a99176d..44a4c53 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -863,6 +863,10 @@ class InflationEquations(Equations, ABC):
             sol.cHH_Mpc = sol.a0 / (np.exp(sol.N) * sol.H) * lp_m / Mpc_m
             sol.cHH_end_Mpc = sol.a0 / (np.exp(sol.N_end) * sol.H_end) * lp_m / Mpc_m
 
+            # approximate spectra derived for a previous calibration do not apply any more
+            for key in [key for key in sol if key.startswith(('P_s_approx_', 'P_t_approx_'))]:
+                delattr(sol, key)
+
             # derive approximate primordial power spectra
             if background is None:  # only derive if not copied from background
                 derive_approx_power(**kwargs)
@@ -1457,6 +1461,8 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
+                if not hasattr(sol, "P_s_approx_CGS3"):
+                    derive_approx_power_CGS(order=order, **interp_kwargs)
                 if order == 3:
                     return sol.P_s_approx_CGS3(k)
                 elif order == 0:
@@ -1511,6 +1517,8 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
+                if not hasattr(sol, "P_t_approx_CGS3"):
+                    derive_approx_power_CGS(order=order, **interp_kwargs)
                 if order is None or order == 3:
                     return sol.P_t_approx_CGS3(k)
                 elif order == 0:
-- 
2.43.0


From ce7aef9a2aea16986b0d6ed3c4c126fc294c5b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 05/22] fix: querying an approximate spectrum replaced the
 calibrated one

---
 primpy/inflation.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 44a4c53..45b21e8 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1435,6 +1435,13 @@ class InflationEquations(Equations, ABC):
 
         sol.derive_approx_power = derive_approx_power
 
+        def derive_on_request(derive_approx_power_method, **kwargs):
+            """Derive further approximations without changing those chosen in the calibration."""
+            keys = ['P_scalar_approx', 'P_tensor_approx', 'logk2logP_s', 'logk2logP_t']
+            calibrated = {key: sol[key] for key in keys if key in sol}
+            derive_approx_power_method(**kwargs)
+            sol.update(calibrated)
+
         def P_s_approx(k, method='CGS', order=3, **interp_kwargs):
             """Slow-roll approximation for the primordial power spectrum for scalar modes.
 
@@ -1462,7 +1469,7 @@ class InflationEquations(Equations, ABC):
             """
             if method == 'CGS':
                 if not hasattr(sol, "P_s_approx_CGS3"):
-                    derive_approx_power_CGS(order=order, **interp_kwargs)
+                    derive_on_request(derive_approx_power_CGS, order=order, **interp_kwargs)
                 if order == 3:
                     return sol.P_s_approx_CGS3(k)
                 elif order == 0:
@@ -1473,15 +1480,15 @@ class InflationEquations(Equations, ABC):
                     return sol.P_s_approx_CGS2(k)
             elif method == 'LLMS':
                 if not hasattr(sol, "P_s_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
+                    derive_on_request(derive_approx_power_LLMS, **interp_kwargs)
                 return sol.P_s_approx_LLMS(k)
             elif method == 'STE':
                 if not hasattr(sol, "P_s_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
+                    derive_on_request(derive_approx_power_STE, **interp_kwargs)
                 return sol.P_s_approx_STE(k)
             elif method == 'ARBDS':
                 if not hasattr(sol, "P_s_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
+                    derive_on_request(derive_approx_power_ARBDS, order=order, **interp_kwargs)
                 if order == 3:
                     return sol.P_s_approx_ARBDS3(k)
                 elif order == 1:
@@ -1518,7 +1525,7 @@ class InflationEquations(Equations, ABC):
             """
             if method == 'CGS':
                 if not hasattr(sol, "P_t_approx_CGS3"):
-                    derive_approx_power_CGS(order=order, **interp_kwargs)
+                    derive_on_request(derive_approx_power_CGS, order=order, **interp_kwargs)
                 if order is None or order == 3:
                     return sol.P_t_approx_CGS3(k)
                 elif order == 0:
@@ -1529,15 +1536,15 @@ class InflationEquations(Equations, ABC):
                     return sol.P_t_approx_CGS2(k)
             elif method == 'LLMS':
                 if not hasattr(sol, "P_t_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
+                    derive_on_request(derive_approx_power_LLMS, **interp_kwargs)
                 return sol.P_t_approx_LLMS(k)
             elif method == 'STE':
                 if not hasattr(sol, "P_t_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
+                    derive_on_request(derive_approx_power_STE, **interp_kwargs)
                 return sol.P_t_approx_STE(k)
             elif method == 'ARBDS':
                 if not hasattr(sol, "P_t_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
+                    derive_on_request(derive_approx_power_ARBDS, order=order, **interp_kwargs)
                 if order == 3:
                     return sol.P_t_approx_ARBDS3(k)
                 elif order == 1:
-- 
2.43.0


From dbb524ca19ba73c83726b3dce638afe9f71e61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 06/22] fix: H_star and rho_reh_mp4 kept values of a previous
 calibration

---
 primpy/inflation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 45b21e8..ea75027 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -751,6 +751,7 @@ class InflationEquations(Equations, ABC):
                     sol.N0 = np.log(sol.a0)
                     if rho_reh_GeV is None:
                         sol.rho_reh_GeV = np.nan
+                        sol.rho_reh_mp4 = np.nan
                         sol._N_reh = np.nan
                         sol.w_reh = np.nan
                         sol.DeltaN_reh = np.nan
@@ -849,6 +850,7 @@ class InflationEquations(Equations, ABC):
             sol.N_end = sol._N_end + sol.delta_N_calib
             sol.N_reh = sol._N_reh + sol.delta_N_calib
             sol.N_cross = sol._N_cross + sol.delta_N_calib
+            sol.H_star = np.exp(sol._logaH_star - sol._N_cross)
             sol.N_dagg = sol.N_cross - sol.N_beg
             sol.k_iMpc = np.exp(sol.logk)
             sol._k = np.exp(sol._logaH[sol.inflation_mask])
-- 
2.43.0


From 964b66787c0ab241c37a543a19a64f642fe8e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 07/22] fix: inflation start warning claimed that the tracked
 event was not tracked

---
 primpy/exceptionhandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/exceptionhandling.py b/primpy/exceptionhandling.py
index 97615b4..7bbaf52 100644
--- a/primpy/exceptionhandling.py
+++ b/primpy/exceptionhandling.py
@@ -121,7 +121,7 @@ class InflationStartWarning(InflationWarning):
         events = kwargs.pop('events', None)
         if events is None:
             self.message = "%s. %s" % (self.header, message)
-        elif 'Inflation_dir+1_term1' not in events and 'Inflation_dir+1_term0' not in events:
+        elif 'Inflation_dir1_term1' not in events and 'Inflation_dir1_term0' not in events:
             extra_info = ("Not tracking `InflationEvent`. Events tracked are %s. In order to "
                           "determine the start of inflation `_N_beg`, make sure to track the "
                           "event `InflationEvent(equations, direction=+1)` defined in "
-- 
2.43.0


From 911a2d49103a4c047278a36304946fa7d28625ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 08/22] fix: start of inflation was not reported when its event
 was terminal

---
 primpy/inflation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index ea75027..425e2be 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -416,13 +416,14 @@ class InflationEquations(Equations, ABC):
             sol._N_beg = sol._N[0]
             sol.H_beg = self.H(sol.x[0], sol.y[:, 0])
         # Case 2: there is a transition from non-inflating to inflating
-        elif ('Inflation_dir1_term0' in sol._N_events and
-              np.size(sol._N_events['Inflation_dir1_term0']) > 0):
-            sol._N_beg = sol._N_events['Inflation_dir1_term0'][0]
-            sol.H_beg = self.H(sol.x_events['Inflation_dir1_term0'][0],
-                               sol.y_events['Inflation_dir1_term0'][0])
         else:
-            self.vwarn(InflationStartWarning("", events=sol._N_events))
+            for key in ['Inflation_dir1_term1', 'Inflation_dir1_term0']:
+                if key in sol._N_events and np.size(sol._N_events[key]) > 0:
+                    sol._N_beg = sol._N_events[key][0]
+                    sol.H_beg = self.H(sol.x_events[key][0], sol.y_events[key][0])
+                    break
+            else:
+                self.vwarn(InflationStartWarning("", events=sol._N_events))
         sol._logaH_beg = sol._N_beg + np.log(sol.H_beg)
 
     def postprocessing_inflation_end(self, sol):
-- 
2.43.0


From 7427b7087714eece54e7f6366a4ac3b0257a1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 09/22] fix: feature spectra crashed for n_t without n_t_run

---
 cobaya_wrapper/feature_pps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 341d3ae..98d73d8 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -33,7 +33,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
         w_log = params_values_dict.get('w_log', None)
@@ -86,7 +86,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
         w_lin = params_values_dict.get('w_lin', None)
@@ -139,7 +139,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         k_cut = params_values_dict.get('k_cut', 1e-3)
         s_cut = params_values_dict.get('s_cut', 2)
-- 
2.43.0


From 7be75e1d7920e3d60782fdf3938902e67d4433a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 10/22] fix: energy density at the end of inflation was too
 small by a factor of three

---
 cobaya_wrapper/slowroll_pps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index a6f5d23..498b0d4 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,8 +65,8 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = (1/3 * (1/2 * b.dphidt[b.inflation_mask][-1]**2
-                                  + b.potential.V(b.phi[b.inflation_mask][-1]))
+            rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
+                            + b.potential.V(b.phi[b.inflation_mask][-1]))
                            * mp_GeV / lp_iGeV**3)**(1/4)
             if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
                 raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
-- 
2.43.0


From c519176b3fa68e9037d4fad7b764aa62fd9041b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 11/22] fix: CGS third order needs the second order of
 ln(-k*eta) at horizon crossing

---
 primpy/inflation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 425e2be..441ead2 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -948,7 +948,10 @@ class InflationEquations(Equations, ABC):
             # Choe, Gong & Stewart (2004), eq. (60)
             Ps0 = H**2 / (8 * pi**2 * e1)
             alpha = 2 - np.log(2) - np.euler_gamma
-            astar = alpha - e1  # from Choe, Gong & Stewart (2004) just after eq. (60)
+            # Choe, Gong & Stewart (2004) just after eq. (60): astar = alpha - ln(-k*eta) at aH=k,
+            # to the order that is needed for consistency with the 3rd order terms below
+            e2 = self.get_epsilon_2H(H=H, dH=dH, d2H=d2H)
+            astar = alpha - e1 - e1**2 / 2 - e1 * e2
             order1_s = (1 + (4 * astar - 2) * e1 + 2 * astar * d1 + (-astar**2 + pi**2 / 12) * d2
                         + (1 / 3 * astar**3 - pi**2 / 12 * astar + 4 / 3 - 2 / 3 * zeta(3)) * d3)
             # (slight differences between SG and CGS in 2nd order numeric coefficients)
-- 
2.43.0


From b9a3709c7c2a1fc1ceeee2100ac1eae5d5ba8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 12/22] fix: evaluate the ARBDS expansion at -k*eta=1, not at
 aH=k

---
 primpy/inflation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 441ead2..a4a814d 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1269,13 +1269,17 @@ class InflationEquations(Equations, ABC):
             e3 = self.get_epsilon_3H(H=H, dH=dH, d2H=d2H, d3H=d3H)
             e4 = 0  # TODO
             N2H = interp1d(_N, H)
-            H_star = N2H(sol._N_cross)
             N2e1 = interp1d(_N, e1)
-            e1 = N2e1(sol._N_cross)
             N2e2 = interp1d(_N, e2)
-            e2 = N2e2(sol._N_cross)
             N2e3 = interp1d(_N, e3)
-            e3 = N2e3(sol._N_cross)
+            # the expansion is about -k*eta=1, which is slightly later than horizon crossing aH=k
+            e1 = N2e1(sol._N_cross)
+            e2 = N2e2(sol._N_cross)
+            _N_eta = np.clip(sol._N_cross + e1 + 3 / 2 * e1**2 + e1 * e2, _N[0], _N[-1])
+            H_star = N2H(_N_eta)
+            e1 = N2e1(_N_eta)
+            e2 = N2e2(_N_eta)
+            e3 = N2e3(_N_eta)
             alpha = 2 - np.log(2) - np.euler_gamma
             Z = zeta(3) / 3 * 7  # factor 7 matches Auclair & Ringeval (2022) and matches LLMS
 
-- 
2.43.0


From 3992afa3cb742ba9db79d14cbcea510ac562584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 13/22] fix: zeta(3) coefficients of the third order of the
 ARBDS expansion

---
 primpy/inflation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a4a814d..e6537df 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1281,7 +1281,8 @@ class InflationEquations(Equations, ABC):
             e2 = N2e2(_N_eta)
             e3 = N2e3(_N_eta)
             alpha = 2 - np.log(2) - np.euler_gamma
-            Z = zeta(3) / 3 * 7  # factor 7 matches Auclair & Ringeval (2022) and matches LLMS
+            Z3 = zeta(3)
+            Z = Z3 / 3 * 7  # factor 7 matches Auclair & Ringeval (2022) and matches LLMS
 
             # Auclair & Ringeval (2022), eq. (54)
             # Ballardini, Davoli, and Sirletti (2025), eq. (45) or eq. (C.2)
@@ -1302,10 +1303,10 @@ class InflationEquations(Equations, ABC):
             as0_3 = (
                 - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) / 24 * (8 * e1**3 + e2**3)
                 + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 36*Z) / 12 * e1**2 * e2
-                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+84*Z) / 24 * e1*e2**2
-                + (16 + 4*alpha**3 - alpha*pi**2 - 24*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
+                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+100*Z3)/24 * e1*e2**2
+                + (16 + 4*alpha**3 - alpha*pi**2 - 8*Z3) / 24 * (e2*e3**2 + e2 * e3 * e4)
                 + (48*alpha - 12*alpha**3 - 5*alpha*pi**2) / 24 * e2**2 * e3
-                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-24*Z) / 12 * e1 * e2 * e3
+                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-8*Z3) / 12 * e1 * e2 * e3
             )
             as1_1 = (
                 -2 * e1 - e2
@@ -1348,7 +1349,7 @@ class InflationEquations(Equations, ABC):
                 - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
                 + 1/12 * (-96+72*alpha+36*alpha**2-24*alpha**3+13*pi**2-10*alpha*pi**2) * e1**2*e2
                 - 1/12 * (8 - 24 * alpha + 12 * alpha**2 - 4 * alpha**3 - pi**2
-                          + alpha * pi**2 + 24 * Z) * (e1 * e2**2 + e1 * e2 * e3)
+                          + alpha * pi**2 + 8 * Z3) * (e1 * e2**2 + e1 * e2 * e3)
             )
             at1_1 = -2 * e1
             at1_2 = 2 * (-2 * alpha + 1) * e1**2 + (-2 + 2 * alpha) * e1 * e2
-- 
2.43.0


From 90f35df806bc8d1def116b12d81674022e139c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:42 +0000
Subject: [PATCH 14/22] fix: dense output of modes in cosmic time could leave
 the integration range

---
 primpy/time/perturbations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/primpy/time/perturbations.py b/primpy/time/perturbations.py
index 94e334c..d6cb0e1 100644
--- a/primpy/time/perturbations.py
+++ b/primpy/time/perturbations.py
@@ -31,9 +31,9 @@ class ScalarModeT(ScalarMode):
         super(ScalarModeT, self).__init__(background=background, k=k, **kwargs)
         self._set_independent_variable('t')
         if 'num_eval' in kwargs and kwargs['num_eval'] > 0:
-            self.t_eval = np.logspace(np.log10(self.background.t[self.idx_beg]),
-                                      np.log10(self.background.t[self.idx_end]),
-                                      kwargs['num_eval'])
+            self.t_eval = np.geomspace(self.background.t[self.idx_beg],
+                                       self.background.t[self.idx_end],
+                                       kwargs['num_eval'])
             self.x_eval = self.t_eval
         else:
             self.x_eval = None
@@ -129,9 +129,9 @@ class TensorModeT(TensorMode):
         super(TensorModeT, self).__init__(background=background, k=k, **kwargs)
         self._set_independent_variable('t')
         if 'num_eval' in kwargs and kwargs['num_eval'] > 0:
-            self.t_eval = np.logspace(np.log10(self.background.t[self.idx_beg]),
-                                      np.log10(self.background.t[self.idx_end]),
-                                      kwargs['num_eval'])
+            self.t_eval = np.geomspace(self.background.t[self.idx_beg],
+                                       self.background.t[self.idx_end],
+                                       kwargs['num_eval'])
             self.x_eval = self.t_eval
         else:
             self.x_eval = None
-- 
2.43.0


From 65a0edb1ec3bdbb8d565cffbade7ff45e232263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:42 +0000
Subject: [PATCH 15/22] fix: modes were stopped before they entered the horizon
 after long kinetic dominance

---
 primpy/oscode_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index f997563..ecb6399 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -95,7 +95,9 @@ def solve_oscode(background, k,
             idx_beg = np.argwhere(np.log(ki) - b._logaH > np.log(fac_beg)).ravel()
             # set idx_beg to 0 if horizon starts out too small:
             idx_beg = 0 if idx_beg.size == 0 else idx_beg[-1]
-        idx_end = np.argwhere(b._logaH - np.log(ki) > np.log(fac_end)).ravel()[0]
+        # before inflation the horizon grows, such that modes that are outside of it can still enter:
+        is_end = (b._logaH - np.log(ki) > np.log(fac_end)) & ~(b._N < b._N_beg)
+        idx_end = np.argwhere(is_end).ravel()[0]
         if b._N[idx_end] - b._N[idx_beg] < 10:
             # For KD, for very large modes it can happen that they never go sub-horizon, and
             # therefore `idx_end` will be set equal (or close to equal) to `idx_beg`. These modes
-- 
2.43.0


From 44e71060458463e0351221ff8dc6821adfbd6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:26 +0000
Subject: [PATCH 16/22] fix: large scales of closed universes were only dropped
 for the RST vacuum

---
 primpy/oscode_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index ecb6399..b114163 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -127,7 +127,8 @@ def solve_oscode(background, k,
                 ))
         p.oscode_postprocessing(oscode_sol=oscode_sol, vacuum=vacuum)
         if ki < 1 and b.K == +1 and drop_closed_large_scales:
-            p.scalar.P_s_RST = 1e-30
+            for vac in vacuum:
+                setattr(p.scalar, 'P_s_%s' % vac, 1e-30)
         for vac in vacuum:
             getattr(PPS, 'P_s_%s' % vac)[i] = getattr(p.scalar, 'P_s_%s' % vac)
             getattr(PPS, 'P_t_%s' % vac)[i] = getattr(p.tensor, 'P_t_%s' % vac)
-- 
2.43.0


From 62457980d3a51376b0482a87466cfd1e1a153ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:36 +0000
Subject: [PATCH 17/22] fix: a spectral query that fails changed the calibrated
 spectra

---
 primpy/inflation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index e6537df..594361c 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1450,8 +1450,10 @@ class InflationEquations(Equations, ABC):
             """Derive further approximations without changing those chosen in the calibration."""
             keys = ['P_scalar_approx', 'P_tensor_approx', 'logk2logP_s', 'logk2logP_t']
             calibrated = {key: sol[key] for key in keys if key in sol}
-            derive_approx_power_method(**kwargs)
-            sol.update(calibrated)
+            try:
+                derive_approx_power_method(**kwargs)
+            finally:
+                sol.update(calibrated)
 
         def P_s_approx(k, method='CGS', order=3, **interp_kwargs):
             """Slow-roll approximation for the primordial power spectrum for scalar modes.
-- 
2.43.0


From bc695f497df46a000aef034601a2f5a545aa1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:47 +0000
Subject: [PATCH 18/22] fix: search for N_star failed when a start within the
 bracket could not be calibrated

---
 primpy/initialconditions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 8aef2fd..5e16a89 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -5,6 +5,7 @@ import numpy as np
 from scipy.optimize import root_scalar
 from primpy.exceptionhandling import StepSizeError, PrimpyError, InflationStartError
 from primpy.exceptionhandling import InflationWarning
+from primpy.parameters import K_STAR_lp
 from primpy.time.inflation import InflationEquationsT
 from primpy.efolds.inflation import InflationEquationsN
 from primpy.solver import solve
@@ -285,10 +286,14 @@ class ISIC_NsOk(InflationStartIC):
                 warnings.filterwarnings(action=self.warn_action, category=InflationWarning)
                 sol = solve(ic, events=events, **kwargs)
             if np.isfinite(sol.N_tot) and sol.N_tot > self.N_star:
-                sol.calibrate_scale_factor(Omega_K0=self.Omega_K0, h=self.h)
+                # not every start within the bracket allows for a full calibration, e.g. when the
+                # pivot scale is still within the horizon at the end of inflation
+                N_cross = np.interp(self.N0 + np.log(K_STAR_lp), sol._logaH[sol.inflation_mask],
+                                    sol._N[sol.inflation_mask])
+                N_star = sol._N_end - N_cross
                 self.vprint("N_tot = %.15g, N_star = %.15g for phi_i = %.15g"
-                            % (sol.N_tot, sol.N_star, phi_i))
-                return sol.N_star - self.N_star
+                            % (sol.N_tot, N_star, phi_i))
+                return N_star - self.N_star
             elif np.size(sol._N_events['UntilN']) > 0 or sol._N[-1] >= self.N0:
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N0, phi_i))
                 return sol._N[-1]
-- 
2.43.0


From 4b793104326d073619caf15bf61a787f5cfd51e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:28 +0000
Subject: [PATCH 19/22] fix: search for N_star failed when inflation cannot
 start somewhere within the bracket

---
 primpy/initialconditions.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 5e16a89..6e8d69a 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -272,12 +272,15 @@ class ISIC_NsOk(InflationStartIC):
 
         def phii2Nstar(phi_i, kwargs):
             """Convert input `phi_i` to `N_star`."""
-            ic = InflationStartIC(equations=self.equations,
-                                  phi_i=phi_i,
-                                  t_i=self.t_i,
-                                  eta_i=self.eta_i,
-                                  x_end=self.x_end,
-                                  **self.ic_input_param)
+            try:
+                ic = InflationStartIC(equations=self.equations,
+                                      phi_i=phi_i,
+                                      t_i=self.t_i,
+                                      eta_i=self.eta_i,
+                                      x_end=self.x_end,
+                                      **self.ic_input_param)
+            except InflationStartError:
+                return 0 - self.N_star
             events = [InflationEvent(self.equations, direction=+1, terminal=False),
                       InflationEvent(self.equations, direction=-1, terminal=True),
                       UntilNEvent(self.equations, self.N0),
-- 
2.43.0


From c5a13747af2b26dd5d178812cfb29ee3469e2de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 20/22] fix: brackets for the initial field value were refused
 depending on their order

---
 primpy/initialconditions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 6e8d69a..828448a 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -174,7 +174,7 @@ class ISIC_Nt(InflationStartIC):
     def __init__(self, equations, N_tot, phi_i_bracket, t_i=None, eta_i=None,
                  x_end=1e300, verbose=False, **kwargs):
         super(ISIC_Nt, self).__init__(equations=equations,
-                                      phi_i=phi_i_bracket[-1],
+                                      phi_i=max(phi_i_bracket, key=equations.potential.V),
                                       t_i=t_i,
                                       eta_i=eta_i,
                                       x_end=x_end,
@@ -251,7 +251,7 @@ class ISIC_NsOk(InflationStartIC):
                  x_end=1e300, verbose=False, **kwargs):
         assert Omega_K0 != 0, "Curved universes only, here! Flat universes can set N_star freely."
         super(ISIC_NsOk, self).__init__(equations=equations,
-                                        phi_i=phi_i_bracket[-1],
+                                        phi_i=max(phi_i_bracket, key=equations.potential.V),
                                         t_i=t_i,
                                         eta_i=eta_i,
                                         x_end=x_end,
-- 
2.43.0


From 6acbf8986fe328c5683ceb7efc32a6afddf6435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:00 +0000
Subject: [PATCH 21/22] fix: borrowed calibration failed for solutions without
 start or end of inflation

---
 primpy/inflation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 594361c..afb5716 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -722,6 +722,9 @@ class InflationEquations(Equations, ABC):
                     sol._N_reh = background._N_reh
                     sol._N_end = background._N_end
                     sol.N_star = background.N_star
+                    if not sol.N_tot > 0:  # no start or end of inflation, or integrated backwards
+                        sol.inflation_mask = ((background._N_beg < sol._N)
+                                              & (sol._N < background._N_end))
 
                 sol.a0_Mpc = np.exp(sol._logaH_star) / K_STAR
                 logk = sol._logaH + np.log(K_STAR) - sol._logaH_star
-- 
2.43.0


From 1ea3355a200095cbbabf6219d8cb0caa5431f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:38 +0000
Subject: [PATCH 22/22] fix: ratio of conformal times mixed calibrated and
 uncalibrated scale factors in flat universes

---
 primpy/bigbang.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index 560e3f7..056a5ae 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -286,10 +286,11 @@ def conformal_time_ratio(Omega_m0, Omega_K0, h, b_forward, b_backward=None):
     else:
         eta_beg = b_backward.eta[-1]
     eta_end = b_forward.eta[-1]
-    conformal_time_before = eta_end - eta_beg
+    # eta was integrated with the uncalibrated scale factor (differs in flat universes)
+    conformal_time_before = (eta_end - eta_beg) * np.exp(-b_forward.delta_N_calib)
 
     # after (from the end of inflation until today)
-    conformal_time_after = conformal_time(N_start=b_forward._N_end,
+    conformal_time_after = conformal_time(N_start=b_forward.N_end,
                                           N=np.log(b_forward.a0),
                                           Omega_m0=Omega_m0,
                                           Omega_K0=Omega_K0,
-- 
2.43.0

