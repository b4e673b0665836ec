From c5a5b921112dc8d781ca966651af5f81acdf6516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 01/38] fix: 4th derivative of potentials with a feature

FeaturePotential inherited d4V of the featureless base potential, so it was not
the derivative of its own d3V.
---
 primpy/potentials.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 5d8c4a7..243a138 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1298,6 +1298,11 @@ class FeatureFunction(ABC):
     def d3F(x, x0, a, b):
         """Feature function 3rd derivative."""
 
+    @staticmethod
+    @abstractmethod
+    def d4F(x, x0, a, b):
+        """Feature function 4th derivative."""
+
 
 class GaussianDip(FeatureFunction):
     """Gaussian: `F(x) = -a * exp(-(x-x0)**2 / (2*b**2))`."""
@@ -1322,6 +1327,12 @@ class GaussianDip(FeatureFunction):
         """`F'''(x) = a/b**6 * (x-x0) * ((x-x0)**2 - 3*b**2) * exp(-(x-x0)**2 / (2*b**2))`."""
         return a / b**6 * (x - x0) * ((x - x0)**2 - 3 * b**2) * np.exp(-(x - x0)**2 / (2 * b**2))
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = -a/b**8 * ((x-x0)**4 - 6*b**2*(x-x0)**2 + 3*b**4) * exp(...)`."""
+        return (-a / b**8 * ((x - x0)**4 - 6 * b**2 * (x - x0)**2 + 3 * b**4)
+                * np.exp(-(x - x0)**2 / (2 * b**2)))
+
 
 class TanhStep(FeatureFunction):
     """Tanh step function: `F(x) = a * tanh((x - x0) / b)`."""
@@ -1349,6 +1360,12 @@ class TanhStep(FeatureFunction):
         tanh = np.tanh((x - x0) / b)
         return -2 * a / b**3 * (1 - 4 * tanh**2 + 3 * tanh**4)
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = 8*a/b**4 * tanh((x-x0)/b) * (2 - 5*tanh((x-x0)/b)**2 + 3*tanh(...)**4)`."""
+        tanh = np.tanh((x - x0) / b)
+        return 8 * a / b**4 * tanh * (2 - 5 * tanh**2 + 3 * tanh**4)
+
 
 class FeaturePotential(InflationaryPotential, FeatureFunction):
     """Inflationary potential with a feature: `V(phi) = V0(phi) * (1+F(phi))`."""
@@ -1411,6 +1428,28 @@ class FeaturePotential(InflationaryPotential, FeatureFunction):
         d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
         return d3V0 * (1 + F) + 3 * d2V0 * dF + 3 * dV0 * d2F + V0 * d3F
 
+    def d4V(self, phi):
+        r"""Fourth derivative of the inflationary potential with a feature.
+
+        .. math::
+            V''''(\phi) = V_0''''(\phi) * (1 + F(\phi))
+                         + 4 * V_0'''(\phi) * F'(\phi)
+                         + 6 * V_0''(\phi) * F''(\phi)
+                         + 4 * V_0'(\phi) * F'''(\phi)
+                         + V_0(\phi) * F''''(\phi)
+        """
+        V0 = super().V(phi)
+        dV0 = super().dV(phi)
+        d2V0 = super().d2V(phi)
+        d3V0 = super().d3V(phi)
+        d4V0 = super().d4V(phi)
+        F = super().F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        dF = super().dF(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d2F = super().d2F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d4F = super().d4F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        return d4V0 * (1 + F) + 4 * d3V0 * dF + 6 * d2V0 * d2F + 4 * dV0 * d3F + V0 * d4F
+
 
 class StarobinskyGaussianDipPotential(FeaturePotential, StarobinskyPotential, GaussianDip):
     """Starobinsky potential with a Gaussian dip."""
-- 
2.43.0


From 769c02c477e14b54be09529d88acab45b3afb6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 02/38] fix: potential slow-roll parameters of potentials with
 a feature

FeaturePotential inherited get_epsilon_nV of the featureless base potential
although V and its derivatives include the feature.
---
 primpy/potentials.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 243a138..19c2896 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1450,6 +1450,31 @@ class FeaturePotential(InflationaryPotential, FeatureFunction):
         d4F = super().d4F(phi, self.phi_feature, self.a_feature, self.b_feature)
         return d4V0 * (1 + F) + 4 * d3V0 * dF + 6 * d2V0 * d2F + 4 * dV0 * d3F + V0 * d4F
 
+    def _get_dlnV(self, phi):
+        """First four derivatives of `ln V` with respect to the inflaton `phi`."""
+        V = self.V(phi)
+        d1 = self.dV(phi) / V
+        d2 = self.d2V(phi) / V - d1**2
+        d3 = self.d3V(phi) / V - 3 * d1 * d2 - d1**3
+        d4 = self.d4V(phi) / V - 4 * d1 * d3 - 6 * d1**2 * d2 - 3 * d2**2 - d1**4
+        return d1, d2, d3, d4
+
+    def get_epsilon_1V(self, phi):  # noqa: D102
+        d1, d2, d3, d4 = self._get_dlnV(phi)
+        return d1**2 / 2
+
+    def get_epsilon_2V(self, phi):  # noqa: D102
+        d1, d2, d3, d4 = self._get_dlnV(phi)
+        return -2 * d2
+
+    def get_epsilon_3V(self, phi):  # noqa: D102
+        d1, d2, d3, d4 = self._get_dlnV(phi)
+        return -d1 * d3 / d2
+
+    def get_epsilon_4V(self, phi):  # noqa: D102
+        d1, d2, d3, d4 = self._get_dlnV(phi)
+        return -d2 - d1 * (d4 / d3 - d3 / d2)
+
 
 class StarobinskyGaussianDipPotential(FeaturePotential, StarobinskyPotential, GaussianDip):
     """Starobinsky potential with a Gaussian dip."""
-- 
2.43.0


From c6be0bc0ecdc37b1c4639f896cdc3a497c6f6e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 03/38] fix: docstrings stating a different potential than the
 one implemented

---
 primpy/potentials.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 19c2896..5c7ad88 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -432,7 +432,7 @@ class QuadraticPotential(MonomialPotential):
 
 
 class CubicPotential(MonomialPotential):
-    """Linear potential: `V(phi) = Lambda**4 * phi`."""
+    """Cubic potential: `V(phi) = Lambda**4 * phi**3`."""
 
     tag = 'mn3'
     name = 'CubicPotential'
@@ -460,7 +460,7 @@ class CubicPotential(MonomialPotential):
 
 
 class QuarticPotential(MonomialPotential):
-    """Linear potential: `V(phi) = Lambda**4 * phi`."""
+    """Quartic potential: `V(phi) = Lambda**4 * phi**4`."""
 
     tag = 'mn4'
     name = 'QuarticPotential'
@@ -610,7 +610,7 @@ class StarobinskyPotential(InflationaryPotential):
 
 
 class NaturalPotential(InflationaryPotential):
-    """Natural inflation potential: `V(phi) = Lambda**4 * (1 - cos(pi*phi/phi0))`.
+    """Natural inflation potential: `V(phi) = Lambda**4 / 2 * (1 - cos(pi*phi/phi0))`.
 
     Natural inflation with phi0 = pi * f where f is the standard parameter
     used in definitions of natural inflation.
@@ -958,7 +958,7 @@ class DoubleWell4Potential(DoubleWellPotential):
 
 
 class TmodelPotential(InflationaryPotential):
-    """T-model potential: `V(phi) = Lambda**4 * (tanh(phi / (sqrt(6) * alpha)))**(2*p)`."""
+    """T-model potential: `V(phi) = Lambda**4 * (tanh(phi / sqrt(6 * alpha)))**(2*p)`."""
 
     tag = 'tap'
     name = 'TmodelPotential'
-- 
2.43.0


From 31a5a8bd5b1a6e9b94cf797f9ce1be424b9826f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 04/38] fix: curvature term in 3rd time derivative of the
 inflaton

---
 primpy/time/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/time/inflation.py b/primpy/time/inflation.py
index 5b6d8a9..1df001b 100644
--- a/primpy/time/inflation.py
+++ b/primpy/time/inflation.py
@@ -77,7 +77,7 @@ class InflationEquationsT(InflationEquations):
     @staticmethod
     def get_d3phi(H, dH, d2H, dphi, d2phi, dV, d2V):  # noqa: D102
         # here: d3phi/dt3
-        return -3 * H * d2phi - d2V * dphi + 3 * dphi**3 / 2
+        return -3 * H * d2phi - d2V * dphi - 3 * dH * dphi
 
     @staticmethod
     def get_d4phi(H, dH, d2H, d3H, dphi, d2phi, d3phi, dV, d2V, d3V):  # noqa: D102
-- 
2.43.0


From fd3f2fdfa6237ae904980d9cecb2ad2ec861731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 05/38] fix: start of inflation from terminal events and its
 warning message

---
 primpy/exceptionhandling.py |  2 +-
 primpy/inflation.py         | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/primpy/exceptionhandling.py b/primpy/exceptionhandling.py
index 97615b4..7bbaf52 100644
--- a/primpy/exceptionhandling.py
+++ b/primpy/exceptionhandling.py
@@ -121,7 +121,7 @@ class InflationStartWarning(InflationWarning):
         events = kwargs.pop('events', None)
         if events is None:
             self.message = "%s. %s" % (self.header, message)
-        elif 'Inflation_dir+1_term1' not in events and 'Inflation_dir+1_term0' not in events:
+        elif 'Inflation_dir1_term1' not in events and 'Inflation_dir1_term0' not in events:
             extra_info = ("Not tracking `InflationEvent`. Events tracked are %s. In order to "
                           "determine the start of inflation `_N_beg`, make sure to track the "
                           "event `InflationEvent(equations, direction=+1)` defined in "
diff --git a/primpy/inflation.py b/primpy/inflation.py
index a206ed5..58eb3c5 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -416,13 +416,14 @@ class InflationEquations(Equations, ABC):
             sol._N_beg = sol._N[0]
             sol.H_beg = self.H(sol.x[0], sol.y[:, 0])
         # Case 2: there is a transition from non-inflating to inflating
-        elif ('Inflation_dir1_term0' in sol._N_events and
-              np.size(sol._N_events['Inflation_dir1_term0']) > 0):
-            sol._N_beg = sol._N_events['Inflation_dir1_term0'][0]
-            sol.H_beg = self.H(sol.x_events['Inflation_dir1_term0'][0],
-                               sol.y_events['Inflation_dir1_term0'][0])
         else:
-            self.vwarn(InflationStartWarning("", events=sol._N_events))
+            for key in ['Inflation_dir1_term1', 'Inflation_dir1_term0']:
+                if key in sol._N_events and np.size(sol._N_events[key]) > 0:
+                    sol._N_beg = sol._N_events[key][0]
+                    sol.H_beg = self.H(sol.x_events[key][0], sol.y_events[key][0])
+                    break
+            else:
+                self.vwarn(InflationStartWarning("", events=sol._N_events))
         sol._logaH_beg = sol._N_beg + np.log(sol.H_beg)
 
     def postprocessing_inflation_end(self, sol):
-- 
2.43.0


From 2ce0cb93bdbfeb0e722ae6472c38c957fac2fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 06/38] fix: reject impossible Omega_Ki and H=0 at the start
 instead of producing NaN

---
 primpy/initialconditions.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 8aef2fd..519852b 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -45,9 +45,9 @@ class SlowRollIC(InitialConditions):
             self.N_i = kwargs.pop('N_i')
             self.ic_input_param = {'N_i': self.N_i}
             self.aH2_i = self.V_i / 3 * np.exp(2 * self.N_i) - equations.K
-            if self.aH2_i < 0:
+            if self.aH2_i <= 0:
                 raise InflationStartError(
-                    "V_i / 3 * exp(2 N_i) - 1 = %s < 0 but needs to be > 0. Increase either N_i "
+                    "V_i / 3 * exp(2 N_i) - 1 = %s <= 0 but needs to be > 0. Increase either N_i "
                     "or phi_i." % self.aH2_i, geometry="closed")
             self.aH_i = np.sqrt(self.V_i / 3 * np.exp(2 * self.N_i) - equations.K)
             self.Omega_Ki = -equations.K / self.aH2_i
@@ -58,6 +58,10 @@ class SlowRollIC(InitialConditions):
                 raise InflationStartError(
                     "Primordial curvature for open universes has to be Omega_Ki < 1, "
                     "but Omega_Ki = %g was requested." % self.Omega_Ki, geometry="open")
+            if self.Omega_Ki * equations.K >= 0:
+                raise InflationStartError(
+                    "Omega_Ki needs to be nonzero and of opposite sign to K, "
+                    "but Omega_Ki = %g and K = %g were requested." % (self.Omega_Ki, equations.K))
             self.N_i = np.log(3 * equations.K / self.V_i * (1 - 1 / self.Omega_Ki)) / 2
             self.aH2_i = -equations.K / self.Omega_Ki
             self.aH_i = np.sqrt(self.aH2_i)
@@ -117,9 +121,9 @@ class InflationStartIC(InitialConditions):
                                              "The other will be inferred."
             self.N_i = kwargs.pop('N_i')
             self.ic_input_param = {'N_i': self.N_i}
-            if self.V_i / 2 * np.exp(2 * self.N_i) - equations.K < 0:
+            if self.V_i / 2 * np.exp(2 * self.N_i) - equations.K <= 0:
                 raise InflationStartError(
-                    "V_i / 2 * exp(2 N_i) - 1 = %s < 0 but needs to be > 0. Increase either N_i "
+                    "V_i / 2 * exp(2 N_i) - 1 = %s <= 0 but needs to be > 0. Increase either N_i "
                     "or phi_i." % (self.V_i / 2 * np.exp(2 * self.N_i) - 1), geometry="closed")
             self.aH_i = np.sqrt(self.V_i / 2 * np.exp(2 * self.N_i) - equations.K)
             self.Omega_Ki = -equations.K / self.aH_i**2
@@ -132,6 +136,10 @@ class InflationStartIC(InitialConditions):
                 raise InflationStartError(
                     "Primordial curvature for open universes has to be Omega_Ki < 1, "
                     "but Omega_Ki = %g was requested." % self.Omega_Ki, geometry="open")
+            if self.Omega_Ki * equations.K >= 0:
+                raise InflationStartError(
+                    "Omega_Ki needs to be nonzero and of opposite sign to K, "
+                    "but Omega_Ki = %g and K = %g were requested." % (self.Omega_Ki, equations.K))
             self.N_i = np.log(2 * equations.K / self.V_i * (1 - 1 / self.Omega_Ki)) / 2
             self.aH_i = np.sqrt(-equations.K / self.Omega_Ki)
         else:
-- 
2.43.0


From 799c301c6b7bcd154fcf6940feb5fe08f24bd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 07/38] fix: shooting initial conditions that miss their target
 raise an error

---
 primpy/initialconditions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 519852b..04d46da 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -236,6 +236,9 @@ class ISIC_Nt(InflationStartIC):
             output = root_scalar(phii2Ntot, args=(ivp_kwargs,), bracket=self.phi_i_bracket)
         self.vprint(output)
         phi_i_new = output.root
+        if not abs(phii2Ntot(phi_i_new, ivp_kwargs)) <= 1e-3 * self.N_tot:
+            raise PrimpyError("Root finding for phi_i converged to phi_i=%.15g, but this does not "
+                              "give the requested N_tot=%g." % (phi_i_new, self.N_tot))
         super(ISIC_Nt, self).__init__(equations=self.equations,
                                       phi_i=phi_i_new,
                                       t_i=self.t_i,
@@ -323,6 +326,9 @@ class ISIC_NsOk(InflationStartIC):
             output = root_scalar(phii2Nstar, args=(ivp_kwargs,), bracket=self.phi_i_bracket)
         self.vprint(output)
         phi_i_new = output.root
+        if not abs(phii2Nstar(phi_i_new, ivp_kwargs)) <= 1e-3 * self.N_star:
+            raise PrimpyError("Root finding for phi_i converged to phi_i=%.15g, but this does not "
+                              "give the requested N_star=%g." % (phi_i_new, self.N_star))
         super(ISIC_NsOk, self).__init__(equations=self.equations,
                                         phi_i=phi_i_new,
                                         t_i=self.t_i,
-- 
2.43.0


From 7354fea04ca2b656a5919b42004287d0310fcd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 08/38] fix: shooting reports the integrator's failure instead
 of failing on an empty event array

---
 primpy/initialconditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 04d46da..145aca8 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -220,7 +220,7 @@ class ISIC_Nt(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N_tot, phi_i))
                 return sol._N[-1] - ic.N_i
             elif (np.size(sol._N_events['Collapse']) > 0 or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 return 0 - self.N_tot
             elif 'step size' in sol.message:
@@ -304,12 +304,12 @@ class ISIC_NsOk(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N0, phi_i))
                 return sol._N[-1]
             elif (np.size(sol._N_events['Collapse']) > 0 or sol.N_tot <= self.N_star or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 if sol.N_tot <= self.N_star:
                     self.vwarn(InflationWarning("Insufficient inflation: N_tot = %g < %g = N_star"
                                                 % (sol.N_tot, self.N_star)))
-                elif sol._N_events['Inflation_dir-1_term1'] == sol._N[0]:
+                elif np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
                     self.vwarn(InflationWarning("Universe has ended early: _N[0]=%g, _N_events=%s"
                                                 % (sol._N[0], sol._N_events)))
                 return 0 - self.N_star
-- 
2.43.0


From 6afb4324b316a6f98f16409b88948b1551c6b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 09/38] fix: duration of reheating from w_reh and rho_reh_GeV
 for curved universes

---
 primpy/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 58eb3c5..9e7e7eb 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -806,7 +806,7 @@ class InflationEquations(Equations, ABC):
                         sol.w_reh = w_reh
                         sol.rho_reh_GeV = rho_reh_GeV
                         sol.rho_reh_mp4 = rho_reh_GeV**4 / mp_GeV * lp_iGeV**3
-                        sol.DeltaN_reh = -(1+w_reh) / 3 * np.log(2/3 * sol.rho_reh_mp4 / sol.V_end)
+                        sol.DeltaN_reh = np.log(3/2*sol.V_end/sol.rho_reh_mp4) / (3*(1+w_reh))
                         sol.DeltaN_minus1 = sol.DeltaN_reh / 4 * (1 - 3 * w_reh)
                         sol.N0 += sol.DeltaN_minus1
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
-- 
2.43.0


From d9c1825f6ca5f9a4e923e4ca682f1539ad2d78f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 10/38] fix: unknown rho_reh_mp4 is NaN for curved universes
 calibrated with Omega_K0

---
 primpy/inflation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 9e7e7eb..d9adcb0 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -752,6 +752,7 @@ class InflationEquations(Equations, ABC):
                     sol.N0 = np.log(sol.a0)
                     if rho_reh_GeV is None:
                         sol.rho_reh_GeV = np.nan
+                        sol.rho_reh_mp4 = np.nan
                         sol._N_reh = np.nan
                         sol.w_reh = np.nan
                         sol.DeltaN_reh = np.nan
-- 
2.43.0


From f3d0da34357f45598b9f3d30210aaaecd67a7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 11/38] fix: DeltaN_minus1 silently ignored for curved
 universes calibrated with reheating

---
 primpy/inflation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index d9adcb0..4137062 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -793,6 +793,9 @@ class InflationEquations(Equations, ABC):
                         sol.rho_reh_mp4 = 3/2 * sol.V_end
                         sol.rho_reh_GeV = (sol.rho_reh_mp4 * mp_GeV / lp_iGeV**3)**(1/4)
                         sol._N_reh = sol._N_end
+                    elif DeltaN_minus1 is not None:
+                        raise ValueError(f"For curved universes `DeltaN_minus1` should be a derived "
+                                         f"parameter, but got DeltaN_minus1={DeltaN_minus1}.")
                     elif w_reh is not None and DeltaN_reh is not None and rho_reh_GeV is None:
                         # reheating from w_reh and DeltaN_reh
                         sol.w_reh = w_reh
-- 
2.43.0


From 580b1f47c9232594635b5783dd926c8ea9379793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 12/38] fix: approximate spectra left over from a previous
 calibration and queries changing derived parameters

---
 primpy/inflation.py | 96 +++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 52 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 4137062..d23e948 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -868,6 +868,10 @@ class InflationEquations(Equations, ABC):
             sol.cHH_Mpc = sol.a0 / (np.exp(sol.N) * sol.H) * lp_m / Mpc_m
             sol.cHH_end_Mpc = sol.a0 / (np.exp(sol.N_end) * sol.H_end) * lp_m / Mpc_m
 
+            # discard approximate power spectra derived with any previous calibration
+            for name in [name for name in sol if name.startswith(('P_s_approx_', 'P_t_approx_'))]:
+                del sol[name]
+
             # derive approximate primordial power spectra
             if background is None:  # only derive if not copied from background
                 derive_approx_power(**kwargs)
@@ -1436,6 +1440,30 @@ class InflationEquations(Equations, ABC):
 
         sol.derive_approx_power = derive_approx_power
 
+        def get_approx_power(name, method, order, **interp_kwargs):
+            """Get an approximate power spectrum without touching the currently derived one."""
+            if name not in sol or interp_kwargs:
+                previous = dict(sol)
+                try:
+                    if method == 'CGS':
+                        derive_approx_power_CGS(order=order, **interp_kwargs)
+                    elif method == 'LLMS':
+                        derive_approx_power_LLMS(**interp_kwargs)
+                    elif method == 'STE':
+                        derive_approx_power_STE(**interp_kwargs)
+                    elif method == 'ARBDS':
+                        derive_approx_power_ARBDS(order=order, **interp_kwargs)
+                    derived = dict(sol)
+                finally:
+                    sol.clear()
+                    sol.update(previous)
+                if interp_kwargs:
+                    return derived[name]
+                # remember all orders for the next time
+                sol.update({key: derived[key] for key in derived if key not in previous
+                            and key.startswith(('P_s_approx_', 'P_t_approx_'))})
+            return sol[name]
+
         def P_s_approx(k, method='CGS', order=3, **interp_kwargs):
             """Slow-roll approximation for the primordial power spectrum for scalar modes.
 
@@ -1461,32 +1489,13 @@ class InflationEquations(Equations, ABC):
                 Primordial power spectrum of scalar modes.
 
             """
-            if method == 'CGS':
-                if order == 3:
-                    return sol.P_s_approx_CGS3(k)
-                elif order == 0:
-                    return sol.P_s_approx_CGS0(k)
-                elif order == 1:
-                    return sol.P_s_approx_CGS1(k)
-                elif order == 2:
-                    return sol.P_s_approx_CGS2(k)
-            elif method == 'LLMS':
-                if not hasattr(sol, "P_s_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
-                return sol.P_s_approx_LLMS(k)
-            elif method == 'STE':
-                if not hasattr(sol, "P_s_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
-                return sol.P_s_approx_STE(k)
-            elif method == 'ARBDS':
-                if not hasattr(sol, "P_s_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
-                if order == 3:
-                    return sol.P_s_approx_ARBDS3(k)
-                elif order == 1:
-                    return sol.P_s_approx_ARBDS1(k)
-                elif order == 2:
-                    return sol.P_s_approx_ARBDS2(k)
+            if (method == 'CGS' and order in [0, 1, 2, 3] or
+                    method == 'ARBDS' and order in [1, 2, 3]):
+                name = f"P_s_approx_{method}{order}"
+                return get_approx_power(name, method, order, **interp_kwargs)(k)
+            elif method in ['LLMS', 'STE']:
+                name = f"P_s_approx_{method}"
+                return get_approx_power(name, method, order, **interp_kwargs)(k)
 
             return np.exp(sol.logk2logP_s(np.log(k)))
 
@@ -1515,32 +1524,15 @@ class InflationEquations(Equations, ABC):
                 Primordial power spectrum of tensor modes.
 
             """
-            if method == 'CGS':
-                if order is None or order == 3:
-                    return sol.P_t_approx_CGS3(k)
-                elif order == 0:
-                    return sol.P_t_approx_CGS0(k)
-                elif order == 1:
-                    return sol.P_t_approx_CGS1(k)
-                elif order == 2:
-                    return sol.P_t_approx_CGS2(k)
-            elif method == 'LLMS':
-                if not hasattr(sol, "P_t_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
-                return sol.P_t_approx_LLMS(k)
-            elif method == 'STE':
-                if not hasattr(sol, "P_t_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
-                return sol.P_t_approx_STE(k)
-            elif method == 'ARBDS':
-                if not hasattr(sol, "P_t_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
-                if order == 3:
-                    return sol.P_t_approx_ARBDS3(k)
-                elif order == 1:
-                    return sol.P_t_approx_ARBDS1(k)
-                elif order == 2:
-                    return sol.P_t_approx_ARBDS2(k)
+            if method == 'CGS' and order is None:
+                order = 3
+            if (method == 'CGS' and order in [0, 1, 2, 3] or
+                    method == 'ARBDS' and order in [1, 2, 3]):
+                name = f"P_t_approx_{method}{order}"
+                return get_approx_power(name, method, order, **interp_kwargs)(k)
+            elif method in ['LLMS', 'STE']:
+                name = f"P_t_approx_{method}"
+                return get_approx_power(name, method, order, **interp_kwargs)(k)
 
             return np.exp(sol.logk2logP_t(np.log(k)))
 
-- 
2.43.0


From c70bf01114ba96dafc7a72914e84c83f2301a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 13/38] fix: overlong source line

---
 primpy/inflation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index d23e948..7e10873 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -794,8 +794,9 @@ class InflationEquations(Equations, ABC):
                         sol.rho_reh_GeV = (sol.rho_reh_mp4 * mp_GeV / lp_iGeV**3)**(1/4)
                         sol._N_reh = sol._N_end
                     elif DeltaN_minus1 is not None:
-                        raise ValueError(f"For curved universes `DeltaN_minus1` should be a derived "
-                                         f"parameter, but got DeltaN_minus1={DeltaN_minus1}.")
+                        raise ValueError(f"For curved universes `DeltaN_minus1` should be a "
+                                         f"derived parameter, but got "
+                                         f"DeltaN_minus1={DeltaN_minus1}.")
                     elif w_reh is not None and DeltaN_reh is not None and rho_reh_GeV is None:
                         # reheating from w_reh and DeltaN_reh
                         sol.w_reh = w_reh
-- 
2.43.0


From 66374978c532032de20ec23ccf483f77a6903c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 14/38] fix: H_star left over from a previous calibration

---
 primpy/inflation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 7e10873..83eacfc 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -700,6 +700,7 @@ class InflationEquations(Equations, ABC):
                         else:
                             sol._N_cross = logaH2N(sol._logaH_star)
 
+                        sol.H_star = np.exp(sol._logaH_star - sol._N_cross)
                         sol.N_star = sol._N_end - sol._N_cross
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
 
@@ -719,6 +720,7 @@ class InflationEquations(Equations, ABC):
                     sol.delta_N_calib = background.delta_N_calib
                     sol._logaH_star = background._logaH_star
                     sol._N_cross = background._N_cross
+                    sol.H_star = np.exp(sol._logaH_star - sol._N_cross)
                     sol._N_reh = background._N_reh
                     sol._N_end = background._N_end
                     sol.N_star = background.N_star
-- 
2.43.0


From a29c48fd9cbe68c97f4e49e95444998622704e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 15/38] fix: calibration copied from a background keeps the
 previous calibration's parameters

---
 primpy/inflation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 83eacfc..da513c6 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -724,6 +724,17 @@ class InflationEquations(Equations, ABC):
                     sol._N_reh = background._N_reh
                     sol._N_end = background._N_end
                     sol.N_star = background.N_star
+                    for name in ['DeltaN_minus1', 'DeltaN_reh', 'w_reh',
+                                 'rho_reh_GeV', 'rho_reh_mp4',
+                                 'A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r',
+                                 'logk2logP_s', 'logk2logP_t']:
+                        if name in background:
+                            sol[name] = background[name]
+                        else:
+                            sol.pop(name, None)
+                    if background is not sol:  # these correspond to the previous calibration
+                        sol.pop('P_scalar_approx', None)
+                        sol.pop('P_tensor_approx', None)
 
                 sol.a0_Mpc = np.exp(sol._logaH_star) / K_STAR
                 logk = sol._logaH + np.log(K_STAR) - sol._logaH_star
-- 
2.43.0


From 6594fa323bcca330ff86cffb39262ac0099ade75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 16/38] fix: end of inflation and inflation mask accumulate
 over repeated calibrations

---
 primpy/inflation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index da513c6..9306943 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -460,6 +460,8 @@ class InflationEquations(Equations, ABC):
         sol.N_tot = sol._N_end - sol._N_beg
         if np.isfinite(sol._N_beg) and np.isfinite(sol._N_end):
             sol.inflation_mask = (sol._N_beg < sol._N) & (sol._N < sol._N_end)
+        _N_end = sol._N_end
+        inflation_mask = sol.get('inflation_mask')
 
         def calibrate_scale_factor(
                 calibration_method='N_star' if self.K == 0 else 'Omega_K0',
@@ -534,6 +536,12 @@ class InflationEquations(Equations, ABC):
             The remaining keyword arguments are passed to `derive_approx_power`.
 
             """
+            # start from the solution itself rather than from any previous calibration
+            if background is None:
+                sol._N_end = _N_end
+            if inflation_mask is not None:
+                sol.inflation_mask = inflation_mask
+
             if self.K == 0:  # flat universe
                 if Omega_K0 is not None and Omega_K0 != 0.0:
                     raise ValueError(f"For flat universes Omega_K0 must be 0, but got "
-- 
2.43.0


From 9ce901512e7380576758b16d7538ca689c0b986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 17/38] fix: third order of the CGS spectra needs alpha_star up
 to second order

---
 primpy/inflation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 9306943..833a67f 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -972,7 +972,10 @@ class InflationEquations(Equations, ABC):
             # Choe, Gong & Stewart (2004), eq. (60)
             Ps0 = H**2 / (8 * pi**2 * e1)
             alpha = 2 - np.log(2) - np.euler_gamma
-            astar = alpha - e1  # from Choe, Gong & Stewart (2004) just after eq. (60)
+            # from Choe, Gong & Stewart (2004) just after eq. (60), `alpha-ln(x)` with `x=-k*eta` at
+            # horizon crossing, which for a consistent 3rd order is needed up to 2nd order
+            e2 = self.get_epsilon_2H(H=H, dH=dH, d2H=d2H)
+            astar = alpha - e1 - e1**2 / 2 - e1 * e2
             order1_s = (1 + (4 * astar - 2) * e1 + 2 * astar * d1 + (-astar**2 + pi**2 / 12) * d2
                         + (1 / 3 * astar**3 - pi**2 / 12 * astar + 4 / 3 - 2 / 3 * zeta(3)) * d3)
             # (slight differences between SG and CGS in 2nd order numeric coefficients)
-- 
2.43.0


From bdf697ef6ee8cdcc3fd89a90054e4f752c40247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 18/38] fix: ARBDS spectra expand around k*eta=-1 but are
 evaluated at k=aH

---
 primpy/inflation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 833a67f..9a0c8a0 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1385,8 +1385,11 @@ class InflationEquations(Equations, ABC):
             )
             at3_3 = 1/6 * (-8 * e1**3 + 12 * e1**2 * e2 - 2 * e1 * e2**2 - 2 * e1 * e2 * e3)
 
+            # Auclair & Ringeval (2022) expand around the pivot `k*eta=-1`, but here everything is
+            # evaluated at `k=aH`, where `-k*eta=1+e1+e1**2+e1*e2` (up to second order)
+            log_k_kstar = sol.logk - np.log(K_STAR) + e1 + e1**2 / 2 + e1 * e2
+
             # order 1
-            log_k_kstar = sol.logk - np.log(K_STAR)
             P_s = Ps0 * (as0_1 + as1_1 * log_k_kstar)
             P_t = Pt0 * (at0_1 + at1_1 * log_k_kstar)
             mask = (P_s > 0) & (P_t > 0)
-- 
2.43.0


From 6836e4a5b9da27454f03e31be26637defa7d266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 19/38] fix: zeta(3) coefficients in the third order of the
 ARBDS spectra

---
 primpy/inflation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 9a0c8a0..e317bca 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1302,6 +1302,7 @@ class InflationEquations(Equations, ABC):
             e3 = N2e3(sol._N_cross)
             alpha = 2 - np.log(2) - np.euler_gamma
             Z = zeta(3) / 3 * 7  # factor 7 matches Auclair & Ringeval (2022) and matches LLMS
+            Z0 = zeta(3) / 3  # no factor 7 for derivatives of e2, cf. Choe, Gong & Stewart (2004)
 
             # Auclair & Ringeval (2022), eq. (54)
             # Ballardini, Davoli, and Sirletti (2025), eq. (45) or eq. (C.2)
@@ -1322,10 +1323,11 @@ class InflationEquations(Equations, ABC):
             as0_3 = (
                 - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) / 24 * (8 * e1**3 + e2**3)
                 + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 36*Z) / 12 * e1**2 * e2
-                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+84*Z) / 24 * e1*e2**2
-                + (16 + 4*alpha**3 - alpha*pi**2 - 24*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
+                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2
+                   +36*Z+48*Z0) / 24 * e1*e2**2
+                + (16 + 4*alpha**3 - alpha*pi**2 - 24*Z0) / 24 * (e2*e3**2 + e2 * e3 * e4)
                 + (48*alpha - 12*alpha**3 - 5*alpha*pi**2) / 24 * e2**2 * e3
-                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-24*Z) / 12 * e1 * e2 * e3
+                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-24*Z0) / 12 * e1 * e2 * e3
             )
             as1_1 = (
                 -2 * e1 - e2
@@ -1368,7 +1370,7 @@ class InflationEquations(Equations, ABC):
                 - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
                 + 1/12 * (-96+72*alpha+36*alpha**2-24*alpha**3+13*pi**2-10*alpha*pi**2) * e1**2*e2
                 - 1/12 * (8 - 24 * alpha + 12 * alpha**2 - 4 * alpha**3 - pi**2
-                          + alpha * pi**2 + 24 * Z) * (e1 * e2**2 + e1 * e2 * e3)
+                          + alpha * pi**2 + 24 * Z0) * (e1 * e2**2 + e1 * e2 * e3)
             )
             at1_1 = -2 * e1
             at1_2 = 2 * (-2 * alpha + 1) * e1**2 + (-2 + 2 * alpha) * e1 * e2
-- 
2.43.0


From ff82e138bd439ddd683f03322c18d515efa5826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:11 +0000
Subject: [PATCH 20/38] fix: dense output over a Mode's default range indexed
 past the end of the background

---
 primpy/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/perturbations.py b/primpy/perturbations.py
index 827fccf..daf37e3 100644
--- a/primpy/perturbations.py
+++ b/primpy/perturbations.py
@@ -86,7 +86,7 @@ class Mode(Equations, ABC):
     def __init__(self, background, k, **kwargs):
         super(Mode, self).__init__()
         self.idx_beg = kwargs.get('idx_beg', 0)
-        self.idx_end = kwargs.get('idx_end', background.x.size)
+        self.idx_end = kwargs.get('idx_end', background.x.size - 1)
         self.background = background
         self.k = k
         f, d = self.mukhanov_sasaki_frequency_damping()
-- 
2.43.0


From d948d5626e18d44d3e863f48d8e00ec0ebfd8c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 21/38] fix: solve_oscode failed for numpy integer scalars and
 sequences and overflowed for large integer k

---
 primpy/oscode_solver.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index f997563..3b59e6f 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -81,11 +81,8 @@ def solve_oscode(background, k,
     b = background
     vacuum = ('RST', ) if vacuum is None else vacuum
     y0 = kwargs.pop('y0', b.potential.perturbation_ic)
-    if isinstance(k, int) or isinstance(k, float):
-        k = np.atleast_1d(k)
-        return_pps = False
-    else:
-        return_pps = True
+    return_pps = np.ndim(k) > 0
+    k = np.atleast_1d(np.asarray(k, dtype=float))
     PPS = PrimordialPowerSpectrum(background=b, k=k, vacuum=vacuum)
     # stop integration sufficiently after mode has crossed the horizon (lazy for loop):
     for i, ki in enumerate(k):
-- 
2.43.0


From 9dd639e5012d3d47ed568f82defa2cc581d44953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 22/38] fix: drop_closed_large_scales applied to the RST vacuum
 only

---
 primpy/oscode_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index 3b59e6f..6bbe5ad 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -122,7 +122,8 @@ def solve_oscode(background, k,
                 ))
         p.oscode_postprocessing(oscode_sol=oscode_sol, vacuum=vacuum)
         if ki < 1 and b.K == +1 and drop_closed_large_scales:
-            p.scalar.P_s_RST = 1e-30
+            for vac in vacuum:
+                setattr(p.scalar, 'P_s_%s' % vac, 1e-30)
         for vac in vacuum:
             getattr(PPS, 'P_s_%s' % vac)[i] = getattr(p.scalar, 'P_s_%s' % vac)
             getattr(PPS, 'P_t_%s' % vac)[i] = getattr(p.tensor, 'P_t_%s' % vac)
-- 
2.43.0


From 682980a760d2777597449ac5fe243aa02dbf78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 23/38] fix: dense-output time grid could round past the end of
 the integration range

---
 primpy/time/perturbations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/primpy/time/perturbations.py b/primpy/time/perturbations.py
index 94e334c..d6cb0e1 100644
--- a/primpy/time/perturbations.py
+++ b/primpy/time/perturbations.py
@@ -31,9 +31,9 @@ class ScalarModeT(ScalarMode):
         super(ScalarModeT, self).__init__(background=background, k=k, **kwargs)
         self._set_independent_variable('t')
         if 'num_eval' in kwargs and kwargs['num_eval'] > 0:
-            self.t_eval = np.logspace(np.log10(self.background.t[self.idx_beg]),
-                                      np.log10(self.background.t[self.idx_end]),
-                                      kwargs['num_eval'])
+            self.t_eval = np.geomspace(self.background.t[self.idx_beg],
+                                       self.background.t[self.idx_end],
+                                       kwargs['num_eval'])
             self.x_eval = self.t_eval
         else:
             self.x_eval = None
@@ -129,9 +129,9 @@ class TensorModeT(TensorMode):
         super(TensorModeT, self).__init__(background=background, k=k, **kwargs)
         self._set_independent_variable('t')
         if 'num_eval' in kwargs and kwargs['num_eval'] > 0:
-            self.t_eval = np.logspace(np.log10(self.background.t[self.idx_beg]),
-                                      np.log10(self.background.t[self.idx_end]),
-                                      kwargs['num_eval'])
+            self.t_eval = np.geomspace(self.background.t[self.idx_beg],
+                                       self.background.t[self.idx_end],
+                                       kwargs['num_eval'])
             self.x_eval = self.t_eval
         else:
             self.x_eval = None
-- 
2.43.0


From f28b494c74ccb636acc6a273c36137c5f91fa24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 24/38] fix: solve_oscode stopped too early for modes entering
 the horizon during kinetic domination

---
 primpy/oscode_solver.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index 6bbe5ad..5378587 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -92,13 +92,12 @@ def solve_oscode(background, k,
             idx_beg = np.argwhere(np.log(ki) - b._logaH > np.log(fac_beg)).ravel()
             # set idx_beg to 0 if horizon starts out too small:
             idx_beg = 0 if idx_beg.size == 0 else idx_beg[-1]
-        idx_end = np.argwhere(b._logaH - np.log(ki) > np.log(fac_end)).ravel()[0]
-        if b._N[idx_end] - b._N[idx_beg] < 10:
-            # For KD, for very large modes it can happen that they never go sub-horizon, and
-            # therefore `idx_end` will be set equal (or close to equal) to `idx_beg`. These modes
-            # nonetheless need to be evolved a bit past inflationstart before they properly freeze
-            # in. Hence, we additionally require that from `beg` to `end` at least 10 e-folds pass:
-            idx_end = np.argwhere(b._N - b._N[idx_beg] > 10).ravel()[0]
+        # For KD, modes can start out outside the horizon and only enter it later, and very large
+        # modes may never go sub-horizon at all. These modes nonetheless need to be evolved a bit
+        # past inflationstart before they properly freeze in. Hence, we additionally require that
+        # from `beg` to `end` at least 10 e-folds pass:
+        idx_end = np.argwhere((b._logaH - np.log(ki) > np.log(fac_end))
+                              & (b._N - b._N[idx_beg] > 10)).ravel()[0]
         if b.independent_variable == 't':
             p = PerturbationT(background=b, k=ki, vacuum=vacuum,
                               idx_beg=idx_beg, idx_end=idx_end, num_eval=num_eval)
-- 
2.43.0


From b5240a405892b2bfe791994218fa268e212bfadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 25/38] fix: conformal_time returned wrong values for
 multi-dimensional arrays

---
 primpy/bigbang.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index 560e3f7..41b699e 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -242,7 +242,8 @@ def conformal_time(N_start, N, Omega_m0, Omega_K0, h):
     """
     if isinstance(N, np.ndarray):
         return np.array([conformal_time(N_start=N_start, N=n, Omega_m0=Omega_m0,
-                                        Omega_K0=Omega_K0, h=h)[0] for n in N])
+                                        Omega_K0=Omega_K0, h=h)[0]
+                         for n in N.ravel()]).reshape(N.shape)
     elif isinstance(N, float) or isinstance(N, int):
         def integrand(n):
             return np.exp(-n) / Hubble_parameter(N=n, Omega_m0=Omega_m0, h=h, Omega_K0=Omega_K0)
-- 
2.43.0


From ad49d7b67e2ee2927fe7d24f774bd17c38dcf31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 26/38] fix: conformal_time_ratio mixed uncalibrated and
 calibrated scale factors for flat universes

---
 primpy/bigbang.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index 41b699e..934a394 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -288,9 +288,11 @@ def conformal_time_ratio(Omega_m0, Omega_K0, h, b_forward, b_backward=None):
         eta_beg = b_backward.eta[-1]
     eta_end = b_forward.eta[-1]
     conformal_time_before = eta_end - eta_beg
+    # conformal time scales as 1/a, so account for a calibration of the scale factor (flat case)
+    conformal_time_before *= np.exp(b_forward._N_end - b_forward.N_end)
 
     # after (from the end of inflation until today)
-    conformal_time_after = conformal_time(N_start=b_forward._N_end,
+    conformal_time_after = conformal_time(N_start=b_forward.N_end,
                                           N=np.log(b_forward.a0),
                                           Omega_m0=Omega_m0,
                                           Omega_K0=Omega_K0,
-- 
2.43.0


From 75738c56350127179690e4a971a2cdcaafc6f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 27/38] fix: feature theories failed with a TypeError for n_t
 without n_t_run

---
 cobaya_wrapper/feature_pps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 341d3ae..98d73d8 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -33,7 +33,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
         w_log = params_values_dict.get('w_log', None)
@@ -86,7 +86,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
         w_lin = params_values_dict.get('w_lin', None)
@@ -139,7 +139,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         k_cut = params_values_dict.get('k_cut', 1e-3)
         s_cut = params_values_dict.get('s_cut', 2)
-- 
2.43.0


From 89f792e8aeed565e544d82e2be477bfc216397fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 28/38] fix: oscillation theories failed with a TypeError when
 the feature parameters were omitted

---
 cobaya_wrapper/feature_pps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 98d73d8..b7ebe0a 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -36,8 +36,8 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
-        w_log = params_values_dict.get('w_log', None)
-        p_log = params_values_dict.get('p_log', None)
+        w_log = params_values_dict.get('w_log', 0)
+        p_log = params_values_dict.get('p_log', 0)
 
         if n_t is None:
             # set from inflationary consistency
@@ -89,8 +89,8 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
-        w_lin = params_values_dict.get('w_lin', None)
-        p_lin = params_values_dict.get('p_lin', None)
+        w_lin = params_values_dict.get('w_lin', 0)
+        p_lin = params_values_dict.get('p_lin', 0)
 
         if n_t is None:
             # set from inflationary consistency
-- 
2.43.0


From 5f7761695caa41f10816dba97fad81cdd3a1421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 29/38] fix: power-law theories rejected r=A_t/A_s when the
 division did not round to exactly r

---
 cobaya_wrapper/feature_pps.py  | 6 +++---
 cobaya_wrapper/powerlaw_pps.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index b7ebe0a..8ea86f1 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -46,7 +46,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
             n_t = - r / 8.0 * (2.0 - n_s - r / 8.0)
             n_t_run = r / 8.0 * (r / 8.0 + n_s - 1)
         if A_t > 0:
-            if r != A_t / A_s:
+            if not np.isclose(r, A_t / A_s, rtol=1e-6, atol=0):
                 raise Exception("mismatch between `r` and `A_t/A_s`")
         elif r > 0:
             A_t = r * A_s
@@ -99,7 +99,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
             n_t = - r / 8.0 * (2.0 - n_s - r / 8.0)
             n_t_run = r / 8.0 * (r / 8.0 + n_s - 1)
         if A_t > 0:
-            if r != A_t / A_s:
+            if not np.isclose(r, A_t / A_s, rtol=1e-6, atol=0):
                 raise Exception("mismatch between `r` and `A_t/A_s`")
         elif r > 0:
             A_t = r * A_s
@@ -151,7 +151,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
             n_t = - r / 8.0 * (2.0 - n_s - r / 8.0)
             n_t_run = r / 8.0 * (r / 8.0 + n_s - 1)
         if A_t > 0:
-            if r != A_t / A_s:
+            if not np.isclose(r, A_t / A_s, rtol=1e-6, atol=0):
                 raise Exception("mismatch between `r` and `A_t/A_s`")
         elif r > 0:
             A_t = r * A_s
diff --git a/cobaya_wrapper/powerlaw_pps.py b/cobaya_wrapper/powerlaw_pps.py
index beffbeb..5c3b2fa 100644
--- a/cobaya_wrapper/powerlaw_pps.py
+++ b/cobaya_wrapper/powerlaw_pps.py
@@ -54,7 +54,7 @@ class PowerLawPPS(ExternalPrimordialPowerSpectrum):
             n_t = - r / 8.0 * (2.0 - n_s - r / 8.0)
             n_t_run = r / 8.0 * (r / 8.0 + n_s - 1)
         if A_t > 0:
-            if r != A_t / A_s:
+            if not np.isclose(r, A_t / A_s, rtol=1e-6, atol=0):
                 raise Exception("mismatch between `r` and `A_t/A_s`")
         elif r > 0:
             A_t = r * A_s
-- 
2.43.0


From a3289c6592d769561bf4abafe7f9f7e499e77661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:14 +0000
Subject: [PATCH 30/38] fix: slow-roll theories rejected reheating energies
 above 0.76 of the energy at the end of inflation (stray 1/3)

---
 cobaya_wrapper/slowroll_pps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index a6f5d23..498b0d4 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,8 +65,8 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = (1/3 * (1/2 * b.dphidt[b.inflation_mask][-1]**2
-                                  + b.potential.V(b.phi[b.inflation_mask][-1]))
+            rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
+                            + b.potential.V(b.phi[b.inflation_mask][-1]))
                            * mp_GeV / lp_iGeV**3)**(1/4)
             if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
                 raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
-- 
2.43.0


From baf5cb59316e200ddd110d105fa32ce0d29acc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 31/38] fix: slow-roll theories ignored w_reh when it was given
 without rho_reh_GeV

---
 cobaya_wrapper/slowroll_pps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index 498b0d4..ee9e7c3 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -76,11 +76,13 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                                              rho_reh_GeV=rho_reh_GeV, w_reh=w_reh)
                 elif N_star is not None and n_s is None:
                     b.calibrate_scale_factor(calibration_method='N_star', N_star=N_star,
-                                             rho_reh_GeV=rho_reh_GeV)
+                                             rho_reh_GeV=rho_reh_GeV, w_reh=w_reh)
                 else:
                     N_star = min(N_star, b.N_tot-0.1)
                     b.calibrate_scale_factor(N_star=N_star, rho_reh_GeV=rho_reh_GeV)
                     b.set_ns(n_s=n_s, rho_reh_GeV=rho_reh_GeV, N_star_min=20, N_star_max=N_star)
+                    if w_reh is not None:
+                        b.calibrate_scale_factor(N_star=b.N_star, w_reh=w_reh)
             # check whether the target A_s is met
             if abs(b.A_s - A_s) < atol + rtol * A_s:
                 break  # when the target is met, exit the loop
-- 
2.43.0


From 137095369fe4f17a63160b6646fc085d088c6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 32/38] fix: slow-roll theories judged rho_reh_GeV against the
 end of inflation of the first guess for Lambda

---
 cobaya_wrapper/slowroll_pps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index ee9e7c3..3fab611 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,11 +65,6 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
-                            + b.potential.V(b.phi[b.inflation_mask][-1]))
-                           * mp_GeV / lp_iGeV**3)**(1/4)
-            if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
-                raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
             with warnings.catch_warnings(action='ignore', category=PrimpyWarning):
                 if w_reh is not None and rho_reh_GeV is not None:
                     b.calibrate_scale_factor(calibration_method='reheating',
@@ -92,6 +87,11 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                 Lambda = (A_s / b.A_s)**(1 / 4) * Lambda
             else:
                 raise PrimpyError("`A_s` shooting failed.")
+        rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
+                        + b.potential.V(b.phi[b.inflation_mask][-1]))
+                       * mp_GeV / lp_iGeV**3)**(1/4)
+        if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
+            raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
         if b.w_reh <= -1/3 or b.w_reh >= 1 or b.DeltaN_reh < 0 or b.N_reh > b.N0:
             raise PrimpyError(f"Unrealistic reheating scenario with w_reh={b.w_reh}, "
                               f"DeltaN_reh={b.DeltaN_reh}, N_star={b.N_star}, "
-- 
2.43.0


From 3a57c0b1a954bf3219376bba6788e5bf779be17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 33/38] fix: unit_incremented compared versions as strings
 (2.10.0a0 was no increment of 2.9.0)

---
 bin/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bin/utils.py b/bin/utils.py
index 0dcdba8..161281d 100644
--- a/bin/utils.py
+++ b/bin/utils.py
@@ -13,16 +13,18 @@ def unit_incremented(a, b):
     """Check if a is one version larger than b."""
     a = version.parse(a)
     b = version.parse(b)
+    a_base = version.parse(a.base_version)
+    b_base = version.parse(b.base_version)
     if a.pre is not None and b.pre is not None:
         if a.pre[0] == b.pre[0]:
-            return a.pre[1] == b.pre[1]+1 and a.base_version == b.base_version
+            return a.pre[1] == b.pre[1]+1 and a_base == b_base
         else:
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
-                    and a.base_version == b.base_version)
+                    and a_base == b_base)
     elif a.pre is not None:
-        return a.base_version > b.base_version and a.pre[1] == 0
+        return a_base > b_base and a.pre[1] == 0
     elif b.pre is not None:
-        return a.base_version == b.base_version
+        return a_base == b_base
     else:
         return (a.micro == b.micro+1 and
                 a.minor == b.minor and
-- 
2.43.0


From 0cefef7daa43b26d75713dedd306ea8483fa005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 34/38] fix: the version gate compared versions as strings
 (2.10.0a0 was no increment of 2.9.0)

---
 .github/workflows/check_version.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/.github/workflows/check_version.py b/.github/workflows/check_version.py
index 59bb0bf..3b53bb9 100644
--- a/.github/workflows/check_version.py
+++ b/.github/workflows/check_version.py
@@ -16,16 +16,18 @@ def unit_incremented(a, b):
     """Check if a is one version larger than b."""
     a = version.parse(a)
     b = version.parse(b)
+    a_base = version.parse(a.base_version)
+    b_base = version.parse(b.base_version)
     if a.pre is not None and b.pre is not None:
         if a.pre[0] == b.pre[0]:
-            return a.pre[1] == b.pre[1]+1 and a.base_version == b.base_version
+            return a.pre[1] == b.pre[1]+1 and a_base == b_base
         else:
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
-                    and a.base_version == b.base_version)
+                    and a_base == b_base)
     elif a.pre is not None:
-        return a.base_version > b.base_version and a.pre[1] == 0
+        return a_base > b_base and a.pre[1] == 0
     elif b.pre is not None:
-        return a.base_version == b.base_version
+        return a_base == b_base
     else:
         return (a.micro == b.micro+1 and
                 a.minor == b.minor and
-- 
2.43.0


From ce51f09d870b1bd8e7b5dcd2fd3324c7bc18c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:06 +0000
Subject: [PATCH 35/38] fix: Starobinsky sr_N2phi was infinite or NaN for more
 than 550 e-folds (underflow in the Lambert function)

---
 primpy/potentials.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 5c7ad88..17894e2 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -4,7 +4,7 @@ from abc import ABC, abstractmethod
 from functools import cached_property
 from warnings import warn
 import numpy as np
-from scipy.special import lambertw
+from scipy.special import lambertw, wrightomega
 from scipy.interpolate import interp1d
 from scipy.optimize import root_scalar
 from primpy.units import pi
@@ -550,10 +550,10 @@ class StarobinskyPotential(InflationaryPotential):
     def sr_N2phi(self, N):  # noqa: D102
         g = StarobinskyPotential.gamma
         phi_end = self.phi_end
-        return np.real_if_close(
-            -2*N*g + phi_end - np.exp(g*phi_end)/g
-            - lambertw(-np.exp(-2*N*g**2)*np.exp(g*phi_end)*np.exp(-np.exp(g*phi_end)), -1) / g
-        )
+        # argument of the Lambert function is -exp(-x), which underflows for large x
+        x = 2*N*g**2 - g*phi_end + np.exp(g*phi_end)
+        W = np.where(x < 700, lambertw(-np.exp(-x), -1), wrightomega(-x - 1j*pi))
+        return np.real_if_close(-2*N*g + phi_end - np.exp(g*phi_end)/g - W / g)
 
     @staticmethod
     def sr_Nstar2ns(N_star):
-- 
2.43.0


From 3437a3c7588c2dd19fbdb69d9cc47f8c3ab4acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:46 +0000
Subject: [PATCH 36/38] fix: second derivative of monomial potentials was NaN
 at phi=0, third and fourth failed for whole-number fields

---
 primpy/potentials.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 17894e2..21d87bd 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -295,15 +295,15 @@ class MonomialPotential(InflationaryPotential):
         return self.Lambda**4 * self.p * np.abs(phi)**(self.p - 1) * np.sign(phi)
 
     def d2V(self, phi):  # noqa: D102
-        return self.Lambda**4 * self.p * (self.p - 1) * np.abs(phi)**self.p / phi**2
+        return self.Lambda**4 * self.p * (self.p - 1) * np.abs(phi)**(self.p - 2.0)
 
     def d3V(self, phi):  # noqa: D102
         p = self.p
-        return self.Lambda**4 * p * (p**2 - 3*p + 2) * np.abs(phi)**(p-3) * np.sign(phi)
+        return self.Lambda**4 * p * (p**2 - 3*p + 2) * np.abs(phi)**(p - 3.0) * np.sign(phi)
 
     def d4V(self, phi):  # noqa: D102
         p = self.p
-        return self.Lambda**4 * p * (p**3 - 6*p**2 + 11*p - 6) * np.abs(phi)**(p-4)
+        return self.Lambda**4 * p * (p**3 - 6*p**2 + 11*p - 6) * np.abs(phi)**(p - 4.0)
 
     def inv_V(self, V):  # noqa: D102
         return (V / self.Lambda**4)**(1/self.p)
-- 
2.43.0


From 74294795e3828782c35d648e8db539289e0c132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:44 +0000
Subject: [PATCH 37/38] fix: second to fourth derivatives of radion gauge
 potentials failed for whole-number fields

---
 primpy/potentials.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 21d87bd..f2ac81b 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1090,13 +1090,13 @@ class RadionGaugePotential(InflationaryPotential):
     def d2V(self, phi):  # noqa: D102
         p = self.p
         alpha = self.alpha
-        L2 = self.Lambda**4 * alpha * p * phi**(p-2)
+        L2 = self.Lambda**4 * alpha * p * phi**(p - 2.0)
         return L2 * (alpha * p - alpha - p * phi**p - phi**p) / (alpha + phi**p)**3
 
     def d3V(self, phi):  # noqa: D102
         p = self.p
         alpha = self.alpha
-        L3 = self.Lambda**4 * alpha * p * phi**(p-3)
+        L3 = self.Lambda**4 * alpha * p * phi**(p - 3.0)
         return L3 * (p**2 * (alpha**2 - 4*alpha*phi**p + phi**(2*p))
                      - 3 * p * (alpha - phi**p) * (alpha + phi**p)
                      + 2 * (alpha + phi**p)**2) / (alpha + phi**p)**4
@@ -1104,7 +1104,7 @@ class RadionGaugePotential(InflationaryPotential):
     def d4V(self, phi):  # noqa: D102
         p = self.p
         alpha = self.alpha
-        L4 = self.Lambda**4 * alpha * p * phi**(p-4)
+        L4 = self.Lambda**4 * alpha * p * phi**(p - 4.0)
         return L4 * (p**3 * (alpha - phi**p) * (alpha**2 - 10*alpha*phi**p + phi**(2*p))
                      - 6 * p**2 * (alpha + phi**p) * (alpha**2 - 4*alpha*phi**p + phi**(2*p))
                      + 11 * p * (alpha - phi**p) * (alpha + phi**p)**2
-- 
2.43.0


From 10131aba9ec728d145d2336b4de417576d7f79fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:19 +0000
Subject: [PATCH 38/38] fix: unit_incremented accepted first pre-releases of
 any later version (3.0.5a0 after 1.2.3)

---
 .github/workflows/check_version.py | 2 +-
 bin/utils.py                       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/.github/workflows/check_version.py b/.github/workflows/check_version.py
index 3b53bb9..1930b2d 100644
--- a/.github/workflows/check_version.py
+++ b/.github/workflows/check_version.py
@@ -25,7 +25,7 @@ def unit_incremented(a, b):
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
                     and a_base == b_base)
     elif a.pre is not None:
-        return a_base > b_base and a.pre[1] == 0
+        return a.pre[1] == 0 and unit_incremented(a.base_version, b.base_version)
     elif b.pre is not None:
         return a_base == b_base
     else:
diff --git a/bin/utils.py b/bin/utils.py
index 161281d..15db33a 100644
--- a/bin/utils.py
+++ b/bin/utils.py
@@ -22,7 +22,7 @@ def unit_incremented(a, b):
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
                     and a_base == b_base)
     elif a.pre is not None:
-        return a_base > b_base and a.pre[1] == 0
+        return a.pre[1] == 0 and unit_incremented(a.base_version, b.base_version)
     elif b.pre is not None:
         return a_base == b_base
     else:
-- 
2.43.0

