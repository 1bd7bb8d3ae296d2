From b077cd0782ad3df5302312ec9cd1ee146787fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 1/6] fix: use the configured displacer diameter in the rhombic
 drive

RhombicDrive::from(Config) copied D_p into the displacer diameter, so the
configured D_d had no effect on the expansion space volume.
---
 src/ws/rhombic_drive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ws/rhombic_drive.rs b/src/ws/rhombic_drive.rs
index 968d5af..68d1ab7 100644
--- a/src/ws/rhombic_drive.rs
+++ b/src/ws/rhombic_drive.rs
@@ -199,7 +199,7 @@ impl From<Config> for RhombicDrive {
             eccentricity: config.eccentricity,
             r_crank: config.r_crank,
             D_p: config.D_p,
-            D_d: config.D_p,
+            D_d: config.D_d,
             L_conn: config.L_conn,
         };
         let parasitics = Parasitics {
-- 
2.43.0


From 89943e439829afe4c4d97fa9a3399366ba36429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 2/6] fix: report the state that belongs to the converged cycle

On convergence State::update returned the state from before the last cycle, so
the reported pressures, mass flows and heat flows did not describe the reported
time-discretized values (for fixed approach components they were the initial
hint: constant pressure and zero flows).
---
 src/engine/state.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/engine/state.rs b/src/engine/state.rs
index a899b36..2cab209 100644
--- a/src/engine/state.rs
+++ b/src/engine/state.rs
@@ -114,8 +114,9 @@ impl<T: Fluid> State<T> {
     /// Return `self` updated from new `state_equations::Values`
     ///
     /// The updated `State` is returned as `Ok(self)`.  If the provided
-    /// `values` do not change the `State` within `tol`, then the original
-    /// `State` is returned as `Err(self)`.
+    /// `values` do not change the `State` temperatures within `tol`, then the
+    /// `State` that corresponds to `values` with its temperatures unchanged is
+    /// returned as `Err(self)`.
     #[allow(clippy::result_large_err, clippy::similar_names)]
     pub fn update(
         self,
@@ -163,11 +164,8 @@ impl<T: Fluid> State<T> {
         // Check for temperature convergence
         // TODO: Do we want to check `pres`, `mass_flow`, and `heat_flow` for convergence as well?
         if self.temp.is_converged(new_temp, tol) {
-            // Temperatures are converged and we return `self` unchanged
-            Err(Self {
-                fluid: new_state.fluid,
-                ..self
-            })
+            // Temperatures are converged and we leave them unchanged
+            Err(new_state)
         } else {
             // Approach temperatures have changed and we return the new `State`
             Ok(Self {
-- 
2.43.0


From bff4322e7eaf5549f67ee29ebe27a17a5753e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 3/6] fix: include the working space wall heat flow in the gas
 energy balance

The heat exchanged with the heat exchangers through the working space thermal
resistances was reported in the heat flows but never left or entered the gas, so
the reported heats did not balance the power for non-adiabatic spaces.
---
 src/engine/run.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index e1b434b..792c75d 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -26,6 +26,7 @@ pub(super) struct Run<'a, T: Fluid, U: MatrixDecomposition> {
     vol_hhx: f64,
     vol_regen: f64,
     ws_parasitics: ws::Parasitics,
+    ws_thermal_res: ws::ThermalResistance,
     ws_vol_fn: Box<dyn Fn(f64) -> (ws::CompVolume, ws::ExpVolume)>,
 }
 
@@ -48,6 +49,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
         let period = 1.0 / components.ws.frequency(&ws_state);
         let ws_vol_fn = components.ws.volumes(&ws_state);
         let ws_parasitics = components.ws.parasitics(&ws_state);
+        let ws_thermal_res = components.ws.thermal_resistance(&ws_state);
 
         Self {
             enth_norm,
@@ -60,6 +62,7 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             vol_hhx,
             vol_regen,
             ws_parasitics,
+            ws_thermal_res,
             ws_vol_fn,
         }
     }
@@ -75,7 +78,9 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.comp.thermal,
+            // Heat lost by the gas includes the heat flow to the cold heat exchanger
+            Q_dot: self.ws_parasitics.comp.thermal
+                + (temp - self.temp.chx) / self.ws_thermal_res.comp,
         }
     }
 
@@ -127,7 +132,9 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
             du_dP_T: self.fluid.du_dP_T(temp, pres),
             du_dT_P: self.fluid.du_dT_P(temp, pres),
             dV_dt: vol.deriv,
-            Q_dot: self.ws_parasitics.exp.thermal,
+            // Heat lost by the gas includes the heat flow to the hot heat exchanger
+            Q_dot: self.ws_parasitics.exp.thermal
+                + (temp - self.temp.hhx) / self.ws_thermal_res.exp,
         }
     }
 }
-- 
2.43.0


From 9c6237e821a9975901e8fc9b3324effdeaf8b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 4/6] fix: always output the last point of the cycle

The integrator accumulates its output times, so the rounding error in the last
one grows with the period and the number of points; with a fixed slack of 1e-14
it could exceed the end time and the last point of the cycle was dropped.
---
 src/state_equations/integrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state_equations/integrator.rs b/src/state_equations/integrator.rs
index efffb33..fe6f1af 100644
--- a/src/state_equations/integrator.rs
+++ b/src/state_equations/integrator.rs
@@ -35,7 +35,7 @@ impl<'a, T: Cycle> Integration<'a, T> {
         let mut stepper = Dopri5::new(
             state,
             0.0,
-            period + 1e-14, // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
+            period * (1.0 + 1e-9), // TODO: https://github.com/isentropic-dev/sett-rs/issues/32
             dx,
             y0,
             tol.rel,
-- 
2.43.0


From 8dd417c914d9e43eb8f1c0ac2bbe89e8d34c3ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 5/6] fix: keep the enthalpy norm from vanishing when
 enthalpies have opposite signs

---
 src/engine/run.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/run.rs b/src/engine/run.rs
index 792c75d..1c9e49a 100644
--- a/src/engine/run.rs
+++ b/src/engine/run.rs
@@ -34,10 +34,10 @@ impl<'a, T: Fluid, U: MatrixDecomposition> Run<'a, T, U> {
     /// Create an `Run` for a specific matrix solver
     #[allow(clippy::similar_names)]
     pub(super) fn new(components: &'a Components, state: &'a State<T>) -> Self {
-        // Calculate an average enthalpy using the sink and source temperatures
+        // Calculate an average enthalpy magnitude using the sink and source temperatures
         let h_sink = state.fluid.enth(state.temp.sink, state.pres.avg);
         let h_source = state.fluid.enth(state.temp.source, state.pres.avg);
-        let enth_norm = 0.5 * (h_sink + h_source);
+        let enth_norm = 0.5 * (h_sink.abs() + h_source.abs()); // enthalpies may have opposite signs
 
         // Ask heat exchanger components for their volumes
         let vol_chx = components.chx.volume();
-- 
2.43.0


From 5b6b32f63f11f34c434c3be6d2316dc98a7bd5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 6/6] fix: do not drop small singular values in the SVD solver

---
 src/state_equations/solver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state_equations/solver.rs b/src/state_equations/solver.rs
index ffaa885..6bca249 100644
--- a/src/state_equations/solver.rs
+++ b/src/state_equations/solver.rs
@@ -232,7 +232,8 @@ impl MatrixDecomposition for Cholesky {
 pub struct SvdDefault;
 impl MatrixDecomposition for SvdDefault {
     fn solve(a: &Matrix, b: &Vector) -> Result<Vector> {
-        let eps = 1e-12;
+        // Singular values scale with the volumes of the engine, so even tiny ones are significant
+        let eps = 0.;
         a.svd_unordered(true, true)
             .solve(b, eps)
             .map_err(|_| anyhow!("unable to solve matrix with SVD decomposition"))
-- 
2.43.0

