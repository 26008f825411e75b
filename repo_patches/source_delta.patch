From 04dcb4d0bfd3e4183152abc6bfd81bc82e795c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:41 +0000
Subject: [PATCH 01/91] fix: propagator instance keeps its step size, kind and
 direction after an interrupted call

---
 nyx-core/src/propagators/instance.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index a6d74b5..084e1fb 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -110,6 +110,9 @@ where
             .context(DynamicsSnafu)?;
 
         let backprop = duration.is_negative();
+        // A previous call may have been interrupted (error or stop condition) while stepping backward,
+        // so always set the direction of the step from this duration.
+        self.step_size = self.step_size.abs();
         if backprop {
             self.step_size = -self.step_size; // Invert the step size
         }
@@ -155,6 +158,8 @@ where
                 // If we're reached this far without hitting it, we most certainly won't trigger it.
                 if stop_time == epoch {
                     // No propagation necessary
+                    self.step_size = self.step_size.abs(); // Restore to a positive step size
+
                     #[cfg(not(target_arch = "wasm32"))]
                     {
                         if self.log_progress {
@@ -183,7 +188,11 @@ where
                 let prev_step_kind = self.fixed_step;
                 self.set_step(stop_time - epoch, true);
 
-                self.single_step()?;
+                let final_step = self.single_step();
+
+                // Restore the step size for subsequent calls, even if this step failed.
+                self.set_step(prev_step_size, prev_step_kind);
+                final_step?;
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
@@ -192,9 +201,6 @@ where
                     warn!("{e} when sending on channel")
                 }
 
-                // Restore the step size for subsequent calls
-                self.set_step(prev_step_size, prev_step_kind);
-
                 if backprop {
                     self.step_size = -self.step_size; // Restore to a positive step size
                 }
@@ -248,6 +254,8 @@ where
                     // condition they are seeking is between the last state on the channel
                     // and the state we're returning
 
+                    self.step_size = self.step_size.abs(); // Restore to a positive step size
+
                     return Ok(self.state);
                 }
 
-- 
2.43.0


From eb984ce16fd92f8bc18719600f7e811fb763c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:21 +0000
Subject: [PATCH 02/91] fix: minimum step applies to the magnitude of the step,
 also when propagating backward

---
 nyx-core/src/propagators/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index 084e1fb..a7cc9ce 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -434,7 +434,7 @@ where
                         .estimate(&error_est, &next_state, state_vec);
 
                 if self.details.error <= self.prop.opts.tolerance
-                    || step_size_s <= self.prop.opts.min_step.to_seconds()
+                    || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
                     if next_state.iter().any(|x| x.is_nan()) {
@@ -489,8 +489,8 @@ where
                         * (self.prop.opts.tolerance / self.details.error)
                             .powf(1.0 / f64::from(self.prop.method.order() - 1));
 
-                    step_size_s = if proposed_step_s < self.prop.opts.min_step.to_seconds() {
-                        self.prop.opts.min_step.to_seconds()
+                    step_size_s = if proposed_step_s.abs() < self.prop.opts.min_step.to_seconds() {
+                        self.prop.opts.min_step.to_seconds() * step_size_s.signum()
                     } else {
                         proposed_step_s
                     };
-- 
2.43.0


From 85065934847c492b178a352e9e1d259d537a94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:39 +0000
Subject: [PATCH 03/91] fix: LargestError error control normalizes by the
 magnitude of the change of the state

---
 nyx-core/src/propagators/error_ctrl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/propagators/error_ctrl.rs b/nyx-core/src/propagators/error_ctrl.rs
index 30b670d..e61f0e4 100644
--- a/nyx-core/src/propagators/error_ctrl.rs
+++ b/nyx-core/src/propagators/error_ctrl.rs
@@ -138,7 +138,7 @@ impl ErrorControl {
                 let state_delta = candidate - cur_state;
                 let mut max_err = 0.0;
                 for (i, prop_err_i) in error_est.iter().enumerate() {
-                    let err = if state_delta[i] > REL_ERR_THRESH {
+                    let err = if state_delta[i].abs() > REL_ERR_THRESH {
                         (prop_err_i / state_delta[i]).abs()
                     } else {
                         prop_err_i.abs()
-- 
2.43.0


From c87d46942b1ecaf43a7accbee06f82b561e6df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:00 +0000
Subject: [PATCH 04/91] fix: event search finds events going backward, in the
 last step, and in the event frame

---
 nyx-core/src/propagators/event.rs    | 34 +++++++++++++++++++++++-----
 nyx-core/src/propagators/instance.rs | 11 ++++++---
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/propagators/event.rs b/nyx-core/src/propagators/event.rs
index 6d07cd7..cc116a1 100644
--- a/nyx-core/src/propagators/event.rs
+++ b/nyx-core/src/propagators/event.rs
@@ -169,17 +169,24 @@ where
 
         traj.finalize();
 
-        // We pushed at least one item to this trajectory, so the following unwrap will always succeed.
-        let last_traj_state = traj.states.last().cloned().unwrap();
-        if end_state == last_traj_state {
+        if crossing_counts < trigger {
             return Err(PropagationError::NthEventError {
                 nth: trigger,
                 found: crossing_counts,
             });
         }
 
+        // The event is between the latest published state (or the start state if none was published) and the end state.
+        // We pushed at least one item to this trajectory, so the following calls will always succeed.
+        let prev_state = if max_duration.is_negative() {
+            *traj.first()
+        } else {
+            *traj.last()
+        };
+
         // Add the final state to the trajectory so we can search it in full.
         traj.states.push(end_state);
+        traj.finalize();
 
         // We have one bracket to search.
         let traj_at = |epoch: Epoch| -> Result<f64, AnalysisError> {
@@ -189,12 +196,27 @@ where
                     err: format!("{e}"),
                 })?;
 
-            event.eval(state.orbit(), &self.almanac)
+            let orbit = if let Some(observer_frame) = event_frame {
+                self.almanac
+                    .transform_to(state.orbit(), observer_frame, None)
+                    .map_err(|e| AnalysisError::GenericAnalysisError {
+                        err: format!("{e}"),
+                    })?
+            } else {
+                state.orbit()
+            };
+
+            event.eval(orbit, &self.almanac)
         };
 
         // Else Brent solver between these states
-        let event_epoch = brent_solver(traj_at, event, last_traj_state.epoch(), end_state.epoch())
-            .context(PropAnalysisSnafu)?;
+        let event_epoch = brent_solver(
+            traj_at,
+            event,
+            prev_state.epoch().min(end_state.epoch()),
+            prev_state.epoch().max(end_state.epoch()),
+        )
+        .context(PropAnalysisSnafu)?;
 
         #[cfg(not(target_arch = "wasm32"))]
         {
diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index a7cc9ce..ab9a426 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -154,8 +154,6 @@ where
             if (!backprop && epoch + self.step_size > stop_time)
                 || (backprop && epoch + self.step_size <= stop_time)
             {
-                // We don't check for the interrupt condition on the last step.
-                // If we're reached this far without hitting it, we most certainly won't trigger it.
                 if stop_time == epoch {
                     // No propagation necessary
                     self.step_size = self.step_size.abs(); // Restore to a positive step size
@@ -194,8 +192,15 @@ where
                 self.set_step(prev_step_size, prev_step_kind);
                 final_step?;
 
+                // The stopping condition may be met on this last step too. If so, don't send the state on the channel (cf. below).
+                let stopped = match stop_condition {
+                    Some(ref mut condition) => condition(self.state)?,
+                    None => false,
+                };
+
                 // Publish to channel if provided
-                if let Some(ref chan) = maybe_tx_chan
+                if !stopped
+                    && let Some(ref chan) = maybe_tx_chan
                     && let Err(e) = chan.send(self.state)
                 {
                     warn!("{e} when sending on channel")
-- 
2.43.0


From f40d1dc02e9d72fca03482a5edbc672de72a084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:16 +0000
Subject: [PATCH 05/91] fix: trajectory interpolation uses relative epochs to
 keep its precision

---
 nyx-core/src/md/trajectory/interpolatable.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index 6114973..b4f655e 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -53,7 +53,7 @@ impl Interpolatable for Spacecraft {
     fn interpolate(mut self, epoch: Epoch, states: &[Self]) -> Result<Self, InterpolationError> {
         // Interpolate the Orbit first
         // Statically allocated arrays of the maximum number of samples
-        let mut epochs_tdb = [0.0; INTERPOLATION_SAMPLES];
+        let mut rel_epochs_s = [0.0; INTERPOLATION_SAMPLES];
         let mut xs = [0.0; INTERPOLATION_SAMPLES];
         let mut ys = [0.0; INTERPOLATION_SAMPLES];
         let mut zs = [0.0; INTERPOLATION_SAMPLES];
@@ -68,20 +68,19 @@ impl Interpolatable for Spacecraft {
             vxs[cno] = state.orbit.velocity_km_s.x;
             vys[cno] = state.orbit.velocity_km_s.y;
             vzs[cno] = state.orbit.velocity_km_s.z;
-            epochs_tdb[cno] = state.epoch().to_et_seconds();
+            // Relative to the requested epoch: seconds past J2000 only have a resolution of 0.1 microseconds, which the
+            // interpolation amplifies on its edges.
+            rel_epochs_s[cno] = (state.epoch() - epoch).to_seconds();
         }
 
         // Ensure that if we don't have enough states, we only interpolate using what we have instead of INTERPOLATION_SAMPLES
         let n = states.len();
 
-        let (x_km, vx_km_s) =
-            hermite_eval(&epochs_tdb[..n], &xs[..n], &vxs[..n], epoch.to_et_seconds())?;
+        let (x_km, vx_km_s) = hermite_eval(&rel_epochs_s[..n], &xs[..n], &vxs[..n], 0.0)?;
 
-        let (y_km, vy_km_s) =
-            hermite_eval(&epochs_tdb[..n], &ys[..n], &vys[..n], epoch.to_et_seconds())?;
+        let (y_km, vy_km_s) = hermite_eval(&rel_epochs_s[..n], &ys[..n], &vys[..n], 0.0)?;
 
-        let (z_km, vz_km_s) =
-            hermite_eval(&epochs_tdb[..n], &zs[..n], &vzs[..n], epoch.to_et_seconds())?;
+        let (z_km, vz_km_s) = hermite_eval(&rel_epochs_s[..n], &zs[..n], &vzs[..n], 0.0)?;
 
         self.orbit = Orbit::new(
             x_km,
-- 
2.43.0


From 5cf210b732d92bebf21ba9e69054c3a5f22a5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:16 +0000
Subject: [PATCH 06/91] fix: interpolated propellant mass lies between the
 masses of the neighboring states

---
 nyx-core/src/md/trajectory/interpolatable.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/md/trajectory/interpolatable.rs b/nyx-core/src/md/trajectory/interpolatable.rs
index b4f655e..5af31b1 100644
--- a/nyx-core/src/md/trajectory/interpolatable.rs
+++ b/nyx-core/src/md/trajectory/interpolatable.rs
@@ -94,12 +94,18 @@ impl Interpolatable for Spacecraft {
         );
 
         // Fuel is linearly interpolated -- should really be a Lagrange interpolation here
-        let first = states.first().unwrap();
-        let last = states.last().unwrap();
-        let prop_kg_dt = (last.mass.prop_mass_kg - first.mass.prop_mass_kg)
-            / (last.epoch() - first.epoch()).to_seconds();
-
-        self.mass.prop_mass_kg += prop_kg_dt * (epoch - first.epoch()).to_seconds();
+        // Use the states on either side of the requested epoch: the mass flow changes whenever a burn starts or stops.
+        if let Some(next_idx) = states.iter().position(|s| s.epoch() >= epoch) {
+            let next = &states[next_idx];
+            let prev = &states[next_idx.saturating_sub(1)];
+            let span_s = (next.epoch() - prev.epoch()).to_seconds();
+
+            self.mass.prop_mass_kg = next.mass.prop_mass_kg;
+            if span_s > 0.0 {
+                let prop_kg_dt = (next.mass.prop_mass_kg - prev.mass.prop_mass_kg) / span_s;
+                self.mass.prop_mass_kg -= prop_kg_dt * (next.epoch() - epoch).to_seconds();
+            }
+        }
         // Thrust direction is a discrete guidance output and should not be interpolated.
         self.thrust_direction = None;
 
-- 
2.43.0


From a6c5f33ef5dbd0985c9879ba3f2beebaf4d0a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 07/91] fix: states are published and returned in the initial
 frame when integrating in another frame

---
 nyx-core/src/propagators/instance.rs | 51 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index ab9a426..ab0094b 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -25,6 +25,7 @@ use crate::md::trajectory::{Interpolatable, Traj};
 use crate::time::{Duration, Epoch, Unit};
 use anise::almanac::Almanac;
 use anise::errors::MathError;
+use anise::frames::Frame;
 use log::{info, warn};
 use rayon::iter::ParallelBridge;
 use rayon::prelude::ParallelIterator;
@@ -167,16 +168,7 @@ where
                     }
 
                     // Rotate back if needed
-                    if let Some(original_frame) = original_frame {
-                        let new_orbit = self
-                            .almanac
-                            .transform_to(self.state.orbit(), original_frame, None)
-                            .context(DynamicsAlmanacSnafu {
-                                action: "transforming state from desired integration frame",
-                            })
-                            .context(DynamicsSnafu)?;
-                        self.state.set_orbit(new_orbit);
-                    }
+                    self.state = self.state_in(original_frame)?;
 
                     return Ok(self.state);
                 }
@@ -192,6 +184,9 @@ where
                 self.set_step(prev_step_size, prev_step_kind);
                 final_step?;
 
+                // Rotate back if needed
+                self.state = self.state_in(original_frame)?;
+
                 // The stopping condition may be met on this last step too. If so, don't send the state on the channel (cf. below).
                 let stopped = match stop_condition {
                     Some(ref mut condition) => condition(self.state)?,
@@ -218,18 +213,6 @@ where
                     }
                 }
 
-                // Rotate back if needed
-                if let Some(original_frame) = original_frame {
-                    let new_orbit = self
-                        .almanac
-                        .transform_to(self.state.orbit(), original_frame, None)
-                        .context(DynamicsAlmanacSnafu {
-                            action: "transforming state from desired integration frame",
-                        })
-                        .context(DynamicsSnafu)?;
-                    self.state.set_orbit(new_orbit);
-                }
-
                 return Ok(self.state);
             } else {
                 #[cfg(not(target_arch = "wasm32"))]
@@ -251,8 +234,11 @@ where
 
                 self.single_step()?;
 
+                // The states are checked and published in the frame of the initial state.
+                let published_state = self.state_in(original_frame)?;
+
                 if let Some(ref mut condition) = stop_condition
-                    && condition(self.state)?
+                    && condition(published_state)?
                 {
                     // Stopping condition triggered. We don't send
                     // the new state on the channel for the caller to know that the exact
@@ -260,13 +246,14 @@ where
                     // and the state we're returning
 
                     self.step_size = self.step_size.abs(); // Restore to a positive step size
+                    self.state = published_state;
 
                     return Ok(self.state);
                 }
 
                 // Publish to channel if provided
                 if let Some(ref chan) = maybe_tx_chan
-                    && let Err(e) = chan.send(self.state)
+                    && let Err(e) = chan.send(published_state)
                 {
                     warn!("{e} when sending on channel")
                 }
@@ -274,6 +261,22 @@ where
         }
     }
 
+    /// Returns the current state in the provided frame if there is one, or unchanged otherwise.
+    fn state_in(&self, frame: Option<Frame>) -> Result<D::StateType, PropagationError> {
+        let mut state = self.state;
+        if let Some(frame) = frame {
+            let new_orbit = self
+                .almanac
+                .transform_to(state.orbit(), frame, None)
+                .context(DynamicsAlmanacSnafu {
+                    action: "transforming state from desired integration frame",
+                })
+                .context(DynamicsSnafu)?;
+            state.set_orbit(new_orbit);
+        }
+        Ok(state)
+    }
+
     /// This method propagates the provided Dynamics for the provided duration.
     pub fn for_duration(&mut self, duration: Duration) -> Result<D::StateType, PropagationError> {
         self.propagate(duration, None, Some(|_| Ok(false)))
-- 
2.43.0


From a33c6a5eff2ebaea2c4e2540dde3eea172619ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:03 +0000
Subject: [PATCH 08/91] fix: finalized trajectory has no duplicate epochs even
 if its states were out of order

---
 nyx-core/src/md/trajectory/traj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index e3f9fbb..52a44e5 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -73,10 +73,10 @@ where
     }
     /// Orders the states, can be used to store the states out of order
     pub fn finalize(&mut self) {
-        // Remove duplicate epochs
-        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
-        // And sort
+        // Sort first, since only consecutive duplicates are removed.
         self.states.sort_by_key(|a| a.epoch());
+        // And remove duplicate epochs
+        self.states.dedup_by(|a, b| a.epoch().eq(&b.epoch()));
     }
 
     /// Evaluate the trajectory at this specific epoch.
-- 
2.43.0


From 2ea2b7342095d354fedcac57b310ca8bacadd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:56 +0000
Subject: [PATCH 09/91] fix: filtering by offset honors the kind of its bounds
 and keeps the last entry when unbounded

---
 nyx-core/src/md/trajectory/traj.rs      | 17 +++++------------
 nyx-core/src/od/msr/trackingdata/mod.rs | 18 ++++++------------
 2 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 52a44e5..089c26b 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -45,7 +45,6 @@ use std::fmt;
 use std::fs::File;
 use std::iter::Iterator;
 use std::ops;
-use std::ops::Bound::{Excluded, Included, Unbounded};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -178,18 +177,12 @@ where
         if self.states.is_empty() {
             return self;
         }
-        // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.states.first().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
-
-        let end = match bound.end_bound() {
-            Unbounded => self.states.last().unwrap().epoch(),
-            Included(offset) | Excluded(offset) => self.states.first().unwrap().epoch() + *offset,
-        };
+        // Rebuild an epoch bound of the same kind.
+        let first_epoch = self.first().epoch();
+        let start = bound.start_bound().map(|offset| first_epoch + *offset);
+        let end = bound.end_bound().map(|offset| first_epoch + *offset);
 
-        self.filter_by_epoch(start..=end)
+        self.filter_by_epoch((start, end))
     }
     /// Store this trajectory arc to a parquet file with the default configuration (depends on the state type, search for `export_params` in the documentation for details).
     pub fn to_parquet_simple<P: AsRef<Path>>(&self, path: P) -> Result<PathBuf, Box<dyn Error>> {
diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 6878e9e..23f6f7a 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -20,7 +20,7 @@ use core::fmt;
 use hifitime::prelude::{Duration, Epoch};
 use indexmap::{IndexMap, IndexSet};
 use log::{info, warn};
-use std::ops::Bound::{self, Excluded, Included, Unbounded};
+use std::ops::Bound;
 use std::ops::{Add, AddAssign, RangeBounds};
 
 mod io_ccsds_tdm;
@@ -395,18 +395,12 @@ impl TrackingDataArc {
         if self.is_empty() {
             return self;
         }
-        // Rebuild an epoch bound.
-        let start = match bound.start_bound() {
-            Unbounded => self.start_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
-
-        let end = match bound.end_bound() {
-            Unbounded => self.end_epoch().unwrap(),
-            Included(offset) | Excluded(offset) => self.start_epoch().unwrap() + *offset,
-        };
+        // Rebuild an epoch bound of the same kind.
+        let first_epoch = self.start_epoch().unwrap();
+        let start = bound.start_bound().map(|offset| first_epoch + *offset);
+        let end = bound.end_bound().map(|offset| first_epoch + *offset);
 
-        self.filter_by_epoch(start..end)
+        self.filter_by_epoch((start, end))
     }
 
     /// Returns a new tracking arc that only contains measurements from the desired tracker.
-- 
2.43.0


From fd971be50bb3fa986fa1f447b917b140370fc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:31 +0000
Subject: [PATCH 10/91] fix: interpolation window always brackets the requested
 epoch

---
 nyx-core/src/md/trajectory/traj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 089c26b..6aa4bd9 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -109,7 +109,7 @@ where
 
                 // Check that we have enough samples
                 if last_idx == self.states.len() {
-                    first_idx = last_idx.saturating_sub(2 * num_left);
+                    first_idx = last_idx.saturating_sub(INTERPOLATION_SAMPLES);
                 }
 
                 let mut states = Vec::with_capacity(last_idx - first_idx);
-- 
2.43.0


From d5618fdfd7e8db2b8944506102f8b204ddf0fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:05 +0000
Subject: [PATCH 11/91] fix: impulsive maneuvers of a sequence are applied in
 their local frame

---
 nyx-core/src/dynamics/guidance/mnvr.rs | 19 ++++++++++++++++++-
 nyx-core/src/dynamics/sequence/mod.rs  |  6 ++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/mnvr.rs b/nyx-core/src/dynamics/guidance/mnvr.rs
index a9b13fd..dea0015 100644
--- a/nyx-core/src/dynamics/guidance/mnvr.rs
+++ b/nyx-core/src/dynamics/guidance/mnvr.rs
@@ -19,12 +19,12 @@
 use super::{
     GuidanceError, GuidanceLaw, GuidancePhysicsSnafu, LocalFrame, ra_dec_from_unit_vector,
 };
-use crate::State;
 use crate::cosmic::{GuidanceMode, Spacecraft};
 use crate::dynamics::guidance::unit_vector_from_ra_dec;
 use crate::linalg::Vector3;
 use crate::polyfit::CommonPolynomial;
 use crate::time::{Epoch, Unit};
+use crate::{NyxError, State};
 use anise::prelude::Almanac;
 use hifitime::{Duration, TimeUnits};
 use serde::{Deserialize, Serialize};
@@ -41,6 +41,23 @@ pub struct ImpulsiveManeuver {
     pub dv_km_s: Vector3<f64>,
 }
 
+impl ImpulsiveManeuver {
+    /// Returns the provided spacecraft after this maneuver, whose delta-v is expressed in its local frame.
+    pub(crate) fn apply_to(&self, sc: Spacecraft) -> Result<Spacecraft, NyxError> {
+        let dv_km_s = match self.local_frame {
+            LocalFrame::Inertial => self.dv_km_s,
+            _ => {
+                sc.orbit.dcm_to_inertial(self.local_frame).map_err(|e| {
+                    NyxError::GuidanceConfigError {
+                        msg: format!("impulsive maneuver: {e}"),
+                    }
+                })? * self.dv_km_s
+            }
+        };
+        Ok(sc.with_dv_km_s(dv_km_s))
+    }
+}
+
 impl fmt::Display for ImpulsiveManeuver {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "{:.3} m/s in {:?}", self.dv_km_s * 1e3, self.local_frame)
diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index dbc2a26..0d2062e 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -182,8 +182,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = mnvr.apply_to(state)?;
                                     }
                                     if let Some(decr) = decrement_properties {
                                         if let Some(mass) = decr.mass {
@@ -207,8 +206,7 @@ impl SpacecraftSequence {
                                 } => {
                                     if let Some(mnvr) = impulsive_maneuver {
                                         info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = state
-                                            .with_orbit(state.orbit.with_dv_km_s(mnvr.dv_km_s));
+                                        state = mnvr.apply_to(state)?;
                                     }
                                     if let Some(incr) = increment_properties {
                                         if let Some(mass) = incr.mass {
-- 
2.43.0


From 308cc98eb68f2af8492f9757da5db47457035a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:08 +0000
Subject: [PATCH 12/91] fix: frame swap of a sequence also rotates the state
 into the new frame

---
 nyx-core/src/dynamics/sequence/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index 0d2062e..d1312df 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -162,13 +162,7 @@ impl SpacecraftSequence {
                                     {
                                         state = state.with_orbit(
                                             almanac
-                                                .translate_to(state.orbit, *new_frame, None)
-                                                .map_err(|source| {
-                                                    anise::errors::AlmanacError::Ephemeris {
-                                                        action: "central body swap",
-                                                        source: Box::new(source),
-                                                    }
-                                                })
+                                                .transform_to(state.orbit, *new_frame, None)
                                                 .context(FromAlmanacSnafu {
                                                     action: "central body swap",
                                                 })?,
-- 
2.43.0


From 34334c0af9b39c7e5041685d3e892d03c2900cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:31 +0000
Subject: [PATCH 13/91] fix: a sequence starts in the phase ongoing at the
 state's epoch and disabled phases are as if removed

---
 nyx-core/src/dynamics/sequence/mod.rs | 247 ++++++++++++++------------
 1 file changed, 133 insertions(+), 114 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index d1312df..f9ac034 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -125,7 +125,27 @@ impl SpacecraftSequence {
         almanac: Arc<Almanac>,
     ) -> Result<Vec<Trajectory>, NyxError> {
         let tick = Epoch::now().unwrap();
-        let mut phase_iterator = self.seq.range(state.epoch()..).peekable();
+        // A disabled phase is handled as if it were not in the sequence, unless it is where to stop.
+        let is_enabled = |phase: &Phase| match phase {
+            Phase::Terminate => true,
+            Phase::Activity { name, disabled, .. } => {
+                !disabled || until_phase.as_ref() == Some(name)
+            }
+        };
+        // Start from the phase which is ongoing at the epoch of the provided state.
+        let start_epoch = self
+            .seq
+            .range(..=state.epoch())
+            .rfind(|(_, phase)| is_enabled(phase))
+            .map(|(epoch, _)| *epoch)
+            .ok_or_else(|| NyxError::GenericError {
+                msg: format!("no phase of the sequence covers {}", state.epoch()),
+            })?;
+        let mut phase_iterator = self
+            .seq
+            .range(start_epoch..)
+            .filter(|(_, phase)| is_enabled(phase))
+            .peekable();
 
         let mut trajs = Vec::with_capacity(self.seq.len());
 
@@ -141,7 +161,7 @@ impl SpacecraftSequence {
                     propagator,
                     guidance,
                     on_entry,
-                    disabled,
+                    disabled: _,
                 } => {
                     // Check stop condition
                     if let Some(ref target) = until_phase
@@ -150,129 +170,128 @@ impl SpacecraftSequence {
                         return Ok(trajs);
                     }
 
-                    if *disabled {
-                        info!("[{epoch}] skipping disabled {name}");
-                    } else {
-                        info!("[{epoch}] executing {name}");
-                        if let Some(discrete_event) = on_entry {
-                            match &**discrete_event {
-                                DiscreteEvent::FrameSwap { new_frame } => {
-                                    if !new_frame.orient_origin_match(state.orbit.frame)
-                                        || !new_frame.ephem_origin_match(state.orbit.frame)
-                                    {
-                                        state = state.with_orbit(
-                                            almanac
-                                                .transform_to(state.orbit, *new_frame, None)
-                                                .context(FromAlmanacSnafu {
-                                                    action: "central body swap",
-                                                })?,
-                                        );
-                                        info!("[{epoch}] central body swapped to {new_frame}");
-                                    }
+                    info!("[{epoch}] executing {name}");
+                    // The entry event of an ongoing phase has already happened.
+                    if let Some(discrete_event) = on_entry
+                        && *epoch == state.epoch()
+                    {
+                        match &**discrete_event {
+                            DiscreteEvent::FrameSwap { new_frame } => {
+                                if !new_frame.orient_origin_match(state.orbit.frame)
+                                    || !new_frame.ephem_origin_match(state.orbit.frame)
+                                {
+                                    state = state.with_orbit(
+                                        almanac
+                                            .transform_to(state.orbit, *new_frame, None)
+                                            .context(FromAlmanacSnafu {
+                                                action: "central body swap",
+                                            })?,
+                                    );
+                                    info!("[{epoch}] central body swapped to {new_frame}");
+                                }
+                            }
+                            DiscreteEvent::Staging {
+                                impulsive_maneuver,
+                                decrement_properties,
+                            } => {
+                                if let Some(mnvr) = impulsive_maneuver {
+                                    info!("[{epoch}] staging, with maneuver {mnvr}");
+                                    state = mnvr.apply_to(state)?;
                                 }
-                                DiscreteEvent::Staging {
-                                    impulsive_maneuver,
-                                    decrement_properties,
-                                } => {
-                                    if let Some(mnvr) = impulsive_maneuver {
-                                        info!("[{epoch}] staging, with maneuver {mnvr}");
-                                        state = mnvr.apply_to(state)?;
+                                if let Some(decr) = decrement_properties {
+                                    if let Some(mass) = decr.mass {
+                                        state.mass.dry_mass_kg -= mass.dry_mass_kg;
+                                        state.mass.prop_mass_kg -= mass.prop_mass_kg;
+                                        state.mass.extra_mass_kg -= mass.extra_mass_kg;
+                                    }
+                                    if let Some(srp) = decr.srp {
+                                        state.srp.area_m2 -= srp.area_m2;
+                                        state.srp.coeff_reflectivity -= srp.coeff_reflectivity;
                                     }
-                                    if let Some(decr) = decrement_properties {
-                                        if let Some(mass) = decr.mass {
-                                            state.mass.dry_mass_kg -= mass.dry_mass_kg;
-                                            state.mass.prop_mass_kg -= mass.prop_mass_kg;
-                                            state.mass.extra_mass_kg -= mass.extra_mass_kg;
-                                        }
-                                        if let Some(srp) = decr.srp {
-                                            state.srp.area_m2 -= srp.area_m2;
-                                            state.srp.coeff_reflectivity -= srp.coeff_reflectivity;
-                                        }
-                                        if let Some(drag) = decr.drag {
-                                            state.drag.area_m2 -= drag.area_m2;
-                                            state.drag.coeff_drag -= drag.coeff_drag;
-                                        }
+                                    if let Some(drag) = decr.drag {
+                                        state.drag.area_m2 -= drag.area_m2;
+                                        state.drag.coeff_drag -= drag.coeff_drag;
                                     }
                                 }
-                                DiscreteEvent::Docking {
-                                    impulsive_maneuver,
-                                    increment_properties,
-                                } => {
-                                    if let Some(mnvr) = impulsive_maneuver {
-                                        info!("[{epoch}] docking, with maneuver {mnvr}");
-                                        state = mnvr.apply_to(state)?;
+                            }
+                            DiscreteEvent::Docking {
+                                impulsive_maneuver,
+                                increment_properties,
+                            } => {
+                                if let Some(mnvr) = impulsive_maneuver {
+                                    info!("[{epoch}] docking, with maneuver {mnvr}");
+                                    state = mnvr.apply_to(state)?;
+                                }
+                                if let Some(incr) = increment_properties {
+                                    if let Some(mass) = incr.mass {
+                                        state.mass.dry_mass_kg += mass.dry_mass_kg;
+                                        state.mass.prop_mass_kg += mass.prop_mass_kg;
+                                        state.mass.extra_mass_kg += mass.extra_mass_kg;
+                                    }
+                                    if let Some(srp) = incr.srp {
+                                        state.srp.area_m2 += srp.area_m2;
+                                        state.srp.coeff_reflectivity += srp.coeff_reflectivity;
                                     }
-                                    if let Some(incr) = increment_properties {
-                                        if let Some(mass) = incr.mass {
-                                            state.mass.dry_mass_kg += mass.dry_mass_kg;
-                                            state.mass.prop_mass_kg += mass.prop_mass_kg;
-                                            state.mass.extra_mass_kg += mass.extra_mass_kg;
-                                        }
-                                        if let Some(srp) = incr.srp {
-                                            state.srp.area_m2 += srp.area_m2;
-                                            state.srp.coeff_reflectivity += srp.coeff_reflectivity;
-                                        }
-                                        if let Some(drag) = incr.drag {
-                                            state.drag.area_m2 += drag.area_m2;
-                                            state.drag.coeff_drag += drag.coeff_drag;
-                                        }
+                                    if let Some(drag) = incr.drag {
+                                        state.drag.area_m2 += drag.area_m2;
+                                        state.drag.coeff_drag += drag.coeff_drag;
                                     }
                                 }
                             }
                         }
+                    }
 
-                        let end_time = phase_iterator
-                            .peek()
-                            .expect("validate did not catch missing terminate")
-                            .0;
-
-                        // Include the guidance if any is available
-                        let (next_state, mut phase_traj) = if let Some(guid_cfg) = guidance {
-                            // Clone the propagator to add the dynamics
-                            let mut setup = self.prop_setups[propagator].clone();
-                            setup.dynamics.decrement_mass = !guid_cfg.disable_prop_mass;
-                            state.thruster = Some(self.thruster_sets[&guid_cfg.thruster_model]);
-                            match &guid_cfg.law {
-                                SteeringLaw::FiniteBurn(maneuver) => {
-                                    setup.dynamics.guid_law = Some(Arc::new(*maneuver));
-                                }
-                                SteeringLaw::Ruggiero {
-                                    objectives,
-                                    max_eclipse_prct,
-                                } => {
-                                    let guid = Ruggiero {
-                                        objectives: objectives.clone(),
-                                        max_eclipse_prct: *max_eclipse_prct,
-                                        init_state: state,
-                                    };
-                                    setup.dynamics.guid_law = Some(Arc::new(guid));
-                                }
-                                SteeringLaw::Kluever {
-                                    objectives,
-                                    max_eclipse_prct,
-                                } => {
-                                    let guid = Kluever {
-                                        objectives: objectives.clone(),
-                                        max_eclipse_prct: *max_eclipse_prct,
-                                    };
-                                    setup.dynamics.guid_law = Some(Arc::new(guid));
-                                }
+                    let end_time = phase_iterator
+                        .peek()
+                        .expect("validate did not catch missing terminate")
+                        .0;
+
+                    // Include the guidance if any is available
+                    let (next_state, mut phase_traj) = if let Some(guid_cfg) = guidance {
+                        // Clone the propagator to add the dynamics
+                        let mut setup = self.prop_setups[propagator].clone();
+                        setup.dynamics.decrement_mass = !guid_cfg.disable_prop_mass;
+                        state.thruster = Some(self.thruster_sets[&guid_cfg.thruster_model]);
+                        match &guid_cfg.law {
+                            SteeringLaw::FiniteBurn(maneuver) => {
+                                setup.dynamics.guid_law = Some(Arc::new(*maneuver));
                             }
-                            setup
-                                .with(state, almanac.clone())
-                                .until_epoch_with_traj(*end_time)
-                                .context(FromPropSnafu)?
-                        } else {
-                            self.prop_setups[propagator]
-                                .with(state, almanac.clone())
-                                .until_epoch_with_traj(*end_time)
-                                .context(FromPropSnafu)?
-                        };
-                        info!("[{epoch}] {name} completed: {next_state:x}");
-                        state = next_state;
-                        phase_traj.name = Some(name.clone());
-                        trajs.push(phase_traj);
-                    }
+                            SteeringLaw::Ruggiero {
+                                objectives,
+                                max_eclipse_prct,
+                            } => {
+                                let guid = Ruggiero {
+                                    objectives: objectives.clone(),
+                                    max_eclipse_prct: *max_eclipse_prct,
+                                    init_state: state,
+                                };
+                                setup.dynamics.guid_law = Some(Arc::new(guid));
+                            }
+                            SteeringLaw::Kluever {
+                                objectives,
+                                max_eclipse_prct,
+                            } => {
+                                let guid = Kluever {
+                                    objectives: objectives.clone(),
+                                    max_eclipse_prct: *max_eclipse_prct,
+                                };
+                                setup.dynamics.guid_law = Some(Arc::new(guid));
+                            }
+                        }
+                        setup
+                            .with(state, almanac.clone())
+                            .until_epoch_with_traj(*end_time)
+                            .context(FromPropSnafu)?
+                    } else {
+                        self.prop_setups[propagator]
+                            .with(state, almanac.clone())
+                            .until_epoch_with_traj(*end_time)
+                            .context(FromPropSnafu)?
+                    };
+                    info!("[{epoch}] {name} completed: {next_state:x}");
+                    state = next_state;
+                    phase_traj.name = Some(name.clone());
+                    trajs.push(phase_traj);
                 }
             }
         }
-- 
2.43.0


From b66a682272cecc90e12e578b9815c90536efea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:34 +0000
Subject: [PATCH 14/91] fix: an empty, inconsistent or not set up sequence is
 an error, and setup uses the current configuration

---
 nyx-core/src/dynamics/sequence/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/mod.rs b/nyx-core/src/dynamics/sequence/mod.rs
index f9ac034..b67f582 100644
--- a/nyx-core/src/dynamics/sequence/mod.rs
+++ b/nyx-core/src/dynamics/sequence/mod.rs
@@ -57,7 +57,7 @@ pub struct SpacecraftSequence {
 impl SpacecraftSequence {
     pub fn validate(&self) -> Result<(), String> {
         // Check that the last statement is a terminate
-        if let Some((_, Phase::Activity { .. })) = self.seq.iter().last() {
+        if !matches!(self.seq.iter().last(), Some((_, Phase::Terminate))) {
             return Err("final phase must be a Terminate".into());
         }
 
@@ -92,6 +92,9 @@ impl SpacecraftSequence {
         // Don't set up anything if this is not a valid timeline
         self.validate()?;
 
+        // Don't keep the propagators of an earlier setup, their configuration may have changed.
+        self.prop_setups.clear();
+
         for phase in self.seq.values() {
             if let Phase::Activity {
                 name: _,
@@ -124,6 +127,9 @@ impl SpacecraftSequence {
         until_phase: Option<String>,
         almanac: Arc<Almanac>,
     ) -> Result<Vec<Trajectory>, NyxError> {
+        self.validate()
+            .map_err(|msg| NyxError::GenericError { msg })?;
+
         let tick = Epoch::now().unwrap();
         // A disabled phase is handled as if it were not in the sequence, unless it is where to stop.
         let is_enabled = |phase: &Phase| match phase {
@@ -246,10 +252,17 @@ impl SpacecraftSequence {
                         .expect("validate did not catch missing terminate")
                         .0;
 
+                    let prop_setup =
+                        self.prop_setups
+                            .get(propagator)
+                            .ok_or_else(|| NyxError::GenericError {
+                                msg: format!("propagator `{propagator}` is not set up"),
+                            })?;
+
                     // Include the guidance if any is available
                     let (next_state, mut phase_traj) = if let Some(guid_cfg) = guidance {
                         // Clone the propagator to add the dynamics
-                        let mut setup = self.prop_setups[propagator].clone();
+                        let mut setup = prop_setup.clone();
                         setup.dynamics.decrement_mass = !guid_cfg.disable_prop_mass;
                         state.thruster = Some(self.thruster_sets[&guid_cfg.thruster_model]);
                         match &guid_cfg.law {
@@ -283,7 +296,7 @@ impl SpacecraftSequence {
                             .until_epoch_with_traj(*end_time)
                             .context(FromPropSnafu)?
                     } else {
-                        self.prop_setups[propagator]
+                        prop_setup
                             .with(state, almanac.clone())
                             .until_epoch_with_traj(*end_time)
                             .context(FromPropSnafu)?
-- 
2.43.0


From 3d0186f034d619590c65c7422da629454728af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:25 +0000
Subject: [PATCH 15/91] fix: integrate the state transition matrix as grad *
 stm at every stage

---
 nyx-core/src/dynamics/spacecraft.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/spacecraft.rs b/nyx-core/src/dynamics/spacecraft.rs
index 3fecb4c..2df44a4 100644
--- a/nyx-core/src/dynamics/spacecraft.rs
+++ b/nyx-core/src/dynamics/spacecraft.rs
@@ -205,13 +205,13 @@ impl Dynamics for SpacecraftDynamics {
         let mut d_x = OVector::<f64, Const<90>>::zeros();
 
         // Maybe I use this only when estimating the orbit state from a spacecraft, but that functionality will soon disappear.
-        match ctx.stm {
+        match osc_sc.stm {
             Some(stm) => {
                 // Call the gradient (also called the dual EOM function of the force models)
                 let (state, grad) = self.dual_eom(delta_t_s, &osc_sc, almanac)?;
 
                 // Apply the gradient to the STM
-                let stm_dt = stm * grad;
+                let stm_dt = grad * stm;
 
                 // Rebuild the state vector
                 for (i, val) in state.iter().enumerate() {
-- 
2.43.0


From 4cd0f19541c7101dbd6b07219668d6acfa48b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:25 +0000
Subject: [PATCH 16/91] fix: predictions end at the requested epoch and
 initialize the process noises

---
 nyx-core/src/od/process/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 33689e4..71cec2d 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -442,6 +442,11 @@ where
         initial_estimate: KfEstimate<D::StateType>,
         end_epoch: Epoch,
     ) -> Result<ODSolution<D::StateType, KfEstimate<D::StateType>, MsrSize, Trk>, ODError> {
+        ensure!(
+            !self.max_step.is_negative() && self.max_step != Duration::ZERO,
+            StepSizeSnafu { step: self.max_step }
+        );
+
         // Initialize the solution with no measurement types.
         let mut od_sol = ODSolution::new(self.devices.clone(), IndexSet::new());
 
@@ -460,11 +465,15 @@ where
             prev_used_snc: 0,
         };
 
+        kf.initialize_process_noises();
+
         let prop_time = end_epoch - kf.previous_estimate().epoch();
         info!("Mapping covariance for {prop_time} every {} until {end_epoch}", self.max_step);
 
-        loop {
-            let nominal_state = prop_instance.for_duration(self.max_step).context(ODPropSnafu)?;
+        while prop_instance.state.epoch() < end_epoch {
+            // Never step past the requested end epoch.
+            let step = self.max_step.min(end_epoch - prop_instance.state.epoch());
+            let nominal_state = prop_instance.for_duration(step).context(ODPropSnafu)?;
             // Extract the state and update the STM in the filter.
             // Get the datetime and info needed to compute the theoretical measurement according to the model
             let epoch = nominal_state.epoch();
@@ -477,9 +486,6 @@ where
                 Err(e) => return Err(e),
             }
             prop_instance.state.reset_stm();
-            if epoch >= end_epoch {
-                break;
-            }
         }
 
         Ok(od_sol)
-- 
2.43.0


From a19b18cabff6e2daefbee5f7f0df4264b5b92f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:25 +0000
Subject: [PATCH 17/91] fix: measurement types missing from a measurement do
 not affect the filter update

---
 nyx-core/src/od/groundpnt/sensitivity.rs |  2 +-
 nyx-core/src/od/interlink/sensitivity.rs |  2 +-
 nyx-core/src/od/msr/sensitivity.rs       |  2 +-
 nyx-core/src/od/process/mod.rs           | 13 ++++++++++++-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index bd27961..5b5ef98 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -48,7 +48,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <GroundAsset as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <GroundAsset as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 936ccd3..83aad3a 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -58,7 +58,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 46a3cb0..2a832e3 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -96,7 +96,7 @@ where
         DefaultAllocator: Allocator<M> + Allocator<M, <Spacecraft as State>::Size>,
     {
         // Rebuild each row of the scalar sensitivities.
-        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::identity();
+        let mut mat = OMatrix::<f64, M, <Spacecraft as State>::Size>::zeros();
         for (ith_row, msr_type) in msr_types.iter().enumerate() {
             if !msr.data.contains_key(msr_type) {
                 // Skip computation, this row is zero anyway.
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 71cec2d..eef97c7 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -325,13 +325,24 @@ where
                                         device.measure(epoch, &traj, None, &self.almanac)?
                                     {
                                         // Apply any biases on the computed observation
-                                        let computed_obs = computed_meas
+                                        let mut computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
                                             - device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
 
+                                        // A type which is not in this measurement contributes nothing to the update.
+                                        for (i, avail) in msr
+                                            .availability(&cur_msr_types)
+                                            .into_iter()
+                                            .enumerate()
+                                        {
+                                            if !avail {
+                                                computed_obs[i] = 0.0;
+                                            }
+                                        }
+
                                         // Apply the modulo to the real obs
                                         if let Some(moduli) = &arc.moduli {
                                             let mut obs_ambiguity =
-- 
2.43.0


From b1e34d2d86dc20bd7173f8d9857cbfb1b6446e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:01 +0000
Subject: [PATCH 18/91] fix: the smoother uses the smoothed estimate at k+1 and
 the residual at k

---
 nyx-core/src/od/process/solution/smooth.rs | 26 +++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index c94d8e2..a938d45 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -106,6 +106,11 @@ where
         <StateType as State>::Size:
             DimMin<<StateType as State>::Size, Output = <StateType as State>::Size>,
     {
+        if self.estimates.len() < 2 {
+            // There is nothing to smooth: the last estimate is already the best one.
+            return Ok(self);
+        }
+
         let l = self.estimates.len() - 1;
 
         let mut smoothed = Self {
@@ -130,7 +135,7 @@ where
         loop {
             let k = l - smoothed.estimates.len();
             // Borrow the previously smoothed estimate of the k+1 estimate
-            let sm_est_kp1 = &self.estimates[k + 1];
+            let sm_est_kp1 = smoothed.estimates.last().unwrap();
             let x_kp1_l = sm_est_kp1.state_deviation();
             let p_kp1_l = sm_est_kp1.covar();
             // Borrow the k-th estimate, which we're smoothing with the next estimate
@@ -151,8 +156,23 @@ where
                 .try_inverse()
                 .ok_or(ODError::SingularStateTransitionMatrix)?;
 
+            // Rebuild the deviation which was predicted at k+1, i.e. before the measurement update if there was one.
+            // That prediction is zero if the reference state was updated with the estimate at k.
+            let x_kp1_bar = match (&self.gains[k + 1], &self.residuals[k + 1]) {
+                (Some(gain), Some(residual)) => {
+                    let ref_update = gain * &residual.prefit;
+                    if (est_kp1.state_deviation() - &ref_update).norm() <= 1e-9 * ref_update.norm()
+                    {
+                        OVector::<f64, <StateType as State>::Size>::zeros()
+                    } else {
+                        est_kp1.state_deviation() - gain * &residual.postfit
+                    }
+                }
+                _ => est_kp1.state_deviation(),
+            };
+
             // Compute smoothed state deviation
-            let x_k_l = &phi_kp1_k * x_kp1_l;
+            let x_k_l = est_k.state_deviation() + &phi_kp1_k * (x_kp1_l - x_kp1_bar);
             // Compute smoothed covariance
             let p_k_l = &phi_kp1_k * p_kp1_l * &phi_kp1_k.transpose();
             // Store into vector
@@ -162,7 +182,7 @@ where
             // Compute the smoothed covariance
             smoothed_est_k.set_covar(p_k_l);
             // Recompute the residual if available.
-            if let Some(mut residual) = self.residuals[k + 1].clone() {
+            if let Some(mut residual) = self.residuals[k].clone() {
                 let tracker = residual
                     .tracker
                     .as_ref()
-- 
2.43.0


From e2c9eedde3fd6e61ce66c461487f566ec1072acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:01 +0000
Subject: [PATCH 19/91] fix: constant measurement biases are added once to the
 simulated and computed observations

---
 nyx-core/src/od/position/trk_device.rs     | 4 +---
 nyx-core/src/od/process/mod.rs             | 2 +-
 nyx-core/src/od/process/solution/smooth.rs | 2 +-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index ef7bac9..b59a865 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -76,9 +76,7 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
         for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
             msr.push(
                 msr_type,
-                rx.orbit.radius_km[ii]
-                    + noises.get(&msr_type).unwrap_or(&0.0)
-                    + self.measurement_bias(msr_type, rx.orbit.epoch)?,
+                rx.orbit.radius_km[ii] + noises.get(&msr_type).unwrap_or(&0.0),
             );
         }
 
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index eef97c7..4ee09ab 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -327,7 +327,7 @@ where
                                         // Apply any biases on the computed observation
                                         let mut computed_obs = computed_meas
                                             .observation::<MsrSize>(&cur_msr_types)
-                                            - device.measurement_bias_vector::<MsrSize>(
+                                            + device.measurement_bias_vector::<MsrSize>(
                                                 &cur_msr_types,
                                                 epoch,
                                             )?;
diff --git a/nyx-core/src/od/process/solution/smooth.rs b/nyx-core/src/od/process/solution/smooth.rs
index a938d45..75568b4 100644
--- a/nyx-core/src/od/process/solution/smooth.rs
+++ b/nyx-core/src/od/process/solution/smooth.rs
@@ -202,7 +202,7 @@ where
                     // Only recompute the computed observation from the update state estimate.
                     residual.computed_obs = computed_meas
                         .observation::<MsrSize>(&residual.msr_types)
-                        - device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
+                        + device.measurement_bias_vector::<MsrSize>(&residual.msr_types, epoch)?;
 
                     // Update the postfit residual.
                     residual.postfit = &residual.real_obs - &residual.computed_obs;
-- 
2.43.0


From 1cd9a0ffbd12f4e7995d6a3fdbfff75696a6d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:01 +0000
Subject: [PATCH 20/91] fix: residual RMS is the mean over the residuals, not
 over all of the estimates

---
 nyx-core/src/od/process/solution/stats.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index c337ce5..4a5a9e7 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -150,7 +150,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.prefit.dot(&residual.prefit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the postfit residuals
@@ -159,7 +159,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.postfit.dot(&residual.postfit);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Returns the root mean square of the prefit residual ratios
@@ -168,7 +168,7 @@ where
         for residual in self.residuals.iter().flatten() {
             sum += residual.ratio.powi(2);
         }
-        (sum / (self.residuals.len() as f64)).sqrt()
+        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
     /// Computes the fraction of residual ratios that lie within ±threshold.
@@ -216,7 +216,10 @@ where
         let std_dev = variance.sqrt();
 
         // Create a normal distribution based on the empirical mean and std deviation.
-        let normal_dist = Normal::new(mean, std_dev).unwrap();
+        let normal_dist =
+            Normal::new(mean, std_dev).map_err(|_| ODError::ODNoResiduals {
+                action: "evaluating the normality of residuals without any spread",
+            })?;
 
         // Compute the maximum difference between the empirical CDF and the normal CDF.
         let mut d_stat = 0.0;
-- 
2.43.0


From d54b4e0f7a3aa92cbc25653f0fbc7dc15c64b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:17 +0000
Subject: [PATCH 21/91] fix: merging solutions orders all entries by epoch and
 keeps the devices of both

---
 .../src/od/process/solution/filter_data.rs    | 24 ++++++++++---------
 nyx-core/src/od/process/solution/stats.rs     |  7 +++---
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/nyx-core/src/od/process/solution/filter_data.rs b/nyx-core/src/od/process/solution/filter_data.rs
index 25eda53..067354d 100644
--- a/nyx-core/src/od/process/solution/filter_data.rs
+++ b/nyx-core/src/od/process/solution/filter_data.rs
@@ -246,18 +246,20 @@ where
                 .expect("Epoch comparison failed")
         });
 
-        // Apply permutation to both vectors in-place
-        for i in 0..indices.len() {
-            let current = i;
-            while indices[current] != current {
-                let target = indices[current];
-                indices.swap(current, target);
-                self.estimates.swap(current, target);
-                self.residuals.swap(current, target);
-                self.gains.swap(current, target);
-                self.filter_smoother_ratios.swap(current, target);
-            }
+        // Apply the permutation to all of the vectors.
+        self.estimates = indices.iter().map(|&i| self.estimates[i].clone()).collect();
+        self.residuals = indices.iter().map(|&i| self.residuals[i].clone()).collect();
+        self.gains = indices.iter().map(|&i| self.gains[i].clone()).collect();
+        self.filter_smoother_ratios = indices
+            .iter()
+            .map(|&i| self.filter_smoother_ratios[i].clone())
+            .collect();
+
+        // Keep the devices and measurement types of both solutions.
+        for (name, device) in other.devices {
+            self.devices.entry(name).or_insert(device);
         }
+        self.measurement_types.extend(other.measurement_types);
 
         self
     }
diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index 4a5a9e7..6c06eab 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -216,10 +216,9 @@ where
         let std_dev = variance.sqrt();
 
         // Create a normal distribution based on the empirical mean and std deviation.
-        let normal_dist =
-            Normal::new(mean, std_dev).map_err(|_| ODError::ODNoResiduals {
-                action: "evaluating the normality of residuals without any spread",
-            })?;
+        let normal_dist = Normal::new(mean, std_dev).map_err(|_| ODError::ODNoResiduals {
+            action: "evaluating the normality of residuals without any spread",
+        })?;
 
         // Compute the maximum difference between the empirical CDF and the normal CDF.
         let mut d_stat = 0.0;
-- 
2.43.0


From 34e0e77b153b8b796391089b37cb14237d00df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:16 +0000
Subject: [PATCH 22/91] fix: ground station sensitivities are the partials of
 the modeled measurements

---
 nyx-core/src/od/msr/sensitivity.rs | 82 +++++++++++++++---------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/nyx-core/src/od/msr/sensitivity.rs b/nyx-core/src/od/msr/sensitivity.rs
index 2a832e3..822e6f9 100644
--- a/nyx-core/src/od/msr/sensitivity.rs
+++ b/nyx-core/src/od/msr/sensitivity.rs
@@ -21,9 +21,10 @@ use crate::linalg::allocator::Allocator;
 use crate::md::prelude::Interpolatable;
 use crate::od::{GroundStation, ODAlmanacSnafu, ODError, TrackingDevice};
 use crate::{Spacecraft, State};
+use anise::errors::AlmanacError;
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
-use nalgebra::{DimName, OMatrix, U1};
+use nalgebra::{DimName, OMatrix, U1, Vector3};
 use snafu::ResultExt;
 use std::marker::PhantomData;
 
@@ -120,7 +121,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &GroundStation,
         almanac: &Almanac,
@@ -141,15 +142,9 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // Always recompute the expected to range, a better model for scalar OD processing.
-                let ρ_km = tx
-                    .azimuth_elevation_of(receiver, None, almanac)
-                    .context(ODAlmanacSnafu {
-                        action: "computing range for Doppler measurement",
-                    })?
-                    .range_km;
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                // Always recompute the expected range and range rate, a better model for scalar OD processing.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -169,7 +164,8 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
+                // The observed range may be ambiguous, so compute the expected one.
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -185,37 +181,43 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, GroundStation>
                     _tx: PhantomData::<_>,
                 })
             }
-            MeasurementType::Azimuth => {
-                let denom = delta_r.x.powi(2) + delta_r.y.powi(2);
-                let m11 = -delta_r.y / denom;
-                let m12 = delta_r.x / denom;
-                let m13 = 0.0;
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
-
-                let sensitivity_row =
-                    OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
-                    ]);
-
-                Ok(Self {
-                    sensitivity_row,
-                    _rx: PhantomData::<_>,
-                    _tx: PhantomData::<_>,
-                })
-            }
-            MeasurementType::Elevation => {
-                let r2 = delta_r.norm().powi(2);
-                let z2 = delta_r.z.powi(2);
-
-                // Build the sensitivity matrix in the transmitter frame and rotate back into the inertial frame.
-                let m11 = -(delta_r.x * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m12 = -(delta_r.y * delta_r.z) / (r2 * (r2 - z2).sqrt());
-                let m13 = (delta_r.x.powi(2) + delta_r.y.powi(2)).sqrt() / r2;
+            MeasurementType::Azimuth | MeasurementType::Elevation => {
+                // The angles are measured in the topocentric frame (South, East, Zenith) of the ground station.
+                let action = "rotating the topocentric frame when computing sensitivity matrix";
+                let to_almanac_err = |err: String| AlmanacError::GenericError { err };
+                let topo_to_fixed = tx
+                    .to_orbit(rx.orbit.epoch, almanac)
+                    .and_then(|station| {
+                        station
+                            .dcm_from_topocentric_to_body_fixed()
+                            .map_err(|e| to_almanac_err(e.to_string()))
+                    })
+                    .context(ODAlmanacSnafu { action })?;
+                let fixed_to_rx = almanac
+                    .rotate(tx.location.frame.into(), rx.orbit.frame, rx.orbit.epoch)
+                    .map_err(|e| to_almanac_err(e.to_string()))
+                    .context(ODAlmanacSnafu { action })?;
+                let topo_to_rx = fixed_to_rx.rot_mat * topo_to_fixed.rot_mat;
+                let sez = topo_to_rx.transpose() * delta_r;
+                let horiz2 = sez.x.powi(2) + sez.y.powi(2);
+                let r2 = sez.norm_squared();
+
+                let partials_sez = if msr_type == MeasurementType::Azimuth {
+                    // Azimuth is atan2(east, -south).
+                    Vector3::new(sez.y / horiz2, -sez.x / horiz2, 0.0)
+                } else {
+                    Vector3::new(
+                        -sez.x * sez.z / (r2 * horiz2.sqrt()),
+                        -sez.y * sez.z / (r2 * horiz2.sqrt()),
+                        horiz2.sqrt() / r2,
+                    )
+                };
+                // Rotate back into the estimation frame, and convert to degrees like the measurement.
+                let partials = topo_to_rx * partials_sez * 1.0_f64.to_degrees();
 
                 let sensitivity_row =
                     OMatrix::<f64, U1, <Spacecraft as State>::Size>::from_row_slice(&[
-                        m11, m12, m13, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
+                        partials.x, partials.y, partials.z, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
                     ]);
 
                 Ok(Self {
-- 
2.43.0


From 05a07b248f006d024c6afd6db237f0c93dfbdf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:18 +0000
Subject: [PATCH 23/91] fix: interlink Doppler is the rate of the range, and
 its sensitivity does not need a range observation

---
 nyx-core/src/od/interlink/sensitivity.rs | 23 ++++++-----------------
 nyx-core/src/od/interlink/trk_device.rs  |  6 +++---
 2 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/nyx-core/src/od/interlink/sensitivity.rs b/nyx-core/src/od/interlink/sensitivity.rs
index 83aad3a..b3e496e 100644
--- a/nyx-core/src/od/interlink/sensitivity.rs
+++ b/nyx-core/src/od/interlink/sensitivity.rs
@@ -82,7 +82,7 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 {
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &Spacecraft,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
@@ -107,17 +107,9 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Doppler measurement data is missing".to_string(),
-                    }
-                })?;
+                // Always use the expected range and range rate, like the other trackers.
+                let ρ_km = delta_r.norm();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -137,11 +129,8 @@ impl ScalarSensitivityT<Spacecraft, Spacecraft, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).ok_or_else(|| {
-                    ODError::MeasurementSimError {
-                        details: "Range measurement data is missing".to_string(),
-                    }
-                })?;
+                // The observed range may be ambiguous, so compute the expected one.
+                let ρ_km = delta_r.norm();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index c447ba4..212b88b 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -205,9 +205,9 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
 
             let rho_tx_frame = rx_in_tx_frame.radius_km - observer.orbit.radius_km;
 
-            // Compute the range-rate \dot ρ. Note that rx_in_tx_frame is already the relative velocity of rx wrt tx!
-            let range_rate_km_s =
-                rho_tx_frame.dot(&rx_in_tx_frame.velocity_km_s) / rho_tx_frame.norm();
+            // Compute the range-rate \dot ρ from the velocity of the receiver relative to the transmitter.
+            let rho_dot_tx_frame = rx_in_tx_frame.velocity_km_s - observer.orbit.velocity_km_s;
+            let range_rate_km_s = rho_tx_frame.dot(&rho_dot_tx_frame) / rho_tx_frame.norm();
 
             let noises = self.noises(observer.epoch(), rng)?;
 
-- 
2.43.0


From f4873111f5f158fbeec9b0ea67db642e76b23d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:38 +0000
Subject: [PATCH 24/91] fix: the constant bias and the time stamp noise of a
 tracker are kept

---
 nyx-core/src/od/ground_station/mod.rs   | 11 +++--------
 nyx-core/src/od/interlink/trk_device.rs |  2 +-
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/od/ground_station/mod.rs b/nyx-core/src/od/ground_station/mod.rs
index 7b09536..6e9eb05 100644
--- a/nyx-core/src/od/ground_station/mod.rs
+++ b/nyx-core/src/od/ground_station/mod.rs
@@ -182,14 +182,9 @@ impl GroundStation {
             .get_mut(&msr_type)
             .ok_or(ODError::NoiseNotConfigured {
                 kind: format!("{msr_type:?}"),
-            })
-            .unwrap();
+            })?;
 
-        if this_noise.bias.is_none() {
-            this_noise.bias = Some(GaussMarkov::ZERO);
-        }
-
-        this_noise.bias.unwrap().constant = Some(bias_constant);
+        this_noise.bias.get_or_insert(GaussMarkov::ZERO).constant = Some(bias_constant);
 
         Ok(self)
     }
@@ -207,7 +202,7 @@ impl GroundStation {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index 212b88b..44d45c5 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -70,7 +70,7 @@ impl InterlinkTxSpacecraft {
             );
             // Add the timestamp noise first
 
-            if let Some(mut timestamp_noise) = self.timestamp_noise_s {
+            if let Some(timestamp_noise) = self.timestamp_noise_s.as_mut() {
                 noises[0] = timestamp_noise.sample(epoch, rng);
             }
 
-- 
2.43.0


From cb005d4bda3849d0f723811c97594010c6f96197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:05 +0000
Subject: [PATCH 25/91] fix: azimuths are averaged and compared across the
 0/360 degree wrap

---
 nyx-core/src/od/msr/types.rs   | 5 ++++-
 nyx-core/src/od/process/mod.rs | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/msr/types.rs b/nyx-core/src/od/msr/types.rs
index e08f938..f265554 100644
--- a/nyx-core/src/od/msr/types.rs
+++ b/nyx-core/src/od/msr/types.rs
@@ -17,6 +17,7 @@
 */
 
 use anise::astro::AzElRange;
+use anise::math::angles::{between_0_360, between_pm_180};
 use arrow::datatypes::{DataType, Field};
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, str::FromStr};
@@ -134,7 +135,9 @@ impl MeasurementType {
                 Ok(doppler_km_s + noise / 2.0_f64.sqrt())
             }
             Self::Azimuth => {
-                let az_deg = (aer_t1.azimuth_deg + aer_t0.azimuth_deg) * 0.5;
+                // Average along the shortest arc since the azimuth wraps at 360 degrees.
+                let delta_deg = between_pm_180(aer_t1.azimuth_deg - aer_t0.azimuth_deg);
+                let az_deg = between_0_360(aer_t0.azimuth_deg + delta_deg * 0.5);
                 Ok(az_deg + noise / 2.0_f64.sqrt())
             }
             Self::Elevation => {
diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 4ee09ab..6c0c343 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -25,6 +25,7 @@ pub use crate::od::snc::*;
 pub use crate::od::*;
 use crate::propagators::Propagator;
 pub use crate::time::{Duration, Unit};
+use anise::math::angles::between_pm_180;
 use anise::prelude::Almanac;
 use indexmap::IndexSet;
 use log::{debug, error, info, warn};
@@ -343,6 +344,14 @@ where
                                             }
                                         }
 
+                                        // The azimuth wraps at 360 degrees: use the equivalent closest to the expected one.
+                                        for (i, msr_type) in cur_msr_types.iter().enumerate() {
+                                            if *msr_type == msr::MeasurementType::Azimuth {
+                                                real_obs[i] = computed_obs[i]
+                                                    + between_pm_180(real_obs[i] - computed_obs[i]);
+                                            }
+                                        }
+
                                         // Apply the modulo to the real obs
                                         if let Some(moduli) = &arc.moduli {
                                             let mut obs_ambiguity =
-- 
2.43.0


From 5e4c7b60a0ea2ce37add760c1149f0bea662900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:18 +0000
Subject: [PATCH 26/91] fix: resolve range ambiguities to the observation
 closest to the expected one

---
 nyx-core/src/od/process/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/process/mod.rs b/nyx-core/src/od/process/mod.rs
index 6c0c343..f3762c8 100644
--- a/nyx-core/src/od/process/mod.rs
+++ b/nyx-core/src/od/process/mod.rs
@@ -359,7 +359,10 @@ where
 
                                             for (i, msr_type) in cur_msr_types.iter().enumerate() {
                                                 if let Some(modulus) = moduli.get(msr_type) {
-                                                    let k = computed_obs[i].div_euclid(*modulus);
+                                                    // Number of ambiguities which brings it closest to the expected one.
+                                                    let k = ((computed_obs[i] - real_obs[i])
+                                                        / *modulus)
+                                                        .round();
                                                     // real_obs = measured_obs + k * modulus
                                                     obs_ambiguity[i] = k * *modulus;
                                                 }
-- 
2.43.0


From 4bd3e377a433b7f3ef3023e55e799ac7dc97f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:12 +0000
Subject: [PATCH 27/91] fix: the RMS of the postfit residuals only includes the
 accepted measurements

---
 nyx-core/src/od/process/solution/stats.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index 6c06eab..cb32fe3 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -153,13 +153,15 @@ where
         (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
     }
 
-    /// Returns the root mean square of the postfit residuals
+    /// Returns the root mean square of the postfit residuals of the accepted measurements (there is no postfit for the rejected ones).
     pub fn rms_postfit_residuals(&self) -> f64 {
         let mut sum = 0.0;
-        for residual in self.residuals.iter().flatten() {
+        let mut count = 0;
+        for residual in self.residuals.iter().flatten().filter(|r| !r.rejected) {
             sum += residual.postfit.dot(&residual.postfit);
+            count += 1;
         }
-        (sum / (self.residuals.iter().flatten().count() as f64)).sqrt()
+        (sum / (count as f64)).sqrt()
     }
 
     /// Returns the root mean square of the prefit residual ratios
-- 
2.43.0


From 2e9f8e932da47acaf96d3e4180f43595e869b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:26 +0000
Subject: [PATCH 28/91] fix: schedule handoffs account for earlier changes and
 an empty schedule is not a panic

---
 nyx-core/src/od/simulator/arc.rs | 89 ++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 33 deletions(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index 255bc97..df66f62 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -366,7 +366,7 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
                             // We're turning on the tracking sooner than the schedule allows, so let's fix that.
                             strand_range.start = prev_strand.end + off;
                             // Check that we didn't eat into the whole tracking opportunity
-                            if strand_range.start > strand_end {
+                            if strand_range.start > strand_range.end {
                                 // Lost this whole opportunity.
                                 warn!(
                                     "Dropped {name} [{strand_start}, {strand_end}]: cadence {:?}",
@@ -397,43 +397,66 @@ impl TrackingArcSim<Spacecraft, GroundStation> {
                 );
             }
         }
-        // Build all of the strands, remembering which tracker they come from.
-        let mut cfg_as_vec = Vec::new();
-        for (name, cfg) in &built_cfg {
-            if let Some(strands) = &cfg.strands {
-                for (ii, strand) in strands.iter().enumerate() {
-                    cfg_as_vec.push((name.clone(), ii, *strand));
-                }
+        // Take the strands of all of the trackers, remembering which tracker they come from.
+        let mut pending: Vec<(String, Strand)> = Vec::new();
+        for (name, cfg) in &mut built_cfg {
+            if let Some(strands) = &mut cfg.strands {
+                pending.extend(strands.drain(..).map(|strand| (name.clone(), strand)));
             }
         }
-        // Iterate through the strands by chronological order. Cannot use maps because we change types.
-        cfg_as_vec.sort_by_key(|(_, _, strand)| strand.start);
-        for (ii, (this_name, this_pos, this_strand)) in
-            cfg_as_vec.iter().take(cfg_as_vec.len() - 1).enumerate()
-        {
-            // Grab the config
-            if let Some(config) = self.configs[this_name].scheduler.as_ref() {
-                // Grab the next strand, chronologically
-                if let Some((next_name, next_pos, next_strand)) = cfg_as_vec.get(ii + 1) {
-                    if config.handoff == Handoff::Greedy && this_strand.end >= next_strand.start {
-                        // Modify the built configurations to change the start time of the next strand because the current one is greedy.
-                        let next_config = built_cfg.get_mut(next_name).unwrap();
-                        let new_start = this_strand.end + next_config.sampling;
-                        next_config.strands.as_mut().unwrap()[*next_pos].start = new_start;
-                        info!("Greedy handoff for {this_name}: {next_name} delayed to {new_start}");
-                    } else if config.handoff == Handoff::Eager
-                        && this_strand.end >= next_strand.start
-                    {
-                        let this_config = built_cfg.get_mut(this_name).unwrap();
-                        let new_end = next_strand.start - this_config.sampling;
-                        this_config.strands.as_mut().unwrap()[*this_pos].end = new_end;
-                        info!("Eager handoff for {this_name}: {this_name} terminated at {new_end}");
+        // Iterate through the strands by chronological order, always against the strand currently being tracked.
+        // Sorted in reverse such that the next strand is the last one.
+        let mut current: Option<(String, Strand)> = None;
+        let mut planned: Vec<(String, Strand)> = Vec::new();
+        loop {
+            pending.sort_by_key(|(_, strand)| std::cmp::Reverse(strand.start));
+            let Some((next_name, mut next_strand)) = pending.pop() else {
+                break;
+            };
+            if let Some((this_name, mut this_strand)) = current.take() {
+                let handoff = self.configs[&this_name].scheduler.map(|cfg| cfg.handoff);
+                if this_strand.end >= next_strand.start {
+                    match handoff {
+                        Some(Handoff::Greedy) => {
+                            // Change the start time of the next strand because the current one is greedy.
+                            next_strand.start = this_strand.end + built_cfg[&next_name].sampling;
+                            if next_strand.start <= next_strand.end {
+                                info!(
+                                    "Greedy handoff for {this_name}: {next_name} delayed to {}",
+                                    next_strand.start
+                                );
+                                pending.push((next_name, next_strand));
+                            } else {
+                                info!("Greedy handoff for {this_name}: {next_name} skipped");
+                            }
+                            current = Some((this_name, this_strand));
+                            continue;
+                        }
+                        Some(Handoff::Eager) => {
+                            this_strand.end = next_strand.start - built_cfg[&this_name].sampling;
+                            info!(
+                                "Eager handoff for {this_name}: {this_name} terminated at {}",
+                                this_strand.end
+                            );
+                        }
+                        _ => {}
                     }
-                } else {
-                    // Reached the end
-                    break;
+                }
+                if this_strand.start <= this_strand.end {
+                    planned.push((this_name, this_strand));
                 }
             }
+            current = Some((next_name, next_strand));
+        }
+        planned.extend(current);
+        for (name, strand) in planned {
+            built_cfg
+                .get_mut(&name)
+                .unwrap()
+                .strands
+                .as_mut()
+                .unwrap()
+                .push(strand);
         }
 
         Ok(built_cfg)
-- 
2.43.0


From 1741d2a57981dafd894b4f4432dd582e72738de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:29 +0000
Subject: [PATCH 29/91] fix: a tracking configuration without a positive
 sampling is an error

---
 nyx-core/src/od/simulator/arc.rs       | 7 +++++++
 nyx-core/src/od/simulator/trkconfig.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/od/simulator/arc.rs b/nyx-core/src/od/simulator/arc.rs
index df66f62..b267794 100644
--- a/nyx-core/src/od/simulator/arc.rs
+++ b/nyx-core/src/od/simulator/arc.rs
@@ -193,6 +193,13 @@ where
                     }
                 }
 
+                if cfg.sampling <= Duration::ZERO {
+                    // There is no end to such a time series.
+                    return Err(ConfigError::InvalidConfig {
+                        msg: format!("sampling of {name} must be positive"),
+                    });
+                }
+
                 let init_msr_count = measurements.len();
                 let tick = Epoch::now().unwrap();
 
diff --git a/nyx-core/src/od/simulator/trkconfig.rs b/nyx-core/src/od/simulator/trkconfig.rs
index dda20a8..b68eb42 100644
--- a/nyx-core/src/od/simulator/trkconfig.rs
+++ b/nyx-core/src/od/simulator/trkconfig.rs
@@ -181,7 +181,11 @@ impl TrkConfig {
 
     /// Check that the configuration is valid: a successful call means that either we have a set of tracking strands or we have a valid scheduler
     pub(crate) fn sanity_check(&self) -> Result<(), ConfigError> {
-        if self.strands.is_some() && self.scheduler.is_some() {
+        if self.sampling <= Duration::ZERO {
+            return Err(ConfigError::InvalidConfig {
+                msg: format!("Sampling must be positive but is {}", self.sampling),
+            });
+        } else if self.strands.is_some() && self.scheduler.is_some() {
             return Err(ConfigError::InvalidConfig {
                 msg:
                     "Both tracking strands and a scheduler are configured, must be one or the other"
-- 
2.43.0


From 9e9eac2aba1a65c8d68c26e632e3ea97d9251bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:03 +0000
Subject: [PATCH 30/91] fix: measurements with different types are not equal,
 and excluding a type leaves no empty measurement

---
 nyx-core/src/od/msr/measurement.rs      |  1 +
 nyx-core/src/od/msr/trackingdata/mod.rs | 12 ++++--------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/msr/measurement.rs b/nyx-core/src/od/msr/measurement.rs
index 0e824b8..77d1a45 100644
--- a/nyx-core/src/od/msr/measurement.rs
+++ b/nyx-core/src/od/msr/measurement.rs
@@ -124,6 +124,7 @@ impl PartialEq for Measurement {
     fn eq(&self, other: &Self) -> bool {
         self.tracker == other.tracker
             && self.epoch == other.epoch
+            && self.data.len() == other.data.len()
             && self.data.iter().all(|(key, &value)| {
                 if let Some(&other_value) = other.data.get(key) {
                     (value - other_value).abs() < 1e-10
diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index 23f6f7a..ad52f0f 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -461,14 +461,10 @@ impl TrackingDataArc {
 
     /// Returns a new tracking arc that contains measurements from all trackers except the one provided
     pub fn exclude_measurement_type(mut self, excluded_type: MeasurementType) -> Self {
-        self.measurements = self
-            .measurements
-            .iter_mut()
-            .map(|msr| {
-                msr.data.retain(|msr_type, _| *msr_type != excluded_type);
-                msr.clone()
-            })
-            .collect::<Vec<Measurement>>();
+        self.measurements.retain_mut(|msr| {
+            msr.data.retain(|msr_type, _| *msr_type != excluded_type);
+            !msr.data.is_empty()
+        });
         self
     }
 
-- 
2.43.0


From c5307775368fac46bda7a267835fc04f3f357cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:41 +0000
Subject: [PATCH 31/91] fix: downsampling treats each tracker on its own and
 keeps the moduli and rejections

---
 nyx-core/src/od/msr/trackingdata/mod.rs | 119 +++++++++++++++---------
 1 file changed, 73 insertions(+), 46 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/mod.rs b/nyx-core/src/od/msr/trackingdata/mod.rs
index ad52f0f..f163676 100644
--- a/nyx-core/src/od/msr/trackingdata/mod.rs
+++ b/nyx-core/src/od/msr/trackingdata/mod.rs
@@ -218,59 +218,31 @@ impl TrackingDataArc {
         if self.is_empty() {
             return self.clone();
         }
-        let current_step = self.min_duration_sep().unwrap();
-
-        if current_step >= target_step {
-            warn!(
-                "cannot downsample tracking data from {current_step} to {target_step} (that would be upsampling)"
-            );
-            return self.clone();
-        }
-
-        let current_hz = 1.0 / current_step.to_seconds();
-        let target_hz = 1.0 / target_step.to_seconds();
-
-        // Simple moving average as low-pass filter
-        let window_size = (current_hz / target_hz).round() as usize;
-
-        info!(
-            "downsampling tracking data from {current_step} ({current_hz:.6} Hz) to {target_step} ({target_hz:.6} Hz) (N = {window_size})"
-        );
 
         let mut result = TrackingDataArc {
             source: self.source.clone(),
+            moduli: self.moduli.clone(),
+            force_reject: self.force_reject,
             ..Default::default()
         };
 
-        let measurements: Vec<_> = self.measurements.iter().collect();
-
-        for (i, msr) in measurements.iter().enumerate().step_by(window_size) {
-            let epoch = msr.epoch;
-            let start = i.saturating_sub(window_size / 2);
-            let end = (i + window_size / 2 + 1).min(measurements.len());
-            let window = &measurements[start..end];
-
-            let mut filtered_measurement = Measurement {
-                tracker: window[0].tracker.clone(),
-                epoch,
-                data: IndexMap::new(),
-                rejected: false,
-            };
-
-            // Apply moving average filter for each measurement type
-            for mtype in self.unique_types() {
-                let sum: f64 = window.iter().filter_map(|m| m.data.get(&mtype)).sum();
-                let count = window
-                    .iter()
-                    .filter(|m| m.data.contains_key(&mtype))
-                    .count();
-
-                if count > 0 {
-                    filtered_measurement.data.insert(mtype, sum / count as f64);
-                }
+        // Filter each tracker on its own: several trackers may measure at the same epoch, and the rejected measurements
+        // must not affect the others.
+        for tracker in self.unique_aliases() {
+            for rejected in [false, true] {
+                let subset = TrackingDataArc {
+                    measurements: self
+                        .measurements
+                        .iter()
+                        .filter(|msr| msr.tracker == tracker && msr.rejected == rejected)
+                        .cloned()
+                        .collect(),
+                    ..Default::default()
+                };
+                result
+                    .measurements
+                    .extend(subset.downsample_tracker(target_step));
             }
-
-            result.measurements.push(filtered_measurement);
         }
         result.sort();
         result
@@ -319,6 +291,61 @@ impl TrackingDataArc {
 }
 
 impl TrackingDataArc {
+    /// Downsamples the measurements of this arc, which must all be from the same tracker.
+    fn downsample_tracker(&self, target_step: Duration) -> Vec<Measurement> {
+        let Some(current_step) = self.min_duration_sep() else {
+            return Vec::new();
+        };
+
+        if current_step >= target_step {
+            warn!(
+                "cannot downsample tracking data from {current_step} to {target_step} (that would be upsampling)"
+            );
+            return self.measurements.clone();
+        }
+
+        let current_hz = 1.0 / current_step.to_seconds();
+        let target_hz = 1.0 / target_step.to_seconds();
+
+        // Simple moving average as low-pass filter
+        let window_size = (current_hz / target_hz).round() as usize;
+
+        info!(
+            "downsampling tracking data from {current_step} ({current_hz:.6} Hz) to {target_step} ({target_hz:.6} Hz) (N = {window_size})"
+        );
+
+        let mut result = Vec::new();
+
+        for (i, msr) in self.measurements.iter().enumerate().step_by(window_size) {
+            let start = i.saturating_sub(window_size / 2);
+            let end = (i + window_size / 2 + 1).min(self.measurements.len());
+            let window = &self.measurements[start..end];
+
+            let mut filtered_measurement = Measurement {
+                tracker: msr.tracker.clone(),
+                epoch: msr.epoch,
+                data: IndexMap::new(),
+                rejected: msr.rejected,
+            };
+
+            // Apply moving average filter for each measurement type
+            for mtype in self.unique_types() {
+                let sum: f64 = window.iter().filter_map(|m| m.data.get(&mtype)).sum();
+                let count = window
+                    .iter()
+                    .filter(|m| m.data.contains_key(&mtype))
+                    .count();
+
+                if count > 0 {
+                    filtered_measurement.data.insert(mtype, sum / count as f64);
+                }
+            }
+
+            result.push(filtered_measurement);
+        }
+        result
+    }
+
     /// Helper method to resolve bounds into slice indices via binary search.
     fn resolve_bounds<R: RangeBounds<Epoch>>(&self, bound: R) -> (usize, usize) {
         // Find the lower bound index via O(log N) binary search
-- 
2.43.0


From 9e0c09fecb2af9897bf50d50c05ae2b79b4fd946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:24 +0000
Subject: [PATCH 32/91] fix: a tracking arc read from parquet has no zeros for
 missing data and malformed files are errors

---
 .../src/od/msr/trackingdata/io_parquet.rs     | 67 ++++++++++---------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 781392a..8217e98 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -16,7 +16,9 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
 use crate::io::watermark::pq_writer;
-use crate::io::{ArrowSnafu, InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
+use crate::io::{
+    ArrowSnafu, InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu, UnsupportedDataSnafu,
+};
 use crate::io::{EmptyDatasetSnafu, ExportCfg};
 use crate::od::msr::{Measurement, MeasurementType};
 use arrow::array::{Array, Float64Builder, StringBuilder};
@@ -32,7 +34,7 @@ use indexmap::IndexMap;
 use log::{info, warn};
 use parquet::arrow::ArrowWriter;
 use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
-use snafu::{ResultExt, ensure};
+use snafu::{OptionExt, ResultExt, ensure};
 use std::collections::HashMap;
 use std::fs::File;
 use std::path::{Path, PathBuf};
@@ -48,7 +50,9 @@ impl TrackingDataArc {
         let file = File::open(&path).context(StdIOSnafu {
             action: "opening file for tracking arc",
         })?;
-        let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+        let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+            action: "opening tracking arc",
+        })?;
 
         let reader = builder.build().context(ParquetSnafu {
             action: "reading tracking arc",
@@ -107,14 +111,18 @@ impl TrackingDataArc {
                 .unwrap()
                 .as_any()
                 .downcast_ref::<StringArray>()
-                .unwrap();
+                .context(UnsupportedDataSnafu {
+                    which: "`Tracking device` is not a string column",
+                })?;
 
             let epochs = batch
                 .column_by_name("Epoch (UTC)")
                 .unwrap()
                 .as_any()
                 .downcast_ref::<StringArray>()
-                .unwrap();
+                .context(UnsupportedDataSnafu {
+                    which: "`Epoch (UTC)` is not a string column",
+                })?;
 
             let range_data: Option<&PrimitiveArray<datatypes::Float64Type>> = if range_avail {
                 Some(
@@ -123,7 +131,9 @@ impl TrackingDataArc {
                         .unwrap()
                         .as_any()
                         .downcast_ref::<Float64Array>()
-                        .unwrap(),
+                        .context(UnsupportedDataSnafu {
+                            which: "`Range (km)` is not a float column",
+                        })?,
                 )
             } else {
                 None
@@ -136,7 +146,9 @@ impl TrackingDataArc {
                         .unwrap()
                         .as_any()
                         .downcast_ref::<Float64Array>()
-                        .unwrap(),
+                        .context(UnsupportedDataSnafu {
+                            which: "`Doppler (km/s)` is not a float column",
+                        })?,
                 )
             } else {
                 None
@@ -149,7 +161,9 @@ impl TrackingDataArc {
                         .unwrap()
                         .as_any()
                         .downcast_ref::<Float64Array>()
-                        .unwrap(),
+                        .context(UnsupportedDataSnafu {
+                            which: "`Azimuth (deg)` is not a float column",
+                        })?,
                 )
             } else {
                 None
@@ -162,7 +176,9 @@ impl TrackingDataArc {
                         .unwrap()
                         .as_any()
                         .downcast_ref::<Float64Array>()
-                        .unwrap(),
+                        .context(UnsupportedDataSnafu {
+                            which: "`Elevation (deg)` is not a float column",
+                        })?,
                 )
             } else {
                 None
@@ -183,28 +199,17 @@ impl TrackingDataArc {
                     rejected: false,
                 };
 
-                if range_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Range, range_data.unwrap().value(i));
-                }
-
-                if doppler_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Doppler, doppler_data.unwrap().value(i));
-                }
-
-                if az_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Azimuth, azimuth_data.unwrap().value(i));
-                }
-
-                if el_avail {
-                    measurement
-                        .data
-                        .insert(MeasurementType::Elevation, elevation_data.unwrap().value(i));
+                for (msr_type, column) in [
+                    (MeasurementType::Range, range_data),
+                    (MeasurementType::Doppler, doppler_data),
+                    (MeasurementType::Azimuth, azimuth_data),
+                    (MeasurementType::Elevation, elevation_data),
+                ] {
+                    if let Some(data) = column
+                        && data.is_valid(i)
+                    {
+                        measurement.data.insert(msr_type, data.value(i));
+                    }
                 }
 
                 measurements.push(measurement);
-- 
2.43.0


From 5448329352b76920347008910e595b0ada823f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:24 +0000
Subject: [PATCH 33/91] fix: exporting tracking data includes the end epoch, as
 it does by default

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 4 ++--
 nyx-core/src/od/msr/trackingdata/io_parquet.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 9b6285e..6ae42f8 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -431,12 +431,12 @@ impl TrackingDataArc {
         // Filter epochs if needed.
         if let Some(start_epoch) = cfg.start_epoch {
             if let Some(end_epoch) = cfg.end_epoch {
-                self = self.filter_by_epoch(start_epoch..end_epoch);
+                self = self.filter_by_epoch(start_epoch..=end_epoch);
             } else {
                 self = self.filter_by_epoch(start_epoch..);
             }
         } else if let Some(end_epoch) = cfg.end_epoch {
-            self = self.filter_by_epoch(..end_epoch);
+            self = self.filter_by_epoch(..=end_epoch);
         }
 
         let tick = Epoch::now().unwrap();
diff --git a/nyx-core/src/od/msr/trackingdata/io_parquet.rs b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
index 8217e98..1604a5f 100644
--- a/nyx-core/src/od/msr/trackingdata/io_parquet.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_parquet.rs
@@ -280,7 +280,7 @@ impl TrackingDataArc {
 
                 info!("Exporting measurements from {start} to {end}.");
 
-                self.clone().filter_by_epoch(start..end).measurements
+                self.clone().filter_by_epoch(start..=end).measurements
             } else {
                 self.measurements.clone()
             };
-- 
2.43.0


From c1c6890dd5cb6ebccb737a5e23f5264c940dde3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:27 +0000
Subject: [PATCH 34/91] fix: the epochs of an exported TDM are in UTC, as its
 TIME_SYSTEM says

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 6ae42f8..89c89a1 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -516,13 +516,21 @@ impl TrackingDataArc {
                 writeln!(
                     writer,
                     "\tSTART_TIME = {}",
-                    Formatter::new(tracker_data.start_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::to_time_scale(
+                        tracker_data.start_epoch().unwrap(),
+                        iso8601_no_ts,
+                        TimeScale::UTC
+                    )
                 )
                 .map_err(err_hdlr)?;
                 writeln!(
                     writer,
                     "\tSTOP_TIME = {}",
-                    Formatter::new(tracker_data.end_epoch().unwrap(), iso8601_no_ts)
+                    Formatter::to_time_scale(
+                        tracker_data.end_epoch().unwrap(),
+                        iso8601_no_ts,
+                        TimeScale::UTC
+                    )
                 )
                 .map_err(err_hdlr)?;
 
@@ -593,7 +601,7 @@ impl TrackingDataArc {
                             writer,
                             "\t{:<20} = {:<23}\t{:.12}",
                             mtype.ccsds_tdm_name(),
-                            Formatter::new(m.epoch, iso8601_no_ts),
+                            Formatter::to_time_scale(m.epoch, iso8601_no_ts, TimeScale::UTC),
                             value * multiplier
                         )
                         .map_err(err_hdlr)?;
-- 
2.43.0


From 47b5672a5b7adc8be51f486cc55cdcec440b4310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:29 +0000
Subject: [PATCH 35/91] fix: disperse Cr, Cd and propellant mass by their
 standard deviation in their own slot

The variances were set from the mean, one slot too far: Cr dispersed Cd, Cd
dispersed the propellant mass, and the masses indexed past the matrix and panicked.
The dry mass is not part of the state vector and is now reported as read only.
---
 nyx-core/src/mc/multivariate.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index b3dbef8..353bb4e 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -168,13 +168,16 @@ impl MvnSpacecraft {
                 } else {
                     match disp.param {
                         StateParameter::Cr() => {
-                            cov[(7, 7)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(6, 6)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[6] = disp.mean.unwrap_or(0.0);
                         }
                         StateParameter::Cd() => {
-                            cov[(8, 8)] = disp.mean.unwrap_or(0.0).powi(2);
+                            cov[(7, 7)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[7] = disp.mean.unwrap_or(0.0);
                         }
-                        StateParameter::DryMass() | StateParameter::PropMass() => {
-                            cov[(9, 9)] = disp.mean.unwrap_or(0.0).powi(2);
+                        StateParameter::PropMass() => {
+                            cov[(8, 8)] = disp.std_dev.unwrap_or(0.0).powi(2);
+                            mean[8] = disp.mean.unwrap_or(0.0);
                         }
                         _ => return Err(Box::new(StateError::ReadOnly { param: disp.param })),
                     }
-- 
2.43.0


From 3ca74201ea85a02d4e37bb3bc010e3b950ac11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:29 +0000
Subject: [PATCH 36/91] fix: report actual dispersions as drawn state minus
 template

As documented on DispersedState: template + actual dispersions = state.
---
 nyx-core/src/mc/multivariate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 353bb4e..a5396f1 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -323,7 +323,7 @@ impl Distribution<DispersedState<Spacecraft>> for MvnSpacecraft {
         let mut actual_dispersions = Vec::new();
         for disp in &self.dispersions {
             // Compute the delta
-            let delta = self.template.value(disp.param).unwrap() - state.value(disp.param).unwrap();
+            let delta = state.value(disp.param).unwrap() - self.template.value(disp.param).unwrap();
             actual_dispersions.push((disp.param, delta));
         }
 
-- 
2.43.0


From 8a99519b8bf6931b5a2914b198e14e61c24a9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:29 +0000
Subject: [PATCH 37/91] fix: dispersions built from a covariance hold standard
 deviations, not variances

---
 nyx-core/src/mc/multivariate.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index a5396f1..47c78a5 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -252,39 +252,39 @@ impl MvnSpacecraft {
         let dispersions = vec![
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::X))
-                .std_dev(cov[(0, 0)])
+                .std_dev(cov[(0, 0)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Y))
-                .std_dev(cov[(1, 1)])
+                .std_dev(cov[(1, 1)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::Z))
-                .std_dev(cov[(2, 2)])
+                .std_dev(cov[(2, 2)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VX))
-                .std_dev(cov[(3, 3)])
+                .std_dev(cov[(3, 3)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VY))
-                .std_dev(cov[(4, 4)])
+                .std_dev(cov[(4, 4)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Element(OrbitalElement::VZ))
-                .std_dev(cov[(5, 5)])
+                .std_dev(cov[(5, 5)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cr())
-                .std_dev(cov[(6, 6)])
+                .std_dev(cov[(6, 6)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::Cd())
-                .std_dev(cov[(7, 7)])
+                .std_dev(cov[(7, 7)].sqrt())
                 .build(),
             StateDispersion::builder()
                 .param(StateParameter::PropMass())
-                .std_dev(cov[(8, 8)])
+                .std_dev(cov[(8, 8)].sqrt())
                 .build(),
         ];
 
-- 
2.43.0


From 08445fddece29a77dbbfacfc4a2d71b3b1a92eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:38 +0000
Subject: [PATCH 38/91] fix: export the RIC covariance rotated into the RIC
 frame

---
 nyx-core/src/od/process/solution/export.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 08bd7d6..90931a2 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -429,19 +429,20 @@ where
         let mut ric_covariances = Vec::new();
 
         for s in &estimates {
-            let dcm_ric2inertial = s
+            let dcm_inertial2ric = s
                 .state()
                 .orbit()
                 .dcm_from_ric_to_inertial()
                 .unwrap()
+                .transpose()
                 .state_dcm();
 
             // Build the matrix view of the orbit part of the covariance.
             let cov = s.covar();
             let orbit_cov = cov.fixed_view::<6, 6>(0, 0);
 
-            // Rotate back into the RIC frame
-            let ric_covar = dcm_ric2inertial * orbit_cov * dcm_ric2inertial.transpose();
+            // Rotate from the inertial frame into the RIC frame
+            let ric_covar = dcm_inertial2ric * orbit_cov * dcm_inertial2ric.transpose();
             ric_covariances.push(ric_covar);
         }
 
-- 
2.43.0


From 4bda10f87f23ab6d6bf2f0df12585c2d369d0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:42 +0000
Subject: [PATCH 39/91] fix: export every Monte Carlo run over its own epochs,
 not those of the first run

---
 nyx-core/src/mc/results.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/mc/results.rs b/nyx-core/src/mc/results.rs
index 52f06a3..78bd252 100644
--- a/nyx-core/src/mc/results.rs
+++ b/nyx-core/src/mc/results.rs
@@ -284,8 +284,11 @@ where
                 let states =
                     if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                         // Must interpolate the data!
-                        let start = cfg.start_epoch.unwrap_or_else(|| start.unwrap());
-                        let end = cfg.end_epoch.unwrap_or_else(|| end.unwrap());
+                        // The default bounds are those of this run: each may start and end at different epochs.
+                        let start = cfg
+                            .start_epoch
+                            .unwrap_or_else(|| success.traj.first().epoch());
+                        let end = cfg.end_epoch.unwrap_or_else(|| success.traj.last().epoch());
                         let step = cfg.step.unwrap_or_else(|| 1.minutes());
                         success
                             .traj
-- 
2.43.0


From 9fba0eb11c8d1162ebb188f14200667c2480ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:52 +0000
Subject: [PATCH 40/91] fix: a dispersed estimate deviates from its nominal
 state toward the dispersed state

The deviation was the nominal minus the dispersed state, so the estimate (nominal
plus deviation) was the mirror image of the drawn state.
---
 nyx-core/src/od/estimate/kfestimate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/estimate/kfestimate.rs b/nyx-core/src/od/estimate/kfestimate.rs
index b37fd61..07e76fe 100644
--- a/nyx-core/src/od/estimate/kfestimate.rs
+++ b/nyx-core/src/od/estimate/kfestimate.rs
@@ -119,7 +119,7 @@ impl KfEstimate<Spacecraft> {
         let dispersed_state = generator.sample(&mut rng);
 
         // Compute the difference between both states
-        let delta_orbit = (nominal_state.orbit - dispersed_state.state.orbit).unwrap();
+        let delta_orbit = (dispersed_state.state.orbit - nominal_state.orbit).unwrap();
 
         let state_deviation = [
             delta_orbit.radius_km.x,
@@ -128,9 +128,9 @@ impl KfEstimate<Spacecraft> {
             delta_orbit.velocity_km_s.x,
             delta_orbit.velocity_km_s.y,
             delta_orbit.velocity_km_s.z,
-            (nominal_state.srp.coeff_reflectivity - dispersed_state.state.srp.coeff_reflectivity),
-            (nominal_state.drag.coeff_drag - dispersed_state.state.drag.coeff_drag),
-            (nominal_state.mass.prop_mass_kg - dispersed_state.state.mass.prop_mass_kg),
+            (dispersed_state.state.srp.coeff_reflectivity - nominal_state.srp.coeff_reflectivity),
+            (dispersed_state.state.drag.coeff_drag - nominal_state.drag.coeff_drag),
+            (dispersed_state.state.mass.prop_mass_kg - nominal_state.mass.prop_mass_kg),
         ];
 
         // Build the covariance as three times the absolute value of the error, squared.
-- 
2.43.0


From 217919dd374ce770b846405431b79364876a9a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:35 +0000
Subject: [PATCH 41/91] fix: accept B-plane dispersions, as documented

is_orbital() does not cover the B-plane parameters, so their dispersions were
rejected as read only although their partials are computed.
---
 nyx-core/src/mc/multivariate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 47c78a5..217c887 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -99,7 +99,7 @@ impl MvnSpacecraft {
 
         let num_orbital = dispersions
             .iter()
-            .filter(|disp| disp.param.is_orbital())
+            .filter(|disp| disp.param.is_orbital() || disp.param.is_b_plane())
             .count();
 
         if num_orbital > 0 {
@@ -111,7 +111,7 @@ impl MvnSpacecraft {
 
             for (rno, disp) in dispersions
                 .iter()
-                .filter(|d| d.param.is_orbital())
+                .filter(|d| d.param.is_orbital() || d.param.is_b_plane())
                 .enumerate()
             {
                 let partial = if let StateParameter::Element(oe) = disp.param {
@@ -163,7 +163,7 @@ impl MvnSpacecraft {
 
         if dispersions.len() > num_orbital {
             for disp in &dispersions {
-                if disp.param.is_orbital() {
+                if disp.param.is_orbital() || disp.param.is_b_plane() {
                     continue;
                 } else {
                     match disp.param {
-- 
2.43.0


From 5a1b5e3e55b8eff5ba10d43d90a88bce4b77e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:29 +0000
Subject: [PATCH 42/91] fix: accept covariances that are positive semi definite
 to rounding

A rank deficient covariance, e.g. a zero sigma in a rotated local frame, was rejected, and to_estimate_randomized panicked on it.
---
 nyx-core/src/mc/multivariate.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 217c887..812f082 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -225,17 +225,15 @@ impl MvnSpacecraft {
         cov: SMatrix<f64, 9, 9>,
         mean: SVector<f64, 9>,
     ) -> Result<Self, Box<NyxError>> {
-        // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil
-        match cov.eigenvalues() {
-            None => return Err(Box::new(NyxError::CovarianceMatrixNotPsd)),
-            Some(evals) => {
-                for eigenval in &evals {
-                    if *eigenval < 0.0 {
-                        return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
-                    }
-                }
+        // Check that covariance is PSD by ensuring that all the eigenvalues are positive or nil, to rounding:
+        // the nil eigenvalues of a rank deficient covariance may be computed as tiny negative numbers.
+        let evals = cov.symmetric_eigenvalues();
+        let tol = 1e-12 * evals.amax();
+        for eigenval in &evals {
+            if eigenval.is_nan() || *eigenval < -tol {
+                return Err(Box::new(NyxError::CovarianceMatrixNotPsd));
             }
-        };
+        }
 
         let svd = cov.svd_unordered(false, true);
         if svd.v_t.is_none() {
-- 
2.43.0


From ac7237bf2d4c98663a00633fd2b3f65c1cb8c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:47 +0000
Subject: [PATCH 43/91] fix: map orbital dispersions into Cartesian space with
 an SVD pseudo inverse

The explicit inverse of J*J^T lost so much precision that e.g. dispersing INC, RAAN,
AoP and TA together yielded deviations wrong by tens of percent.
---
 nyx-core/src/mc/multivariate.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/mc/multivariate.rs b/nyx-core/src/mc/multivariate.rs
index 812f082..a1acb1e 100644
--- a/nyx-core/src/mc/multivariate.rs
+++ b/nyx-core/src/mc/multivariate.rs
@@ -20,8 +20,8 @@ use super::{DispersedState, StateDispersion};
 use crate::cosmic::AstroPhysicsSnafu;
 use crate::errors::StateError;
 use crate::md::prelude::BPlane;
-use crate::md::{AstroSnafu, StateParameter};
-use crate::{NyxError, Spacecraft, State, pseudo_inverse};
+use crate::md::{AstroSnafu, StateParameter, TargetingError};
+use crate::{NyxError, Spacecraft, State};
 use anise::analysis::prelude::OrbitalElement;
 use anise::astro::orbit_gradient::OrbitGrad;
 use nalgebra::{DMatrix, DVector, SMatrix, SVector};
@@ -147,7 +147,15 @@ impl MvnSpacecraft {
 
             // Now that we have the Jacobian that rotates from the Cartesian elements to the dispersions parameters,
             // let's compute the inverse of this Jacobian to rotate from the dispersion params into the Cartesian elements.
-            let jac_inv = pseudo_inverse!(&jac)?;
+            // The normal equations square the condition number, which mixing position and velocity partials already makes large,
+            // so build this inverse from the SVD instead.
+            let svd = jac.svd(true, true);
+            if svd.singular_values.min() <= 1e-13 * svd.singular_values.max() {
+                return Err(Box::new(TargetingError::SingularJacobian));
+            }
+            let jac_inv = svd
+                .pseudo_inverse(0.0)
+                .map_err(|_| TargetingError::SingularJacobian)?;
 
             // Rotate the orbital covariance back into the Cartesian state space, making this a 6x6.
             let orbit_cov = &jac_inv * &covar * jac_inv.transpose();
-- 
2.43.0


From 4d6fdf2218459d32bd2c1555b8f6098a110707a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:57 +0000
Subject: [PATCH 44/91] fix: keep the local frame of targeter corrections at
 the correction point

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 52 +++++++--------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 08af3b7..d2e832b 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -66,6 +66,20 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
         debug!("initial_state = {initial_state}");
         debug!("xi_start = {xi_start}");
 
+        // The corrections in a local frame are all expressed in that frame at the correction point, because the
+        // total correction is applied to that state.
+        let dcm_correction = match self.correction_frame {
+            Some(frame) => Some(
+                xi_start
+                    .orbit
+                    .dcm_to_inertial(frame)
+                    .context(AstroPhysicsSnafu)
+                    .context(AstroSnafu)?
+                    .rot_mat,
+            ),
+            None => None,
+        };
+
         let mut xi = xi_start;
         // We'll store the initial state correction here.
         let mut state_correction = Vector6::<f64>::zeros();
@@ -179,14 +193,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
 
         // Apply the accumulated initial guess to xi (once, after the loop)
         if !finite_burn_target {
-            if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
-                    .orbit
-                    .dcm_to_inertial(frame)
-                    .context(AstroPhysicsSnafu)
-                    .context(AstroSnafu)?
-                    .rot_mat;
-
+            if let Some(dcm_vnc2inertial) = dcm_correction {
                 let velocity_correction = dcm_vnc2inertial * state_correction.fixed_rows::<3>(3);
                 xi.orbit.apply_dv_km_s(velocity_correction);
             } else {
@@ -428,16 +435,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         let mut state_correction = Vector6::<f64>::zeros();
                         state_correction[var.component.vec_index()] += var.perturbation;
                         // Now, let's apply the correction to the initial state
-                        if let Some(frame) = self.correction_frame {
-                            // The following will error if the frame is not local
-                            let dcm_vnc2inertial = this_xi
-                                .orbit
-                                .dcm_to_inertial(frame)
-                                .context(AstroPhysicsSnafu)
-                                .context(AstroSnafu)
-                                .unwrap()
-                                .rot_mat;
-
+                        if let Some(dcm_vnc2inertial) = dcm_correction {
                             let velocity_correction =
                                 dcm_vnc2inertial * state_correction.fixed_rows::<3>(3);
                             this_xi.orbit.apply_dv_km_s(velocity_correction);
@@ -544,14 +542,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     }
                 }
                 // Now, let's apply the correction to the initial state
-                if let Some(frame) = self.correction_frame {
-                    let dcm_vnc2inertial = corrected_state
-                        .orbit
-                        .dcm_to_inertial(frame)
-                        .context(AstroPhysicsSnafu)
-                        .context(AstroSnafu)?
-                        .rot_mat;
-
+                if let Some(dcm_vnc2inertial) = dcm_correction {
                     let velocity_correction =
                         dcm_vnc2inertial * state_correction.fixed_rows::<3>(3);
                     corrected_state.orbit.apply_dv_km_s(velocity_correction);
@@ -720,14 +711,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             }
 
             // Now, let's apply the correction to the initial state
-            if let Some(frame) = self.correction_frame {
-                let dcm_vnc2inertial = xi
-                    .orbit
-                    .dcm_to_inertial(frame)
-                    .context(AstroPhysicsSnafu)
-                    .context(AstroSnafu)?
-                    .rot_mat;
-
+            if let Some(dcm_vnc2inertial) = dcm_correction {
                 let velocity_correction = dcm_vnc2inertial * state_correction.fixed_rows::<3>(3);
                 xi.orbit.apply_dv_km_s(velocity_correction);
             } else {
-- 
2.43.0


From dc2c7f87f80072df0a1ddea918d6c78205aa4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:00 +0000
Subject: [PATCH 45/91] fix: bound the targeter variables and not each of their
 steps

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 7 +++----
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 6 ++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index d2e832b..8268b1f 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -701,11 +701,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     // Choose the minimum step between the provided max step and the correction.
                     if delta[i].abs() > var.max_step.abs() {
                         delta[i] = var.max_step.abs() * delta[i].signum();
-                    } else if delta[i] > var.max_value {
-                        delta[i] = var.max_value;
-                    } else if delta[i] < var.min_value {
-                        delta[i] = var.min_value;
                     }
+                    // The bounds are on the variable itself, i.e. on its total correction.
+                    delta[i] =
+                        var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
                     state_correction[var.component.vec_index()] += delta[i];
                 }
             }
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 8705161..538bebd 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -300,11 +300,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                 // Choose the minimum step between the provided max step and the correction.
                 if delta[i].abs() > var.max_step {
                     delta[i] = var.max_step * delta[i].signum();
-                } else if delta[i] > var.max_value {
-                    delta[i] = var.max_value;
-                } else if delta[i] < var.min_value {
-                    delta[i] = var.min_value;
                 }
+                // The bounds are on the variable itself, i.e. on its total correction.
+                delta[i] = var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
 
                 info!(
                     "Correction {:?} (element {}): {}",
-- 
2.43.0


From f512b283d6dd977917a9ef867289f675fd4a2baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:08 +0000
Subject: [PATCH 46/91] fix: reject unsupported targeter objectives instead of
 panicking

---
 nyx-core/src/md/mod.rs                      |  3 +++
 nyx-core/src/md/opti/raphson_finite_diff.rs | 13 +++++++++----
 nyx-core/src/md/opti/raphson_hyperdual.rs   | 12 ++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/mod.rs b/nyx-core/src/md/mod.rs
index 9a50a80..887a999 100644
--- a/nyx-core/src/md/mod.rs
+++ b/nyx-core/src/md/mod.rs
@@ -77,6 +77,9 @@ pub enum TargetingError {
     /// Raised if the targeted was configured with a variable that isn't supported (e.g. a maneuver alpha variable in the multiple shooting)
     #[snafu(display("Unsupported variable in problem: {var}"))]
     UnsupportedVariable { var: String },
+    /// Raised if the targeter was configured with an objective that is not a parameter of the orbit
+    #[snafu(display("Unsupported objective in problem: {obj}"))]
+    UnsupportedObjective { obj: String },
     #[snafu(display("Verification of targeting solution failed: {msg}"))]
     Verification { msg: String },
     #[snafu(display("astro error during targeting: {source}"))]
diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 8268b1f..cdbbb89 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -51,7 +51,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
         for obj in &self.objectives {
             if obj.parameter.is_b_plane() {
                 is_bplane_tgt = true;
-                break;
+            } else if !obj.parameter.is_orbital() {
+                return Err(TargetingError::UnsupportedObjective {
+                    obj: obj.parameter.to_string(),
+                });
             }
         }
 
@@ -115,6 +118,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             var.valid()?;
             // Check that there is no attempt to target a position in a local frame
             if let Some(correction_frame) = self.correction_frame
+                && !var.component.is_finite_burn()
                 && var.component.vec_index() < 3
             {
                 // Then this is a position correction, which is not allowed if a frame is provided!
@@ -210,8 +214,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             .objectives
             .iter()
             .map(|obj| {
-                obj.desired_value.abs().ceil() as i32
-                    * 10_i32.pow(obj.tolerance.abs().log10().ceil() as u32)
+                (obj.desired_value.abs().ceil() as i32).saturating_mul(
+                    10_i32.saturating_pow(obj.tolerance.abs().log10().ceil() as u32),
+                )
             })
             .max()
             .unwrap();
@@ -219,7 +224,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
         let max_obj_tol = self
             .objectives
             .iter()
-            .map(|obj| obj.tolerance.log10().abs().ceil() as usize)
+            .map(|obj| (obj.tolerance.log10().abs().ceil() as usize).min(20))
             .max()
             .unwrap();
 
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 538bebd..d0be7f5 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -47,7 +47,10 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
         for obj in &self.objectives {
             if obj.parameter.is_b_plane() {
                 is_bplane_tgt = true;
-                break;
+            } else if !obj.parameter.is_orbital() {
+                return Err(TargetingError::UnsupportedObjective {
+                    obj: obj.parameter.to_string(),
+                });
             }
         }
 
@@ -105,8 +108,9 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
             .objectives
             .iter()
             .map(|obj| {
-                obj.desired_value.abs().ceil() as i32
-                    * 10_i32.pow(obj.tolerance.abs().log10().ceil() as u32)
+                (obj.desired_value.abs().ceil() as i32).saturating_mul(
+                    10_i32.saturating_pow(obj.tolerance.abs().log10().ceil() as u32),
+                )
             })
             .max()
             .unwrap();
@@ -114,7 +118,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
         let max_obj_tol = self
             .objectives
             .iter()
-            .map(|obj| obj.tolerance.log10().abs().ceil() as usize)
+            .map(|obj| (obj.tolerance.log10().abs().ceil() as usize).min(20))
             .max()
             .unwrap();
 
-- 
2.43.0


From 9949edfe22548c9b33c1e4033825479ce238dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:11 +0000
Subject: [PATCH 47/91] fix: verify targeter solutions in the frame of the
 objectives

---
 nyx-core/src/md/opti/targeter.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/md/opti/targeter.rs b/nyx-core/src/md/opti/targeter.rs
index 437738d..4143bf8 100644
--- a/nyx-core/src/md/opti/targeter.rs
+++ b/nyx-core/src/md/opti/targeter.rs
@@ -18,7 +18,7 @@
 
 use snafu::ResultExt;
 
-use crate::cosmic::AstroPhysicsSnafu;
+use crate::cosmic::{AstroAlmanacSnafu, AstroPhysicsSnafu};
 use crate::dynamics::guidance::LocalFrame;
 use crate::errors::TargetingError;
 use crate::md::AstroSnafu;
@@ -275,7 +275,7 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 println!("{mnvr}");
                 let mut prop = self.prop.clone();
                 prop.dynamics = prop.dynamics.with_guidance_law(Arc::new(mnvr));
-                prop.with(solution.corrected_state, almanac)
+                prop.with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
@@ -283,14 +283,24 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 // This isn't a finite burn maneuver, let's just apply the correction
                 // Propagate until achievement epoch
                 self.prop
-                    .with(solution.corrected_state, almanac)
+                    .with(solution.corrected_state, almanac.clone())
                     .until_epoch_with_traj(solution.achieved_state.epoch())
                     .context(PropSnafu)?
             }
         };
 
-        // Build the partials
-        let xf_dual = OrbitGrad::from(xf.orbit);
+        // Build the partials, in the objective frame if there is one
+        let xf_dual = match &self.objective_frame {
+            Some(frame) => {
+                let orbit_obj_frame = almanac
+                    .transform_to(xf.orbit, *frame, None)
+                    .context(AstroAlmanacSnafu)
+                    .context(AstroSnafu)?;
+
+                OrbitGrad::from(orbit_obj_frame)
+            }
+            None => OrbitGrad::from(xf.orbit),
+        };
 
         let mut is_bplane_tgt = false;
         for obj in &self.objectives {
@@ -325,9 +335,9 @@ impl<'a, const V: usize, const O: usize> Targeter<'a, V, O> {
                 unreachable!()
             };
 
-            let param_err = obj.desired_value - partial.real();
+            let (ok, param_err) = obj.assess_value(partial.real());
 
-            if param_err.abs() > obj.tolerance {
+            if !ok {
                 converged = false;
             }
             param_errors.push(param_err);
-- 
2.43.0


From ae0fd34e266cb9765c904c6e9489417918d44c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:14 +0000
Subject: [PATCH 48/91] fix: reject the setups that the hyperdual targeter does
 not support

---
 nyx-core/src/md/opti/raphson_hyperdual.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index d0be7f5..73955d9 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -70,8 +70,19 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
         // Store the total correction in a static vector
         let mut total_correction = SVector::<f64, V>::zeros();
 
+        // The corrections are in the integration frame: refuse to solve another problem than the one that was set up
+        if let Some(correction_frame) = self.correction_frame {
+            return Err(TargetingError::FrameError {
+                msg: format!(
+                    "{correction_frame:?} corrections are not supported with hyperdual targeting"
+                ),
+            });
+        }
+
         // Apply the initial guess
         for (i, var) in self.variables.iter().enumerate() {
+            // Check the validity (this function will report to log and raise an error)
+            var.valid()?;
             match var.component {
                 Vary::PositionX => {
                     xi.orbit.radius_km.x += var.init_guess;
-- 
2.43.0


From 765b14b4b043c215638989151c8c4a5985b092cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:17 +0000
Subject: [PATCH 49/91] fix: maneuver angle rates are finite burn variables

---
 nyx-core/src/md/opti/target_variable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/md/opti/target_variable.rs b/nyx-core/src/md/opti/target_variable.rs
index f6d0f3c..39e0d43 100644
--- a/nyx-core/src/md/opti/target_variable.rs
+++ b/nyx-core/src/md/opti/target_variable.rs
@@ -82,10 +82,10 @@ impl Vary {
     #[allow(clippy::nonminimal_bool)]
     pub fn is_finite_burn(&self) -> bool {
         *self == Self::MnvrAlpha
-            || *self == Self::MnvrAlphaDDot
+            || *self == Self::MnvrAlphaDot
             || *self == Self::MnvrAlphaDDot
             || *self == Self::MnvrDelta
-            || *self == Self::MnvrDeltaDDot
+            || *self == Self::MnvrDeltaDot
             || *self == Self::MnvrDeltaDDot
             || *self == Self::StartEpoch
             || *self == Self::Duration
-- 
2.43.0


From 716b8e1937093005e3bd78e8c510bf4f3637939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:20 +0000
Subject: [PATCH 50/91] fix: report targeter failures on a perturbed state as
 errors

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 333 ++++++++++----------
 1 file changed, 169 insertions(+), 164 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index cdbbb89..9d593be 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -340,188 +340,193 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     .map(|(j, var)| (j, var, 0.0_f64))
                     .collect();
 
-                pert_calc.par_iter_mut().for_each(|(_, var, jac_val)| {
-                    let mut this_xi = xi;
-
-                    let mut this_prop = self.prop.clone();
-                    let mut this_mnvr = mnvr;
-
-                    let mut opposed_pert = false;
-
-                    if var.component.is_finite_burn() {
-                        // Modify the burn itself
-                        let pert = var.perturbation;
-                        // Modify the maneuver, but do not change the epochs of the maneuver unless the change is greater than one millisecond
-                        match var.component {
-                            Vary::Duration => {
-                                if pert.abs() > 1e-3 {
-                                    this_mnvr.end = mnvr.start + pert.seconds()
+                pert_calc.par_iter_mut().try_for_each(
+                    |(_, var, jac_val)| -> Result<(), TargetingError> {
+                        let mut this_xi = xi;
+
+                        let mut this_prop = self.prop.clone();
+                        let mut this_mnvr = mnvr;
+
+                        let mut opposed_pert = false;
+
+                        if var.component.is_finite_burn() {
+                            // Modify the burn itself
+                            let pert = var.perturbation;
+                            // Modify the maneuver, but do not change the epochs of the maneuver unless the change is greater than one millisecond
+                            match var.component {
+                                Vary::Duration => {
+                                    if pert.abs() > 1e-3 {
+                                        this_mnvr.end = mnvr.start + pert.seconds()
+                                    }
                                 }
-                            }
-                            Vary::EndEpoch => {
-                                if pert.abs() > 1e-3 {
-                                    this_mnvr.end = mnvr.end + pert.seconds()
+                                Vary::EndEpoch => {
+                                    if pert.abs() > 1e-3 {
+                                        this_mnvr.end = mnvr.end + pert.seconds()
+                                    }
                                 }
-                            }
-                            Vary::StartEpoch => {
-                                if pert.abs() > 1e-3 {
-                                    this_mnvr.start = mnvr.start + pert.seconds()
+                                Vary::StartEpoch => {
+                                    if pert.abs() > 1e-3 {
+                                        this_mnvr.start = mnvr.start + pert.seconds()
+                                    }
                                 }
-                            }
-                            Vary::MnvrAlpha | Vary::MnvrAlphaDot | Vary::MnvrAlphaDDot => {
-                                match mnvr.representation {
-                                    MnvrRepr::Angles { azimuth, elevation } => {
-                                        let azimuth = azimuth
-                                            .add_val_in_order(pert, var.component.vec_index())
-                                            .unwrap();
-                                        this_mnvr.representation =
-                                            MnvrRepr::Angles { azimuth, elevation };
+                                Vary::MnvrAlpha | Vary::MnvrAlphaDot | Vary::MnvrAlphaDDot => {
+                                    match mnvr.representation {
+                                        MnvrRepr::Angles { azimuth, elevation } => {
+                                            let azimuth = azimuth
+                                                .add_val_in_order(pert, var.component.vec_index())
+                                                .unwrap();
+                                            this_mnvr.representation =
+                                                MnvrRepr::Angles { azimuth, elevation };
+                                        }
+                                        _ => unreachable!(),
+                                    };
+                                }
+                                Vary::MnvrDelta | Vary::MnvrDeltaDot | Vary::MnvrDeltaDDot => {
+                                    match mnvr.representation {
+                                        MnvrRepr::Angles { azimuth, elevation } => {
+                                            let elevation = elevation
+                                                .add_val_in_order(pert, var.component.vec_index())
+                                                .unwrap();
+                                            this_mnvr.representation =
+                                                MnvrRepr::Angles { azimuth, elevation };
+                                        }
+                                        _ => unreachable!(),
+                                    };
+                                }
+                                Vary::ThrustX | Vary::ThrustY | Vary::ThrustZ => {
+                                    let mut vector = this_mnvr.direction();
+                                    vector[var.component.vec_index()] += var.perturbation;
+                                    if !var.check_bounds(vector[var.component.vec_index()]).1 {
+                                        // Oops, bound was hit, go the other way
+                                        vector[var.component.vec_index()] -= 2.0 * var.perturbation;
+                                        opposed_pert = true;
                                     }
-                                    _ => unreachable!(),
-                                };
-                            }
-                            Vary::MnvrDelta | Vary::MnvrDeltaDot | Vary::MnvrDeltaDDot => {
-                                match mnvr.representation {
-                                    MnvrRepr::Angles { azimuth, elevation } => {
-                                        let elevation = elevation
-                                            .add_val_in_order(pert, var.component.vec_index())
-                                            .unwrap();
-                                        this_mnvr.representation =
-                                            MnvrRepr::Angles { azimuth, elevation };
+                                    this_mnvr.set_direction(vector).context(GuidanceSnafu)?;
+                                }
+                                Vary::ThrustRateX | Vary::ThrustRateY | Vary::ThrustRateZ => {
+                                    let mut vector = this_mnvr.rate();
+                                    vector[(var.component.vec_index() - 1) % 3] += var.perturbation;
+                                    if !var
+                                        .check_bounds(vector[(var.component.vec_index() - 1) % 3])
+                                        .1
+                                    {
+                                        // Oops, bound was hit, go the other way
+                                        vector[(var.component.vec_index() - 1) % 3] -=
+                                            2.0 * var.perturbation;
+                                        opposed_pert = true;
                                     }
-                                    _ => unreachable!(),
-                                };
-                            }
-                            Vary::ThrustX | Vary::ThrustY | Vary::ThrustZ => {
-                                let mut vector = this_mnvr.direction();
-                                vector[var.component.vec_index()] += var.perturbation;
-                                if !var.check_bounds(vector[var.component.vec_index()]).1 {
-                                    // Oops, bound was hit, go the other way
-                                    vector[var.component.vec_index()] -= 2.0 * var.perturbation;
-                                    opposed_pert = true;
+                                    this_mnvr.set_rate(vector).context(GuidanceSnafu)?;
                                 }
-                                this_mnvr.set_direction(vector).unwrap();
-                            }
-                            Vary::ThrustRateX | Vary::ThrustRateY | Vary::ThrustRateZ => {
-                                let mut vector = this_mnvr.rate();
-                                vector[(var.component.vec_index() - 1) % 3] += var.perturbation;
-                                if !var
-                                    .check_bounds(vector[(var.component.vec_index() - 1) % 3])
-                                    .1
-                                {
-                                    // Oops, bound was hit, go the other way
-                                    vector[(var.component.vec_index() - 1) % 3] -=
-                                        2.0 * var.perturbation;
-                                    opposed_pert = true;
+                                Vary::ThrustAccelX | Vary::ThrustAccelY | Vary::ThrustAccelZ => {
+                                    let mut vector = this_mnvr.accel();
+                                    vector[(var.component.vec_index() - 1) % 3] += var.perturbation;
+                                    if !var
+                                        .check_bounds(vector[(var.component.vec_index() - 1) % 3])
+                                        .1
+                                    {
+                                        // Oops, bound was hit, go the other way
+                                        vector[(var.component.vec_index() - 1) % 3] -=
+                                            2.0 * var.perturbation;
+                                        opposed_pert = true;
+                                    }
+                                    this_mnvr.set_accel(vector).context(GuidanceSnafu)?;
                                 }
-                                this_mnvr.set_rate(vector).unwrap();
-                            }
-                            Vary::ThrustAccelX | Vary::ThrustAccelY | Vary::ThrustAccelZ => {
-                                let mut vector = this_mnvr.accel();
-                                vector[(var.component.vec_index() - 1) % 3] += var.perturbation;
-                                if !var
-                                    .check_bounds(vector[(var.component.vec_index() - 1) % 3])
-                                    .1
-                                {
-                                    // Oops, bound was hit, go the other way
-                                    vector[(var.component.vec_index() - 1) % 3] -=
-                                        2.0 * var.perturbation;
-                                    opposed_pert = true;
+                                Vary::ThrustLevel => {
+                                    this_mnvr.thrust_prct += var.perturbation;
+                                    this_mnvr.thrust_prct = this_mnvr.thrust_prct.clamp(0.0, 1.0);
                                 }
-                                this_mnvr.set_accel(vector).unwrap();
+                                _ => unreachable!(),
                             }
-                            Vary::ThrustLevel => {
-                                this_mnvr.thrust_prct += var.perturbation;
-                                this_mnvr.thrust_prct = this_mnvr.thrust_prct.clamp(0.0, 1.0);
+                        } else {
+                            let mut state_correction = Vector6::<f64>::zeros();
+                            state_correction[var.component.vec_index()] += var.perturbation;
+                            // Now, let's apply the correction to the initial state
+                            if let Some(dcm_vnc2inertial) = dcm_correction {
+                                let velocity_correction =
+                                    dcm_vnc2inertial * state_correction.fixed_rows::<3>(3);
+                                this_xi.orbit.apply_dv_km_s(velocity_correction);
+                            } else {
+                                this_xi = xi + state_correction;
                             }
-                            _ => unreachable!(),
                         }
-                    } else {
-                        let mut state_correction = Vector6::<f64>::zeros();
-                        state_correction[var.component.vec_index()] += var.perturbation;
-                        // Now, let's apply the correction to the initial state
-                        if let Some(dcm_vnc2inertial) = dcm_correction {
-                            let velocity_correction =
-                                dcm_vnc2inertial * state_correction.fixed_rows::<3>(3);
-                            this_xi.orbit.apply_dv_km_s(velocity_correction);
+
+                        let this_xf = if finite_burn_target {
+                            // Propagate normally until start of maneuver
+                            let pre_mnvr = this_prop
+                                .with(cur_xi, almanac.clone())
+                                .until_epoch(this_mnvr.start)
+                                .context(PropSnafu)?;
+                            // Add this maneuver to the dynamics, make sure that we don't over-step this maneuver
+                            let prop_opts = this_prop.opts;
+                            this_prop.set_max_step(this_mnvr.duration());
+                            this_prop.dynamics =
+                                this_prop.dynamics.with_guidance_law(Arc::new(this_mnvr));
+                            let post_mnvr = this_prop
+                                .with(
+                                    pre_mnvr.with_guidance_mode(GuidanceMode::Thrust),
+                                    almanac.clone(),
+                                )
+                                .until_epoch(this_mnvr.end)
+                                .context(PropSnafu)?;
+                            // Reset the propagator options to their previous configuration
+                            this_prop.opts = prop_opts;
+                            // And propagate until the achievement epoch
+                            this_prop
+                                .with(post_mnvr, almanac.clone())
+                                .until_epoch(achievement_epoch)
+                                .context(PropSnafu)?
+                                .orbit
                         } else {
-                            this_xi = xi + state_correction;
-                        }
-                    }
+                            this_prop
+                                .with(this_xi, almanac.clone())
+                                .until_epoch(achievement_epoch)
+                                .context(PropSnafu)?
+                                .orbit
+                        };
 
-                    let this_xf = if finite_burn_target {
-                        // Propagate normally until start of maneuver
-                        let pre_mnvr = this_prop
-                            .with(cur_xi, almanac.clone())
-                            .until_epoch(this_mnvr.start)
-                            .unwrap();
-                        // Add this maneuver to the dynamics, make sure that we don't over-step this maneuver
-                        let prop_opts = this_prop.opts;
-                        this_prop.set_max_step(this_mnvr.duration());
-                        this_prop.dynamics =
-                            this_prop.dynamics.with_guidance_law(Arc::new(this_mnvr));
-                        let post_mnvr = this_prop
-                            .with(
-                                pre_mnvr.with_guidance_mode(GuidanceMode::Thrust),
-                                almanac.clone(),
-                            )
-                            .until_epoch(this_mnvr.end)
-                            .unwrap();
-                        // Reset the propagator options to their previous configuration
-                        this_prop.opts = prop_opts;
-                        // And propagate until the achievement epoch
-                        this_prop
-                            .with(post_mnvr, almanac.clone())
-                            .until_epoch(achievement_epoch)
-                            .unwrap()
-                            .orbit
-                    } else {
-                        this_prop
-                            .with(this_xi, almanac.clone())
-                            .until_epoch(achievement_epoch)
-                            .unwrap()
-                            .orbit
-                    };
+                        let xf_dual_obj_frame = match &self.objective_frame {
+                            Some(frame) => {
+                                let orbit_obj_frame = almanac
+                                    .transform_to(this_xf, *frame, None)
+                                    .context(AstroAlmanacSnafu)
+                                    .context(AstroSnafu)?;
 
-                    let xf_dual_obj_frame = match &self.objective_frame {
-                        Some(frame) => {
-                            let orbit_obj_frame = almanac
-                                .transform_to(this_xf, *frame, None)
-                                .context(AstroAlmanacSnafu)
-                                .context(AstroSnafu)
-                                .unwrap();
+                                OrbitGrad::from(orbit_obj_frame)
+                            }
+                            None => OrbitGrad::from(this_xf),
+                        };
 
-                            OrbitGrad::from(orbit_obj_frame)
-                        }
-                        None => OrbitGrad::from(this_xf),
-                    };
+                        let b_plane = if is_bplane_tgt {
+                            Some(BPlane::from_dual(xf_dual_obj_frame).context(AstroSnafu)?)
+                        } else {
+                            None
+                        };
 
-                    let b_plane = if is_bplane_tgt {
-                        Some(BPlane::from_dual(xf_dual_obj_frame).unwrap())
-                    } else {
-                        None
-                    };
+                        let partial = if obj.parameter.is_b_plane() {
+                            match obj.parameter {
+                                StateParameter::BdotR() => b_plane.unwrap().b_r_km,
+                                StateParameter::BdotT() => b_plane.unwrap().b_t_km,
+                                StateParameter::BLTOF() => b_plane.unwrap().ltof_s,
+                                _ => unreachable!(),
+                            }
+                        } else if let StateParameter::Element(oe) = obj.parameter {
+                            xf_dual_obj_frame
+                                .partial_for(oe)
+                                .context(AstroPhysicsSnafu)
+                                .context(AstroSnafu)?
+                        } else {
+                            unreachable!()
+                        };
 
-                    let partial = if obj.parameter.is_b_plane() {
-                        match obj.parameter {
-                            StateParameter::BdotR() => b_plane.unwrap().b_r_km,
-                            StateParameter::BdotT() => b_plane.unwrap().b_t_km,
-                            StateParameter::BLTOF() => b_plane.unwrap().ltof_s,
-                            _ => unreachable!(),
+                        let this_achieved = partial.real();
+                        *jac_val = (this_achieved - achieved) / var.perturbation;
+                        if opposed_pert {
+                            // We opposed the perturbation to ensure we don't over step a min/max bound
+                            *jac_val = -*jac_val;
                         }
-                    } else if let StateParameter::Element(oe) = obj.parameter {
-                        xf_dual_obj_frame.partial_for(oe).unwrap()
-                    } else {
-                        unreachable!()
-                    };
-
-                    let this_achieved = partial.real();
-                    *jac_val = (this_achieved - achieved) / var.perturbation;
-                    if opposed_pert {
-                        // We opposed the perturbation to ensure we don't over step a min/max bound
-                        *jac_val = -*jac_val;
-                    }
-                });
+                        Ok(())
+                    },
+                )?;
 
                 for (j, var, jac_val) in &pert_calc {
                     // If this is a thrust level, we oppose the value so that the correction can still be positive.
-- 
2.43.0


From d45eead4fcab403ace7435682895cf9ba74611e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:22 +0000
Subject: [PATCH 51/91] fix: do not compound the STM in the batch least squares

---
 nyx-core/src/od/blse/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index d4fd773..050a32e 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -216,10 +216,9 @@ where
                     let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
                     epoch = this_state.epoch();
 
-                    // Grab the STM Phi(t_{i+1}, t_i) from the propagated state's STM.
-                    let step_stm = this_state.stm().expect("STM unavailable");
-                    // Compute the STM Phi(t_{i+1}, t_0) = Phi(t_{i+1}, t_i) * Phi(t_i, t_0)
-                    stm = step_stm * stm;
+                    // The propagator is never reset in this iteration, so the STM is that from the start of the batch,
+                    // i.e. Phi(t_{i+1}, t_0).
+                    stm = this_state.stm().expect("STM unavailable");
 
                     if (epoch - msr_epoch).abs() < self.epoch_precision {
                         // Get the correct tracking device
-- 
2.43.0


From 937e057331b8dbc4968fabc98f09fc698d098e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:37 +0000
Subject: [PATCH 52/91] fix: use the batch least squares measurements at equal
 epochs and at the initial epoch

---
 nyx-core/src/od/blse/mod.rs | 201 ++++++++++++++++++------------------
 1 file changed, 102 insertions(+), 99 deletions(-)

diff --git a/nyx-core/src/od/blse/mod.rs b/nyx-core/src/od/blse/mod.rs
index 050a32e..158e5fe 100644
--- a/nyx-core/src/od/blse/mod.rs
+++ b/nyx-core/src/od/blse/mod.rs
@@ -195,6 +195,7 @@ where
 
             // Store the STM to the start of the batch.
             let mut stm = StateMatrix::<D>::identity();
+            let mut this_state = current_estimate.with_stm();
 
             for msr in measurements {
                 if msr.rejected {
@@ -213,87 +214,88 @@ where
                     let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
 
                     // Propagate reference state from the previous state to msr_epoch
-                    let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
+                    this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
                     epoch = this_state.epoch();
 
                     // The propagator is never reset in this iteration, so the STM is that from the start of the batch,
                     // i.e. Phi(t_{i+1}, t_0).
                     stm = this_state.stm().expect("STM unavailable");
+                }
 
-                    if (epoch - msr_epoch).abs() < self.epoch_precision {
-                        // Get the correct tracking device
-                        let device = match devices.get_mut(&msr.tracker) {
-                            Some(d) => d,
-                            None => {
-                                if !unknown_trackers.contains(&msr.tracker) {
-                                    error!(
-                                        "Tracker {} is not in the list of configured devices",
-                                        msr.tracker
-                                    );
-                                }
-                                unknown_trackers.insert(msr.tracker.clone());
-                                continue;
+                // Several measurements may share an epoch, and the first one may be at that of the initial guess.
+                if (epoch - msr_epoch).abs() < self.epoch_precision {
+                    // Get the correct tracking device
+                    let device = match devices.get_mut(&msr.tracker) {
+                        Some(d) => d,
+                        None => {
+                            if !unknown_trackers.contains(&msr.tracker) {
+                                error!(
+                                    "Tracker {} is not in the list of configured devices",
+                                    msr.tracker
+                                );
                             }
-                        };
+                            unknown_trackers.insert(msr.tracker.clone());
+                            continue;
+                        }
+                    };
 
-                        for msr_type in msr.data.keys().copied() {
-                            let mut msr_types = IndexSet::new();
-                            msr_types.insert(msr_type);
+                    for msr_type in msr.data.keys().copied() {
+                        let mut msr_types = IndexSet::new();
+                        msr_types.insert(msr_type);
 
-                            let h_tilde = device
-                            .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
+                        let h_tilde = device
+                        .h_tilde::<U1>(msr, &msr_types, &this_state, &self.almanac)?;
 
-                            // Compute expected measurement H(X(t_i))
-                            let computed_meas_opt = device
-                                .measure_instantaneous(this_state, None, &self.almanac)?;
+                        // Compute expected measurement H(X(t_i))
+                        let computed_meas_opt = device
+                            .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                            let computed_meas = match computed_meas_opt {
-                                Some(cm) => cm,
-                                None => {
-                                    debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
-                                    continue;
-                                }
-                            };
+                        let computed_meas = match computed_meas_opt {
+                            Some(cm) => cm,
+                            None => {
+                                debug!("Device {} does not expect measurement at epoch {msr_epoch}, skipping", msr.tracker);
+                                continue;
+                            }
+                        };
 
-                            // Get the computed observation value
-                            let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                        // Get the computed observation value
+                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
 
-                            // Get real observation y_i
-                            let real_obs = msr.observation::<U1>(&msr_types)[0];
+                        // Get real observation y_i
+                        let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                            // Sanity check measurement value
-                            ensure!(
-                                real_obs.is_finite(),
-                                InvalidMeasurementSnafu {
-                                    epoch: msr_epoch,
-                                    val: real_obs
-                                }
-                            );
+                        // Sanity check measurement value
+                        ensure!(
+                            real_obs.is_finite(),
+                            InvalidMeasurementSnafu {
+                                epoch: msr_epoch,
+                                val: real_obs
+                            }
+                        );
 
-                            // Compute residual dy = y_i - H(X(t_i))
-                            let residual = real_obs - computed_obs;
+                        // Compute residual dy = y_i - H(X(t_i))
+                        let residual = real_obs - computed_obs;
 
-                            // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
-                            let r_matrix = device
-                                .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                            let r_variance = r_matrix[(0, 0)];
+                        // Get measurement variance R (assuming 1x1 matrix) and weight W = 1/R
+                        let r_matrix = device
+                            .measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                        let r_variance = r_matrix[(0, 0)];
 
-                            ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                            let weight = 1.0 / r_variance;
+                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                        let weight = 1.0 / r_variance;
 
-                            // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
-                            let h_matrix = h_tilde * stm;
+                        // Compute H_matrix = H_tilde * Phi(t_i, t_0) (sensitivity wrt initial state X_0)
+                        let h_matrix = h_tilde * stm;
 
-                            // Accumulate Information Matrix: info_matrix += H^T * W * H
-                            // Recall that the weight is a scalar, so we can move it to the end of the operation.
-                            info_matrix += h_matrix.transpose() * &h_matrix * weight;
+                        // Accumulate Information Matrix: info_matrix += H^T * W * H
+                        // Recall that the weight is a scalar, so we can move it to the end of the operation.
+                        info_matrix += h_matrix.transpose() * &h_matrix * weight;
 
-                            // Accumulate Normal Matrix: normal_matrix += H^T * W * y
-                            normal_matrix += h_matrix.transpose() * residual * weight;
+                        // Accumulate Normal Matrix: normal_matrix += H^T * W * y
+                        normal_matrix += h_matrix.transpose() * residual * weight;
 
-                            // Accumulate sum of squares of weighted residuals
-                            sum_sq_weighted_residuals += weight * residual * residual;
-                        }
+                        // Accumulate sum of squares of weighted residuals
+                        sum_sq_weighted_residuals += weight * residual * residual;
                     }
                 }
             }
@@ -468,6 +470,7 @@ where
 
         let mut prop_inst = self.prop.with(state.with_stm(), self.almanac.clone()).quiet();
         let mut epoch = state.epoch();
+        let mut this_state = state.with_stm();
 
         for msr in measurements {
             if msr.rejected {
@@ -482,56 +485,56 @@ where
                 }
 
                 let next_step = delta_t.min(prop_inst.step_size).min(self.max_step);
-                let this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
+                this_state = prop_inst.for_duration(next_step).context(ODPropSnafu)?;
                 epoch = this_state.epoch();
+            }
 
-                if (epoch - msr_epoch).abs() < self.epoch_precision {
-                    let device = match devices.get_mut(&msr.tracker) {
-                        Some(d) => d,
-                        None => {
-                            if !unknown_trackers.contains(&msr.tracker) {
-                                error!(
-                                    "Tracker {} is not in the list of configured devices",
-                                    msr.tracker
-                                );
-                            }
-                            unknown_trackers.insert(msr.tracker.clone());
-                            continue;
+            if (epoch - msr_epoch).abs() < self.epoch_precision {
+                let device = match devices.get_mut(&msr.tracker) {
+                    Some(d) => d,
+                    None => {
+                        if !unknown_trackers.contains(&msr.tracker) {
+                            error!(
+                                "Tracker {} is not in the list of configured devices",
+                                msr.tracker
+                            );
                         }
-                    };
+                        unknown_trackers.insert(msr.tracker.clone());
+                        continue;
+                    }
+                };
 
-                    for msr_type in msr.data.keys().copied() {
-                        let mut msr_types = IndexSet::new();
-                        msr_types.insert(msr_type);
+                for msr_type in msr.data.keys().copied() {
+                    let mut msr_types = IndexSet::new();
+                    msr_types.insert(msr_type);
 
-                        let computed_meas_opt = device
-                            .measure_instantaneous(this_state, None, &self.almanac)?;
+                    let computed_meas_opt = device
+                        .measure_instantaneous(this_state, None, &self.almanac)?;
 
-                        let computed_meas = match computed_meas_opt {
-                            Some(cm) => cm,
-                            None => continue,
-                        };
+                    let computed_meas = match computed_meas_opt {
+                        Some(cm) => cm,
+                        None => continue,
+                    };
 
-                        let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
-                        let real_obs = msr.observation::<U1>(&msr_types)[0];
+                    let computed_obs = computed_meas.observation::<U1>(&msr_types)[0];
+                    let real_obs = msr.observation::<U1>(&msr_types)[0];
 
-                        ensure!(
-                            real_obs.is_finite(),
-                            InvalidMeasurementSnafu {
-                                epoch: msr_epoch,
-                                val: real_obs
-                            }
-                        );
+                    ensure!(
+                        real_obs.is_finite(),
+                        InvalidMeasurementSnafu {
+                            epoch: msr_epoch,
+                            val: real_obs
+                        }
+                    );
 
-                        let residual = real_obs - computed_obs;
-                        let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
-                        let r_variance = r_matrix[(0, 0)];
+                    let residual = real_obs - computed_obs;
+                    let r_matrix = device.measurement_covar_matrix::<U1>(&msr_types, msr_epoch)?;
+                    let r_variance = r_matrix[(0, 0)];
 
-                        ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
-                        let weight = 1.0 / r_variance;
+                    ensure!(r_variance > 0.0, SingularNoiseRkSnafu);
+                    let weight = 1.0 / r_variance;
 
-                        sum_sq_weighted_residuals += weight * residual * residual;
-                    }
+                    sum_sq_weighted_residuals += weight * residual * residual;
                 }
             }
         }
-- 
2.43.0


From 52865dfd5a989ff09940f54b9e5873bdf400ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:14 +0000
Subject: [PATCH 53/91] fix: measure the axis of each type in position devices

The values were taken by place in the list of types, so that a device which
measures Y alone, or Z before X, reported another axis (or panicked).
---
 nyx-core/src/od/position/trk_device.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/position/trk_device.rs b/nyx-core/src/od/position/trk_device.rs
index b59a865..4218f29 100644
--- a/nyx-core/src/od/position/trk_device.rs
+++ b/nyx-core/src/od/position/trk_device.rs
@@ -73,10 +73,20 @@ impl TrackingDevice<Spacecraft> for PositionDevice {
             }
         }
 
-        for (ii, msr_type) in self.measurement_types.iter().copied().enumerate() {
+        for msr_type in self.measurement_types.iter().copied() {
+            let position_km = match msr_type {
+                MeasurementType::X => rx.orbit.radius_km.x,
+                MeasurementType::Y => rx.orbit.radius_km.y,
+                MeasurementType::Z => rx.orbit.radius_km.z,
+                _ => {
+                    return Err(ODError::MeasurementSimError {
+                        details: format!("{msr_type:?} is not supported by XyzDevice"),
+                    });
+                }
+            };
             msr.push(
                 msr_type,
-                rx.orbit.radius_km[ii] + noises.get(&msr_type).unwrap_or(&0.0),
+                position_km + noises.get(&msr_type).unwrap_or(&0.0),
             );
         }
 
-- 
2.43.0


From 9611e0364da95899b4a047e823b646319afd65cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:14 +0000
Subject: [PATCH 54/91] fix: report unsupported interlink measurement types as
 errors

---
 nyx-core/src/od/groundpnt/trk_device.rs | 7 +++++--
 nyx-core/src/od/interlink/trk_device.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index d07545b..35846ce 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -161,8 +161,11 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
                 let msr_value = match *msr_type {
                     MeasurementType::Range => aer.range_km,
                     MeasurementType::Doppler => aer.range_rate_km_s,
-                    // Or return an error for unsupported types
-                    _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
+                    _ => {
+                        return Err(ODError::MeasurementSimError {
+                            details: format!("{msr_type:?} is not supported for interlink"),
+                        });
+                    }
                 } + noises[ii + 1];
                 msr.push(*msr_type, msr_value);
             }
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index 44d45c5..dd23b26 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -220,8 +220,11 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
                 let msr_value = match *msr_type {
                     MeasurementType::Range => rho_tx_frame.norm(),
                     MeasurementType::Doppler => range_rate_km_s,
-                    // Or return an error for unsupported types
-                    _ => unreachable!("unsupported measurement type for interlink: {:?}", msr_type),
+                    _ => {
+                        return Err(ODError::MeasurementSimError {
+                            details: format!("{msr_type:?} is not supported for interlink"),
+                        });
+                    }
                 } + noises[ii + 1];
                 msr.push(*msr_type, msr_value);
             }
-- 
2.43.0


From 9606d2140fc0d16deaea7378d7624ecbaa8c4ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:43 +0000
Subject: [PATCH 55/91] fix: integrate the STM of ground assets

---
 nyx-core/src/od/groundpnt/ground_dynamics.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/ground_dynamics.rs b/nyx-core/src/od/groundpnt/ground_dynamics.rs
index 3251c7e..65bdb48 100644
--- a/nyx-core/src/od/groundpnt/ground_dynamics.rs
+++ b/nyx-core/src/od/groundpnt/ground_dynamics.rs
@@ -31,10 +31,10 @@ impl Dynamics for GroundDynamics {
 
     fn eom(
         &self,
-        _delta_t: f64,
-        _state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
+        delta_t: f64,
+        state_vec: &OVector<f64, <Self::StateType as crate::State>::VecLength>,
         state_ctx: &Self::StateType,
-        _almanac: &Almanac,
+        almanac: &Almanac,
     ) -> Result<OVector<f64, <Self::StateType as crate::State>::VecLength>, DynamicsError>
     where
         DefaultAllocator: Allocator<<Self::StateType as crate::State>::VecLength>,
@@ -48,10 +48,15 @@ impl Dynamics for GroundDynamics {
             0.0,
         ]);
 
+        // The derivative of the STM is the gradient times the STM of this integration stage.
+        let mut stm_dt = Matrix6::zeros();
+        if state_ctx.stm.is_some() {
+            let stm = Matrix6::from_column_slice(&state_vec.as_slice()[6..]);
+            stm_dt = self.dual_eom(delta_t, state_ctx, almanac)?.1 * stm;
+        }
+
         Ok(OVector::<f64, Const<42>>::from_iterator(
-            d_x.iter()
-                .chain(OVector::<f64, Const<36>>::zeros().iter())
-                .cloned(),
+            d_x.iter().chain(stm_dt.iter()).cloned(),
         ))
     }
 
-- 
2.43.0


From 0f831bcbdf0918bce43abb03f10f507c7c0cf23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:25 +0000
Subject: [PATCH 56/91] fix: compute the ground asset sensitivities in the
 frame of the asset

The transmitter was left in the frame of its trajectory, and the observed
values stood in for the expected ones.
---
 nyx-core/src/od/groundpnt/sensitivity.rs | 33 +++++++++++-------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/sensitivity.rs b/nyx-core/src/od/groundpnt/sensitivity.rs
index 5b5ef98..b4aff15 100644
--- a/nyx-core/src/od/groundpnt/sensitivity.rs
+++ b/nyx-core/src/od/groundpnt/sensitivity.rs
@@ -74,13 +74,12 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
     /// ground asset. Then we compute the AER as seen from the ground asset.
     fn new(
         msr_type: MeasurementType,
-        msr: &Measurement,
+        _msr: &Measurement,
         rx: &GroundAsset,
         tx: &InterlinkTxSpacecraft,
         almanac: &Almanac,
     ) -> Result<Self, ODError> {
         let receiver = rx.orbit();
-        let loc = rx.to_location();
 
         // Compute the device location in the receiver frame because we compute the sensitivity in that frame.
         // This frame is required because the scalar measurements are frame independent, but the sensitivity
@@ -94,6 +93,12 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 details: "computing sensitivity ground asset / interlink".into(),
             })?
             .orbit;
+        let transmitter =
+            almanac
+                .transform_to(transmitter, rx.frame, None)
+                .context(ODAlmanacSnafu {
+                    action: "computing transmitter location when computing sensitivity matrix",
+                })?;
 
         let jac = rx
             .geodetic_to_cartesian_jacobian()
@@ -105,25 +110,18 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 action: "computing Jacobian for geodetics",
             })?;
 
+        let receiver_vel_km_s =
+            jac.fixed_view::<3, 3>(3, 3) * rx.to_vector().fixed_rows::<3>(3).into_owned();
+
         let delta_r = receiver.radius_km - transmitter.radius_km;
-        let delta_v = receiver.velocity_km_s - transmitter.velocity_km_s;
+        let delta_v = receiver_vel_km_s - transmitter.velocity_km_s;
+
+        // Always compute the expected range and range-rate, like the other trackers.
+        let ρ_km = delta_r.norm();
 
         match msr_type {
             MeasurementType::Doppler => {
-                // If we have a simultaneous measurement of the range, use that, otherwise we compute the expected range.
-                let ρ_km = match msr.data.get(&MeasurementType::Range) {
-                    Some(range_km) => *range_km,
-                    None => {
-                        almanac
-                            .azimuth_elevation_range_sez_from_location(transmitter, loc, None, None)
-                            .context(ODAlmanacSnafu {
-                                action: "computing range for Doppler measurement",
-                            })?
-                            .range_km
-                    }
-                };
-
-                let ρ_dot_km_s = msr.data.get(&MeasurementType::Doppler).unwrap();
+                let ρ_dot_km_s = delta_r.dot(&delta_v) / ρ_km;
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
@@ -143,7 +141,6 @@ impl ScalarSensitivityT<GroundAsset, GroundAsset, InterlinkTxSpacecraft>
                 })
             }
             MeasurementType::Range => {
-                let ρ_km = msr.data.get(&MeasurementType::Range).unwrap();
                 let m11 = delta_r.x / ρ_km;
                 let m12 = delta_r.y / ρ_km;
                 let m13 = delta_r.z / ρ_km;
-- 
2.43.0


From c2f5d9497dc9f4b677280c077fbad16dc99d1a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:29 +0000
Subject: [PATCH 57/91] fix: include the velocity of moving ground assets in
 their Doppler

---
 nyx-core/src/od/groundpnt/mod.rs        | 11 +++++++++++
 nyx-core/src/od/groundpnt/trk_device.rs | 21 +++++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/mod.rs b/nyx-core/src/od/groundpnt/mod.rs
index f52f820..7e3085b 100644
--- a/nyx-core/src/od/groundpnt/mod.rs
+++ b/nyx-core/src/od/groundpnt/mod.rs
@@ -123,6 +123,17 @@ impl GroundAsset {
         .map(|v| v * 1e3)
     }
 
+    /// Compute the velocity in km/s of this asset in its body fixed frame
+    pub fn velocity_km_s(&self) -> Result<Vector3<f64>, PhysicsError> {
+        let jac = self.geodetic_to_cartesian_jacobian()?;
+        Ok(jac.fixed_view::<3, 3>(3, 3)
+            * Vector3::new(
+                self.latitude_rate_deg_s,
+                self.longitude_rate_deg_s,
+                self.height_rate_km_s,
+            ))
+    }
+
     pub fn geodetic_to_cartesian_jacobian(&self) -> Result<Matrix6<f64>, PhysicsError> {
         let lat_deg = self.latitude_deg;
         let lon_deg = self.longitude_deg;
diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index 35846ce..fa7e5e2 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -151,16 +151,33 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
         if aer.elevation_above_mask_deg() < 0.0 {
             Ok(None)
         } else {
+            // The AER is that of a point at rest on the ground, so account for the velocity of the asset.
+            let pnt_veh_fixed = almanac
+                .transform_to(pnt_veh.orbit, rx.frame, None)
+                .context(ODAlmanacSnafu {
+                    action: "transforming transmitter to receiver frame",
+                })?;
+            let asset_vel_km_s = rx
+                .velocity_km_s()
+                .map_err(|source| AlmanacError::AlmanacPhysics {
+                    action: "computing the velocity of the ground asset",
+                    source: Box::new(source),
+                })
+                .context(ODAlmanacSnafu {
+                    action: "computing the velocity of the ground asset",
+                })?;
+            let los_km = pnt_veh_fixed.radius_km - rx.orbit().radius_km;
+            let range_rate_km_s = aer.range_rate_km_s - asset_vel_km_s.dot(&los_km) / los_km.norm();
+
             let noises = self.noises(rx.epoch, rng)?;
 
             let mut msr =
                 Measurement::new("GroundAsset".to_string(), rx.epoch + noises[0].seconds());
 
-            // Range is a norm, so we don't flip the sign. But the rate depends on the direction of travel, so we do indeed flip its sign.
             for (ii, msr_type) in self.measurement_types.iter().enumerate() {
                 let msr_value = match *msr_type {
                     MeasurementType::Range => aer.range_km,
-                    MeasurementType::Doppler => aer.range_rate_km_s,
+                    MeasurementType::Doppler => range_rate_km_s,
                     _ => {
                         return Err(ODError::MeasurementSimError {
                             details: format!("{msr_type:?} is not supported for interlink"),
-- 
2.43.0


From 50ef5c8f19815f54dd978c26e9be4a0ec182089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:40 +0000
Subject: [PATCH 58/91] fix: Izzo Lambert transfers fly the way they were
 solved for

The normal was turned to +z without the sign of lambda, so that a transfer
whose short way normal points to -z did not reach its target. Collinear
positions and non positive flight times are errors.
---
 nyx-core/src/tools/lambert/izzo.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index a0729f3..08c70c7 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -60,15 +60,13 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     let i_r1 = r_init / ri_norm;
     let i_r2 = r_final / rf_norm;
 
+    // Normal of the short way transfer.
     let mut i_h = i_r1.cross(&i_r2);
-    i_h /= i_h.norm(); // Ensure normalization
-
-    // Normalize orientation so i_h points along +z, matching the
-    // lamberthub reference. The user's prograde/retrograde choice is
-    // then applied on its own, decoupled from ECI-frame parity.
-    if i_h.z < 0.0 {
-        i_h = -i_h;
+    if tof_s <= 0.0 || i_h.norm() < f64::EPSILON {
+        // The positions are collinear, so the transfer plane is not defined, or there is no time to fly.
+        return Err(LambertError::TargetsTooClose);
     }
+    i_h /= i_h.norm(); // Ensure normalization
 
     // Geometry of the problem
     let lambda = 1.0 - c_norm / s;
@@ -84,13 +82,13 @@ pub fn izzo(input: LambertInput, kind: TransferKind) -> Result<LambertSolution,
     // prograde branch to preserve historical behavior. `direction_of_motion`
     // returns `MultiRevNotSupported` for NRevs, hence the guard.
     let dm = if matches!(kind, TransferKind::NRevs(_)) {
-        1.0
+        if i_h.z < 0.0 { -1.0 } else { 1.0 }
     } else {
         kind.direction_of_motion(&r_final, &r_init)?
     };
-    let retrograde = dm < 0.0;
+    let long_way = dm < 0.0;
 
-    let (mut i_t1, mut i_t2) = if retrograde {
+    let (mut i_t1, mut i_t2) = if long_way {
         m_lambda = -m_lambda;
         (i_r1.cross(&i_h), i_r2.cross(&i_h))
     } else {
-- 
2.43.0


From 4e0179629c584d92f13ff6eb65fe4a2540b08125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:40 +0000
Subject: [PATCH 59/91] fix: Gooding Lambert transfers between collinear
 positions are errors

---
 nyx-core/src/tools/lambert/godding.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/tools/lambert/godding.rs b/nyx-core/src/tools/lambert/godding.rs
index 73fb580..2e48c77 100644
--- a/nyx-core/src/tools/lambert/godding.rs
+++ b/nyx-core/src/tools/lambert/godding.rs
@@ -54,12 +54,10 @@ pub fn gooding(input: LambertInput, kind: TransferKind) -> Result<LambertSolutio
 
     let dm = kind.direction_of_motion(&r_final, &r_init)?;
 
-    let nu_init = r_init[1].atan2(r_init[0]);
-    let nu_final = r_final[1].atan2(r_final[0]);
-
     let a = dm * (r_norm_product * (1.0 + cos_dnu)).sqrt();
 
-    if nu_final - nu_init < LAMBERT_EPSILON_RAD && a.abs() < LAMBERT_EPSILON {
+    // The transfer plane is not defined if both positions are collinear.
+    if tof_s <= 0.0 || r_init.cross(&r_final).norm() / r_norm_product < LAMBERT_EPSILON_RAD {
         return Err(LambertError::TargetsTooClose);
     }
 
-- 
2.43.0


From bf3c66c555df06136ca334e84588595b54988e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:19 +0000
Subject: [PATCH 60/91] fix: find the minimum flight time of a multi revolution
 Lambert transfer

---
 nyx-core/src/tools/lambert/izzo.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/tools/lambert/izzo.rs b/nyx-core/src/tools/lambert/izzo.rs
index 08c70c7..c026eb7 100644
--- a/nyx-core/src/tools/lambert/izzo.rs
+++ b/nyx-core/src/tools/lambert/izzo.rs
@@ -281,8 +281,7 @@ fn compute_t_min(
     } else {
         // Set x_i > 0 to avoid problems at ll = -1
         let x_i = 0.1;
-        let t_i = tof_equation(x_i, 0.0, ll, m);
-        let x_t_min = halley(x_i, t_i, ll, atol, rtol, maxiter)?;
+        let x_t_min = halley(x_i, ll, m, atol, rtol, maxiter)?;
         let t_min = tof_equation(x_t_min, 0.0, ll, m);
         Ok((x_t_min, t_min))
     }
@@ -369,14 +368,16 @@ pub fn hyp2f1b(x: f64) -> f64 {
 /// Returns a Result, which is Ok(value) on success or Err(message) on failure.
 pub fn halley(
     mut p0: f64,
-    t0: f64,
     ll: f64,
+    m: u32,
     atol: f64,
     rtol: f64,
     maxiter: usize,
 ) -> Result<f64, LambertError> {
     for _ in 1..=maxiter {
         let y = compute_y(p0, ll);
+        // The derivatives are those at the current guess.
+        let t0 = tof_equation_y(p0, y, 0.0, ll, m);
         let fder = tof_equation_p(p0, y, t0, ll);
         let fder2 = tof_equation_p2(p0, y, t0, fder, ll);
 
-- 
2.43.0


From 68eac0a4f95dd54bf8764e721ebb88e99db3d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:14 +0000
Subject: [PATCH 61/91] fix: report invalid optional durations instead of
 ignoring them

---
 nyx-core/src/io/mod.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/nyx-core/src/io/mod.rs b/nyx-core/src/io/mod.rs
index 2dfa9f8..da7474b 100644
--- a/nyx-core/src/io/mod.rs
+++ b/nyx-core/src/io/mod.rs
@@ -278,13 +278,7 @@ pub(crate) fn maybe_duration_from_str<'de, D>(deserializer: D) -> Result<Option<
 where
     D: Deserializer<'de>,
 {
-    if let Ok(s) = String::deserialize(deserializer) {
-        if let Ok(duration) = Duration::from_str(&s) {
-            Ok(Some(duration))
-        } else {
-            Ok(None)
-        }
-    } else {
-        Ok(None)
-    }
+    Option::<String>::deserialize(deserializer)?
+        .map(|s| Duration::from_str(&s).map_err(serde::de::Error::custom))
+        .transpose()
 }
-- 
2.43.0


From 4b50b34dd726644d0c6378d496f94cd97b6e9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:15 +0000
Subject: [PATCH 62/91] fix: reject unknown time scales when decoding tracking
 strands

---
 nyx-core/src/od/simulator/trkconfig.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/od/simulator/trkconfig.rs b/nyx-core/src/od/simulator/trkconfig.rs
index b68eb42..0f47a12 100644
--- a/nyx-core/src/od/simulator/trkconfig.rs
+++ b/nyx-core/src/od/simulator/trkconfig.rs
@@ -285,13 +285,24 @@ impl fmt::Display for Strand {
 
 impl<'a> Decode<'a> for Strand {
     fn decode<R: Reader<'a>>(decoder: &mut R) -> der::Result<Self> {
+        // TimeScale::from falls back to TAI for the values that are not those of a time scale.
+        let time_scale = |ts_u8: u8| -> der::Result<TimeScale> {
+            let ts = TimeScale::from(ts_u8);
+            if ts as u8 == ts_u8 {
+                Ok(ts)
+            } else {
+                Err(der::ErrorKind::Value {
+                    tag: der::Tag::Integer,
+                }
+                .into())
+            }
+        };
+
         let start_ns = decoder.decode::<i128>()?;
-        let start_ts_u8 = decoder.decode::<u8>()?;
-        let start_ts = TimeScale::from(start_ts_u8);
+        let start_ts = time_scale(decoder.decode::<u8>()?)?;
 
         let end_ns = decoder.decode::<i128>()?;
-        let end_ts_u8 = decoder.decode::<u8>()?;
-        let end_ts = TimeScale::from(end_ts_u8);
+        let end_ts = time_scale(decoder.decode::<u8>()?)?;
 
         Ok(Self {
             start: Epoch::from_duration(Duration::from_total_nanoseconds(start_ns), start_ts),
-- 
2.43.0


From b1c04819d7e6d072c88f1c5bc4c622b98ff2b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:32 +0000
Subject: [PATCH 63/91] fix: describe the gravity field configuration as it is
 written in Dhall

---
 nyx-core/src/dynamics/sequence/config.rs | 7 +------
 nyx-core/src/io/gravity.rs               | 1 +
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/dynamics/sequence/config.rs b/nyx-core/src/dynamics/sequence/config.rs
index 80adbce..165bc4c 100644
--- a/nyx-core/src/dynamics/sequence/config.rs
+++ b/nyx-core/src/dynamics/sequence/config.rs
@@ -15,7 +15,6 @@
     You should have received a copy of the GNU Affero General Public License
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
-use anise::frames::FrameUid;
 use anise::prelude::Almanac;
 use serde::{Deserialize, Serialize};
 use serde_dhall::{SimpleType, StaticType};
@@ -202,13 +201,9 @@ impl StaticType for AccelModels {
             SimpleType::Optional(Box::new(PointMasses::static_type())),
         );
 
-        #[allow(dead_code)]
-        #[derive(StaticType)]
-        struct GravityFieldDhall(GravityFieldConfig, FrameUid);
-
         fields.insert(
             "gravity_field".to_string(),
-            SimpleType::Optional(Box::new(GravityFieldDhall::static_type())),
+            SimpleType::Optional(Box::new(GravityFieldConfig::static_type())),
         );
 
         fields.insert(
diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index 586244a..af86817 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -524,6 +524,7 @@ impl StaticType for GravityFieldConfig {
         fields.insert("gunzipped".to_string(), bool::static_type());
         fields.insert("degree".to_string(), usize::static_type());
         fields.insert("order".to_string(), usize::static_type());
+        fields.insert("frame".to_string(), FrameUid::static_type());
 
         SimpleType::Record(fields)
     }
-- 
2.43.0


From f93988fae338805c12431fcaf53e3ef0cb43a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:28 +0000
Subject: [PATCH 64/91] fix: compute drag from the velocity relative to the
 atmosphere in the integration frame

---
 nyx-core/src/dynamics/drag.rs | 48 ++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/nyx-core/src/dynamics/drag.rs b/nyx-core/src/dynamics/drag.rs
index c71dbde..41c99ee 100644
--- a/nyx-core/src/dynamics/drag.rs
+++ b/nyx-core/src/dynamics/drag.rs
@@ -18,12 +18,13 @@
 
 use anise::almanac::Almanac;
 use anise::constants::frames::IAU_EARTH_FRAME;
+use anise::errors::OrientationSnafu;
 use snafu::ResultExt;
 
 use super::{
     DynamicsAlmanacSnafu, DynamicsAstroSnafu, DynamicsError, DynamicsPlanetarySnafu, ForceModel,
 };
-use crate::cosmic::{AstroError, AstroPhysicsSnafu, Frame, Spacecraft};
+use crate::cosmic::{AstroError, AstroPhysicsSnafu, Frame, Orbit, Spacecraft};
 use crate::linalg::{Matrix4x3, Vector3};
 use serde::{Deserialize, Serialize};
 use serde_dhall::StaticType;
@@ -82,6 +83,28 @@ impl fmt::Display for ConstantDrag {
     }
 }
 
+/// Returns the velocity of the spacecraft in the drag frame, i.e. relative to the atmosphere which rotates with that frame, expressed on the axes of the integration frame.
+fn velocity_in_integration_frame(
+    osc_drag_frame: &Orbit,
+    integration_frame: Frame,
+    almanac: &Almanac,
+) -> Result<Vector3<f64>, DynamicsError> {
+    let dcm = almanac
+        .rotate(
+            osc_drag_frame.frame,
+            integration_frame,
+            osc_drag_frame.epoch,
+        )
+        .context(OrientationSnafu {
+            action: "drag frame to integration frame",
+        })
+        .context(DynamicsAlmanacSnafu {
+            action: "rotating into the integration frame",
+        })?;
+
+    Ok(dcm.rot_mat * osc_drag_frame.velocity_km_s)
+}
+
 impl ForceModel for ConstantDrag {
     fn estimation_index(&self) -> Option<usize> {
         if self.estimate { Some(7) } else { None }
@@ -95,7 +118,7 @@ impl ForceModel for ConstantDrag {
                     action: "transforming into drag frame",
                 })?;
 
-        let velocity = osc.velocity_km_s;
+        let velocity = velocity_in_integration_frame(&osc, ctx.orbit.frame, almanac)?;
         // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
         Ok(-0.5
             * 1e3
@@ -188,9 +211,10 @@ impl ForceModel for Drag {
                     action: "transforming into drag frame",
                 })?;
 
+        let velocity = velocity_in_integration_frame(&osc_drag_frame, integration_frame, almanac)?;
+
         match self.density {
             AtmDensity::Constant(rho) => {
-                let velocity = osc_drag_frame.velocity_km_s;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
@@ -218,16 +242,6 @@ impl ForceModel for Drag {
                         / ref_alt_m)
                         .exp();
 
-                // TODO: Drag modeling will be improved in https://github.com/nyx-space/nyx/issues/317
-                // The frame will be double checked in this PR as well.
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
@@ -263,14 +277,6 @@ impl ForceModel for Drag {
                     10.0_f64.powf(logdensity)
                 };
 
-                let velocity_integr_frame = almanac
-                    .transform_to(osc_drag_frame, integration_frame, None)
-                    .context(DynamicsAlmanacSnafu {
-                        action: "rotating into the integration frame",
-                    })?
-                    .velocity_km_s;
-
-                let velocity = velocity_integr_frame - osc_drag_frame.velocity_km_s;
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
                     * 1e3
-- 
2.43.0


From 1c3c5467ed1990cd896471e6e7cb899ba26443c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:31 +0000
Subject: [PATCH 65/91] fix: compute the exponential density from the altitude
 in meters

---
 nyx-core/src/dynamics/drag.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/nyx-core/src/dynamics/drag.rs b/nyx-core/src/dynamics/drag.rs
index 41c99ee..077d80e 100644
--- a/nyx-core/src/dynamics/drag.rs
+++ b/nyx-core/src/dynamics/drag.rs
@@ -230,17 +230,15 @@ impl ForceModel for Drag {
                 r0,
                 ref_alt_m,
             } => {
-                // Compute rho in the drag frame.
-                let rho = rho0
-                    * (-(osc_drag_frame.rmag_km()
-                        - (r0
-                            + self
-                                .frame
-                                .mean_equatorial_radius_km()
-                                .context(AstroPhysicsSnafu)
-                                .context(DynamicsAstroSnafu)?))
-                        / ref_alt_m)
-                        .exp();
+                // Compute rho in the drag frame, where the reference altitudes are in meters.
+                let altitude_m = 1e3
+                    * (osc_drag_frame.rmag_km()
+                        - self
+                            .frame
+                            .mean_equatorial_radius_km()
+                            .context(AstroPhysicsSnafu)
+                            .context(DynamicsAstroSnafu)?);
+                let rho = rho0 * (-(altitude_m - r0) / ref_alt_m).exp();
 
                 // Note the 1e3 factor to convert drag units from ((kg * km^2 * s^-2) / m^1) to (kg * km * s^-2)
                 Ok(-0.5
-- 
2.43.0


From d2c963fb0ff46b4d1373b687a7f2519d3e13c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:35 +0000
Subject: [PATCH 66/91] fix: load COF gravity fields from their configuration

---
 nyx-core/src/io/gravity.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/io/gravity.rs b/nyx-core/src/io/gravity.rs
index af86817..82cb09e 100644
--- a/nyx-core/src/io/gravity.rs
+++ b/nyx-core/src/io/gravity.rs
@@ -104,8 +104,10 @@ impl GravityFieldData {
                 action: "fetching gravity field frame",
             })?;
 
-        if !cfg.gunzipped && cfg.filepath.ends_with(".cof")
-            || cfg.gunzipped && cfg.filepath.ends_with(".cof.gz")
+        // NOTE: Path::ends_with compares whole components, so the suffix is checked on the text.
+        let filename = cfg.filepath.to_string_lossy().to_lowercase();
+        if !cfg.gunzipped && filename.ends_with(".cof")
+            || cfg.gunzipped && filename.ends_with(".cof.gz")
         {
             Self::from_cof(cfg.filepath, cfg.degree, cfg.order, cfg.gunzipped, frame)
         } else {
-- 
2.43.0


From bb48b415ff8dc4f12ffbb5140a7957c9a1f77bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:46 +0000
Subject: [PATCH 67/91] fix: compute the partial of the radiation pressure for
 a zero reflectivity

---
 nyx-core/src/dynamics/solarpressure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/solarpressure.rs b/nyx-core/src/dynamics/solarpressure.rs
index 284f96e..22ee385 100644
--- a/nyx-core/src/dynamics/solarpressure.rs
+++ b/nyx-core/src/dynamics/solarpressure.rs
@@ -222,8 +222,10 @@ impl ForceModel for SolarPressure {
             }
         }
 
-        // Compute the partial wrt to Cr.
-        let wrt_cr = self.eom(ctx, almanac)? / ctx.srp.coeff_reflectivity;
+        // Compute the partial wrt to Cr: the force is linear in Cr, so this is the force for a unit Cr.
+        let mut unit_cr = *ctx;
+        unit_cr.srp.coeff_reflectivity = 1.0;
+        let wrt_cr = self.eom(&unit_cr, almanac)?;
         for j in 0..3 {
             grad[(3, j)] = wrt_cr[j];
         }
-- 
2.43.0


From 47988dcb5fbc334639e004c351aeece41fc8a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:12 +0000
Subject: [PATCH 68/91] fix: compute the radiation pressure on the axes of the
 integration frame

---
 nyx-core/src/dynamics/solarpressure.rs | 41 ++++++++++++++++++--------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/nyx-core/src/dynamics/solarpressure.rs b/nyx-core/src/dynamics/solarpressure.rs
index 22ee385..57246d7 100644
--- a/nyx-core/src/dynamics/solarpressure.rs
+++ b/nyx-core/src/dynamics/solarpressure.rs
@@ -18,10 +18,11 @@
 
 use super::{DynamicsAlmanacSnafu, DynamicsError, DynamicsPlanetarySnafu, ForceModel};
 use crate::cosmic::eclipse::ShadowModel;
-use crate::cosmic::{AU, Frame, SPEED_OF_LIGHT_M_S, Spacecraft};
+use crate::cosmic::{AU, Frame, Orbit, SPEED_OF_LIGHT_M_S, Spacecraft};
 use crate::linalg::{Const, Matrix4x3, Vector3};
 use anise::almanac::Almanac;
 use anise::constants::frames::{EARTH_J2000, SUN_J2000};
+use anise::errors::OrientationSnafu;
 use hyperdual::{Float, OHyperdual, hyperspace_from_vector, linalg::norm};
 use log::warn;
 use serde::{Deserialize, Serialize};
@@ -125,6 +126,30 @@ impl SolarPressure {
     pub fn new(shadow_bodies: Vec<Frame>, almanac: &Almanac) -> Result<Arc<Self>, DynamicsError> {
         Ok(Arc::new(Self::default_flux_raw(shadow_bodies, almanac)?))
     }
+
+    /// Returns the position of the spacecraft as seen from the light source, expressed on the axes of the integration frame.
+    fn position_from_light_source(
+        &self,
+        osc: &Orbit,
+        almanac: &Almanac,
+    ) -> Result<Vector3<f64>, DynamicsError> {
+        let seen_from_source = almanac
+            .transform_to(*osc, self.shadow_model.light_source, None)
+            .context(DynamicsAlmanacSnafu {
+                action: "transforming state to vector seen from Sun",
+            })?;
+
+        let dcm = almanac
+            .rotate(seen_from_source.frame, osc.frame, osc.epoch)
+            .context(OrientationSnafu {
+                action: "light source frame to integration frame",
+            })
+            .context(DynamicsAlmanacSnafu {
+                action: "rotating into the integration frame",
+            })?;
+
+        Ok(dcm.rot_mat * seen_from_source.radius_km)
+    }
 }
 
 impl ForceModel for SolarPressure {
@@ -135,12 +160,7 @@ impl ForceModel for SolarPressure {
     fn eom(&self, ctx: &Spacecraft, almanac: &Almanac) -> Result<Vector3<f64>, DynamicsError> {
         let osc = ctx.orbit;
         // Compute the position of the Sun as seen from the spacecraft
-        let r_sun = almanac
-            .transform_to(ctx.orbit, self.shadow_model.light_source, None)
-            .context(DynamicsAlmanacSnafu {
-                action: "transforming state to vector seen from Sun",
-            })?
-            .radius_km;
+        let r_sun = self.position_from_light_source(&osc, almanac)?;
 
         let r_sun_unit = r_sun / r_sun.norm();
 
@@ -172,12 +192,7 @@ impl ForceModel for SolarPressure {
         let osc = ctx.orbit;
 
         // Compute the position of the Sun as seen from the spacecraft
-        let r_sun = almanac
-            .transform_to(ctx.orbit, self.shadow_model.light_source, None)
-            .context(DynamicsAlmanacSnafu {
-                action: "transforming state to vector seen from Sun",
-            })?
-            .radius_km;
+        let r_sun = self.position_from_light_source(&osc, almanac)?;
 
         let r_sun_d: Vector3<OHyperdual<f64, Const<9>>> = hyperspace_from_vector(&r_sun);
         let r_sun_unit = r_sun_d / norm(&r_sun_d);
-- 
2.43.0


From 0adeb25d02c1fd2c568e28d2575868f6d351c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:15 +0000
Subject: [PATCH 69/91] fix: compute the pull of third bodies on the axes of
 the integration frame

---
 nyx-core/src/dynamics/orbital.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/dynamics/orbital.rs b/nyx-core/src/dynamics/orbital.rs
index 273de65..929194e 100644
--- a/nyx-core/src/dynamics/orbital.rs
+++ b/nyx-core/src/dynamics/orbital.rs
@@ -226,9 +226,14 @@ impl AccelModel for PointMasses {
                     action: "planetary data from third body not loaded",
                 })?;
 
-            // Orbit of j-th body as seen from primary body
+            // Orbit of j-th body as seen from primary body, from the J2000 axes of the ephemerides to those of the integration frame
             let st_ij = almanac
-                .transform(third_body_frame, osc.frame, osc.epoch, self.correction)
+                .transform(
+                    Frame::from_ephem_j2000(third_body),
+                    osc.frame,
+                    osc.epoch,
+                    self.correction,
+                )
                 .context(DynamicsAlmanacSnafu {
                     action: "computing third body gravitational pull",
                 })?;
@@ -277,9 +282,14 @@ impl AccelModel for PointMasses {
                     .context(DynamicsAstroSnafu)?,
             );
 
-            // Orbit of j-th body as seen from primary body
+            // Orbit of j-th body as seen from primary body, from the J2000 axes of the ephemerides to those of the integration frame
             let st_ij = almanac
-                .transform(third_body_frame, osc.frame, osc.epoch, self.correction)
+                .transform(
+                    Frame::from_ephem_j2000(third_body),
+                    osc.frame,
+                    osc.epoch,
+                    self.correction,
+                )
                 .context(DynamicsAlmanacSnafu {
                     action: "computing third body gravitational pull",
                 })?;
-- 
2.43.0


From 5a6cfd9619cbe00fb68919f5bcd46ebd130016c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:44 +0000
Subject: [PATCH 70/91] fix: the partials of the pull of third bodies do not
 include that on the central body

---
 nyx-core/src/dynamics/orbital.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/dynamics/orbital.rs b/nyx-core/src/dynamics/orbital.rs
index 929194e..5765ec3 100644
--- a/nyx-core/src/dynamics/orbital.rs
+++ b/nyx-core/src/dynamics/orbital.rs
@@ -294,15 +294,12 @@ impl AccelModel for PointMasses {
                     action: "computing third body gravitational pull",
                 })?;
 
-            let r_ij: Vector3<OHyperdual<f64, Const<7>>> = hyperspace_from_vector(&st_ij.radius_km);
+            // The position of the third body does not depend on that of the spacecraft, so it has no dual part.
+            let r_ij: Vector3<OHyperdual<f64, Const<7>>> =
+                st_ij.radius_km.map(OHyperdual::from_real);
             let r_ij3 = norm(&r_ij).powi(3);
 
-            // The difference leads to the dual parts nulling themselves out, so let's fix that.
-            let mut r_j = radius - r_ij; // sc as seen from 3rd body
-            r_j[0][1] = 1.0;
-            r_j[1][2] = 1.0;
-            r_j[2][3] = 1.0;
-
+            let r_j = radius - r_ij; // sc as seen from 3rd body
             let r_j3 = norm(&r_j).powi(3);
             let mut third_body_acc_d = r_j / r_j3 + r_ij / r_ij3;
             third_body_acc_d[0] *= gm_d;
-- 
2.43.0


From 5ae0ac30b6fcb77fd78732f78d44dedfe44229ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:05 +0000
Subject: [PATCH 71/91] fix: report devices without stochastic noises instead
 of panicking

---
 nyx-core/src/od/ground_station/trk_device.rs | 14 ++++++++++++--
 nyx-core/src/od/groundpnt/trk_device.rs      |  7 ++++++-
 nyx-core/src/od/interlink/trk_device.rs      | 14 ++++++++++++--
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/od/ground_station/trk_device.rs b/nyx-core/src/od/ground_station/trk_device.rs
index 10cc99b..27b3040 100644
--- a/nyx-core/src/od/ground_station/trk_device.rs
+++ b/nyx-core/src/od/ground_station/trk_device.rs
@@ -215,7 +215,12 @@ impl TrackingDevice<Spacecraft> for GroundStation {
     /// a diagonal matrix. The first item in the diagonal is the range noise (in km), set to the square of the steady state sigma. The
     /// second item is the Doppler noise (in km/s), set to the square of the steady state sigma of that Gauss Markov process.
     fn measurement_covar(&self, msr_type: MeasurementType, epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics = self
+            .stochastic_noises
+            .as_ref()
+            .ok_or(ODError::NoiseNotConfigured {
+                kind: format!("{msr_type:?}"),
+            })?;
 
         Ok(stochastics
             .get(&msr_type)
@@ -226,7 +231,12 @@ impl TrackingDevice<Spacecraft> for GroundStation {
     }
 
     fn measurement_bias(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics = self
+            .stochastic_noises
+            .as_ref()
+            .ok_or(ODError::NoiseNotConfigured {
+                kind: format!("{msr_type:?}"),
+            })?;
 
         if let Some(gm) = stochastics
             .get(&msr_type)
diff --git a/nyx-core/src/od/groundpnt/trk_device.rs b/nyx-core/src/od/groundpnt/trk_device.rs
index fa7e5e2..7e5a060 100644
--- a/nyx-core/src/od/groundpnt/trk_device.rs
+++ b/nyx-core/src/od/groundpnt/trk_device.rs
@@ -215,7 +215,12 @@ impl TrackingDevice<GroundAsset> for InterlinkTxSpacecraft {
     }
 
     fn measurement_bias(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics = self
+            .stochastic_noises
+            .as_ref()
+            .ok_or(ODError::NoiseNotConfigured {
+                kind: format!("{msr_type:?}"),
+            })?;
 
         if let Some(gm) = stochastics
             .get(&msr_type)
diff --git a/nyx-core/src/od/interlink/trk_device.rs b/nyx-core/src/od/interlink/trk_device.rs
index dd23b26..6d09d3e 100644
--- a/nyx-core/src/od/interlink/trk_device.rs
+++ b/nyx-core/src/od/interlink/trk_device.rs
@@ -241,7 +241,12 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
     /// a diagonal matrix. The first item in the diagonal is the range noise (in km), set to the square of the steady state sigma. The
     /// second item is the Doppler noise (in km/s), set to the square of the steady state sigma of that Gauss Markov process.
     fn measurement_covar(&self, msr_type: MeasurementType, epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics = self
+            .stochastic_noises
+            .as_ref()
+            .ok_or(ODError::NoiseNotConfigured {
+                kind: format!("{msr_type:?}"),
+            })?;
 
         Ok(stochastics
             .get(&msr_type)
@@ -252,7 +257,12 @@ impl TrackingDevice<Spacecraft> for InterlinkTxSpacecraft {
     }
 
     fn measurement_bias(&self, msr_type: MeasurementType, _epoch: Epoch) -> Result<f64, ODError> {
-        let stochastics = self.stochastic_noises.as_ref().unwrap();
+        let stochastics = self
+            .stochastic_noises
+            .as_ref()
+            .ok_or(ODError::NoiseNotConfigured {
+                kind: format!("{msr_type:?}"),
+            })?;
 
         if let Some(gm) = stochastics
             .get(&msr_type)
-- 
2.43.0


From 506f96e116ceba13bec9f3c37e8bee99bacb03ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:07 +0000
Subject: [PATCH 72/91] fix: Ruggiero guidance coasts in the eclipses it is
 configured to avoid

---
 nyx-core/src/dynamics/guidance/ruggiero.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/ruggiero.rs b/nyx-core/src/dynamics/guidance/ruggiero.rs
index 4dead80..1d1e5a7 100644
--- a/nyx-core/src/dynamics/guidance/ruggiero.rs
+++ b/nyx-core/src/dynamics/guidance/ruggiero.rs
@@ -435,14 +435,16 @@ impl GuidanceLaw for Ruggiero {
                         > max_eclipse
                     {
                         // Coast in eclipse
-                        sc.mode = GuidanceMode::Coast;
+                        sc.mut_mode(GuidanceMode::Coast);
                     } else {
-                        sc.mode = GuidanceMode::Thrust;
+                        sc.mut_mode(GuidanceMode::Thrust);
                     }
-                } else if sc.mode() == GuidanceMode::Coast {
-                    debug!("enabling steering: {:x}", sc.orbit);
+                } else {
+                    if sc.mode() == GuidanceMode::Coast {
+                        debug!("enabling steering: {:x}", sc.orbit);
+                    }
+                    sc.mut_mode(GuidanceMode::Thrust);
                 }
-                sc.mut_mode(GuidanceMode::Thrust);
             } else {
                 if sc.mode() == GuidanceMode::Thrust {
                     debug!("disabling steering: {:x}", sc.orbit);
-- 
2.43.0


From 8131f8b7c7f23c3f14802b1be3ba2d21f47081dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:07 +0000
Subject: [PATCH 73/91] fix: radial component of the Kluever steering for the
 equinoctial eccentricity vector

---
 nyx-core/src/dynamics/guidance/kluever.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/kluever.rs b/nyx-core/src/dynamics/guidance/kluever.rs
index 6c0684a..56d2962 100644
--- a/nyx-core/src/dynamics/guidance/kluever.rs
+++ b/nyx-core/src/dynamics/guidance/kluever.rs
@@ -222,7 +222,7 @@ impl GuidanceLaw for Kluever {
                     let k = sc
                         .value(StateParameter::Element(OrbitalElement::EquinoctialK))
                         .context(GuidStateSnafu)?;
-                    sum_weighted_num_alpha += weight * cos_l;
+                    sum_weighted_num_alpha += weight * (-cos_l);
                     sum_weighted_den_alpha +=
                         weight * (sin_l + (h + sin_l) / (1.0 + h * sin_l + k * cos_l));
                 }
@@ -235,7 +235,7 @@ impl GuidanceLaw for Kluever {
                     let k = sc
                         .value(StateParameter::Element(OrbitalElement::EquinoctialK))
                         .context(GuidStateSnafu)?;
-                    sum_weighted_num_alpha += weight * (-sin_l);
+                    sum_weighted_num_alpha += weight * sin_l;
                     sum_weighted_den_alpha +=
                         weight * (cos_l + (k + cos_l) / (1.0 + h * sin_l + k * cos_l));
                 }
-- 
2.43.0


From 51cb18ab90cc11ca3d75f39097f210631b9b00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:08 +0000
Subject: [PATCH 74/91] fix: Kluever guidance does not thrust when it has
 nothing to correct

---
 nyx-core/src/dynamics/guidance/kluever.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/dynamics/guidance/kluever.rs b/nyx-core/src/dynamics/guidance/kluever.rs
index 56d2962..ab60a3b 100644
--- a/nyx-core/src/dynamics/guidance/kluever.rs
+++ b/nyx-core/src/dynamics/guidance/kluever.rs
@@ -265,6 +265,14 @@ impl GuidanceLaw for Kluever {
             }
         }
 
+        if sum_weighted_num_alpha == 0.0
+            && sum_weighted_den_alpha == 0.0
+            && sum_weighted_num_beta == 0.0
+        {
+            // Nothing to correct
+            return Ok(Vector3::zeros());
+        }
+
         // Calculate blended steering angles
         let alpha = sum_weighted_num_alpha.atan2(sum_weighted_den_alpha);
 
@@ -288,7 +296,7 @@ impl GuidanceLaw for Kluever {
 
     /// Either thrust full power or not at all
     fn throttle(&self, sc: &Spacecraft) -> Result<f64, GuidanceError> {
-        if sc.mode() == GuidanceMode::Thrust {
+        if sc.mode() == GuidanceMode::Thrust && self.direction(sc)?.norm() > 0.0 {
             Ok(1.0)
         } else {
             Ok(0.0)
-- 
2.43.0


From 0626dc88d25ae0cae7c05e005980ce3b5ed875ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:54 +0000
Subject: [PATCH 75/91] fix: Kluever steering for the equinoctial inclination
 vector as it is defined

---
 nyx-core/src/dynamics/guidance/kluever.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nyx-core/src/dynamics/guidance/kluever.rs b/nyx-core/src/dynamics/guidance/kluever.rs
index ab60a3b..303448a 100644
--- a/nyx-core/src/dynamics/guidance/kluever.rs
+++ b/nyx-core/src/dynamics/guidance/kluever.rs
@@ -173,6 +173,14 @@ impl GuidanceLaw for Kluever {
             })?
             .to_radians();
 
+        let inc_rad = osc
+            .inc_deg()
+            .context(GuidancePhysicsSnafu {
+                action: "Kluever guidance",
+            })?
+            .to_radians();
+        let cos2_half_inc = (0.5 * inc_rad).cos().powi(2);
+
         let u_rad = ta_rad + aop_rad;
         let l_rad = u_rad + raan_rad;
         let (sin_l, cos_l) = l_rad.sin_cos();
@@ -241,14 +249,18 @@ impl GuidanceLaw for Kluever {
                 }
 
                 StateParameter::Element(OrbitalElement::EquinoctialP) => {
-                    // P = tan(i/2) * sin(RAAN)
-                    let beta_opt = if sin_l >= 0.0 { 1.0 } else { -1.0 };
+                    // P = sin(i/2) * sin(RAAN)
+                    let rate =
+                        cos2_half_inc * u_rad.cos() * raan_rad.sin() + u_rad.sin() * raan_rad.cos();
+                    let beta_opt = if rate >= 0.0 { 1.0 } else { -1.0 };
                     sum_weighted_num_beta += weight * beta_opt;
                 }
 
                 StateParameter::Element(OrbitalElement::EquinoctialQ) => {
-                    // Q = tan(i/2) * cos(RAAN)
-                    let beta_opt = if cos_l >= 0.0 { 1.0 } else { -1.0 };
+                    // Q = sin(i/2) * cos(RAAN)
+                    let rate =
+                        cos2_half_inc * u_rad.cos() * raan_rad.cos() - u_rad.sin() * raan_rad.sin();
+                    let beta_opt = if rate >= 0.0 { 1.0 } else { -1.0 };
                     sum_weighted_num_beta += weight * beta_opt;
                 }
 
-- 
2.43.0


From a895d286863f56c3969cca8f8a581b8a61007162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:44 +0000
Subject: [PATCH 76/91] fix: Ruggiero out of plane steering of the argument of
 periapsis is out of plane

---
 nyx-core/src/dynamics/guidance/ruggiero.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nyx-core/src/dynamics/guidance/ruggiero.rs b/nyx-core/src/dynamics/guidance/ruggiero.rs
index 1d1e5a7..05e4654 100644
--- a/nyx-core/src/dynamics/guidance/ruggiero.rs
+++ b/nyx-core/src/dynamics/guidance/ruggiero.rs
@@ -381,7 +381,7 @@ impl GuidanceLaw for Ruggiero {
                             steering += unit_vector_from_plane_angles(alpha, 0.0) * weight;
                         } else {
                             // Out of plane
-                            let beta = half_pi.copysign(-(ta_rad + aop_rad).sin()) * inc_rad.cos();
+                            let beta = half_pi.copysign(-(ta_rad + aop_rad).sin() * inc_rad.cos());
                             steering += unit_vector_from_plane_angles(0.0, beta) * weight;
                         };
                     }
-- 
2.43.0


From 01bc35b4cae230b880faa8f30eb87e9e9fb45610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:04 +0000
Subject: [PATCH 77/91] fix: a malformed trajectory file is an error, not a
 panic

---
 nyx-core/src/md/trajectory/sc_traj.rs | 34 +++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index a4e9717..634e37f 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -22,7 +22,7 @@ use crate::State;
 use crate::cosmic::{GuidanceMode, Spacecraft};
 use crate::dynamics::guidance::{ThrustDirectionReplay, Thruster};
 use crate::errors::{FromAlmanacSnafu, NyxError};
-use crate::io::{InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
+use crate::io::{ArrowSnafu, InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
 use crate::md::prelude::{Interpolatable, StateParameter};
 use crate::time::{Duration, Epoch, TimeUnits};
 use anise::analysis::prelude::OrbitalElement;
@@ -214,7 +214,9 @@ impl Traj<Spacecraft> {
             action: "opening trajectory file",
         })?;
 
-        let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+        let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+            action: "opening trajectory file",
+        })?;
 
         let mut metadata = HashMap::new();
         // Build the custom metadata
@@ -342,24 +344,26 @@ impl Traj<Spacecraft> {
 
         // Now convert each batch on the fly
         for maybe_batch in reader {
-            let batch = maybe_batch.unwrap();
+            let batch = maybe_batch.context(ArrowSnafu {
+                action: "reading batch of trajectory data",
+            })?;
 
             let epochs = batch
                 .column_by_name("Epoch (UTC)")
-                .unwrap()
-                .as_any()
-                .downcast_ref::<StringArray>()
-                .unwrap();
+                .and_then(|column| column.as_any().downcast_ref::<StringArray>())
+                .ok_or_else(|| InputOutputError::MissingData {
+                    which: "Epoch (UTC) as text".to_string(),
+                })?;
 
             let mut shared_data = vec![];
             let guidance_mode_data = if has_guidance_mode {
                 Some(
                     batch
                         .column_by_name(StateParameter::GuidanceMode().to_field(None).name())
-                        .unwrap()
-                        .as_any()
-                        .downcast_ref::<StringArray>()
-                        .unwrap(),
+                        .and_then(|column| column.as_any().downcast_ref::<StringArray>())
+                        .ok_or_else(|| InputOutputError::MissingData {
+                            which: "guidance mode as text".to_string(),
+                        })?,
                 )
             } else {
                 None
@@ -371,10 +375,10 @@ impl Traj<Spacecraft> {
                         *field,
                         batch
                             .column_by_name(field.to_field(None).name())
-                            .unwrap()
-                            .as_any()
-                            .downcast_ref::<Float64Array>()
-                            .unwrap(),
+                            .and_then(|column| column.as_any().downcast_ref::<Float64Array>())
+                            .ok_or_else(|| InputOutputError::MissingData {
+                                which: format!("numeric `{}` field", field.to_field(None).name()),
+                            })?,
                     ));
                 }
             }
-- 
2.43.0


From 6414b972e1254ea990259a0116ded54164b5d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:48 +0000
Subject: [PATCH 78/91] fix: exporting an empty window of a trajectory is an
 error, not a panic

---
 nyx-core/src/md/trajectory/traj.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index 6aa4bd9..d6ccb04 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -238,6 +238,12 @@ where
             self.states.to_vec()
         };
 
+        if states.is_empty() {
+            return Err(Box::new(TrajError::CreationError {
+                msg: "No trajectory to export".to_string(),
+            }));
+        }
+
         // Build the schema
         let mut hdrs = vec![Field::new("Epoch (UTC)", DataType::Utf8, false)];
 
-- 
2.43.0


From 0f3d1dbc3cd2e1ea2bed905bfd377e999e59b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:48 +0000
Subject: [PATCH 79/91] fix: a trajectory read from parquet keeps its Cr, Cd,
 thrust directions and absent thrusters

---
 nyx-core/src/md/trajectory/sc_traj.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/md/trajectory/sc_traj.rs b/nyx-core/src/md/trajectory/sc_traj.rs
index 634e37f..2cdd924 100644
--- a/nyx-core/src/md/trajectory/sc_traj.rs
+++ b/nyx-core/src/md/trajectory/sc_traj.rs
@@ -23,6 +23,7 @@ use crate::cosmic::{GuidanceMode, Spacecraft};
 use crate::dynamics::guidance::{ThrustDirectionReplay, Thruster};
 use crate::errors::{FromAlmanacSnafu, NyxError};
 use crate::io::{ArrowSnafu, InputOutputError, MissingDataSnafu, ParquetSnafu, StdIOSnafu};
+use crate::linalg::Vector3;
 use crate::md::prelude::{Interpolatable, StateParameter};
 use crate::time::{Duration, Epoch, TimeUnits};
 use anise::analysis::prelude::OrbitalElement;
@@ -246,6 +247,8 @@ impl Traj<Spacecraft> {
             (StateParameter::DryMass(), false),
             (StateParameter::Isp(), false),
             (StateParameter::PropMass(), false),
+            (StateParameter::Cr(), false),
+            (StateParameter::Cd(), false),
             (StateParameter::Thrust(), false),
             (StateParameter::ThrustX(), false),
             (StateParameter::ThrustY(), false),
@@ -395,8 +398,9 @@ impl Traj<Spacecraft> {
                 })?);
                 state.set_frame(frame.unwrap()); // We checked it was set above with an ensure! call
                 state.unset_stm(); // We don't have any STM data, so let's unset this.
-                if found_fields.iter().any(|(field, exists)| {
-                    *exists && matches!(field, StateParameter::Isp() | StateParameter::Thrust())
+                if shared_data.iter().any(|(field, data)| {
+                    matches!(field, StateParameter::Isp() | StateParameter::Thrust())
+                        && data.is_valid(i)
                 }) {
                     state.thruster = Some(Thruster {
                         thrust_N: 0.0,
@@ -411,12 +415,24 @@ impl Traj<Spacecraft> {
                     });
                 }
 
+                // The thrust direction is normalized when set, so its components must be set together.
+                let mut thrust_direction = [None; 3];
+
                 for (param, data) in &shared_data {
                     if data.is_valid(i) {
-                        state.set_value(*param, data.value(i)).unwrap();
+                        match param {
+                            StateParameter::ThrustX() => thrust_direction[0] = Some(data.value(i)),
+                            StateParameter::ThrustY() => thrust_direction[1] = Some(data.value(i)),
+                            StateParameter::ThrustZ() => thrust_direction[2] = Some(data.value(i)),
+                            _ => state.set_value(*param, data.value(i)).unwrap(),
+                        }
                     }
                 }
 
+                if let [Some(x), Some(y), Some(z)] = thrust_direction {
+                    state.mut_thrust_direction(Some(Vector3::new(x, y, z)));
+                }
+
                 traj.states.push(state);
             }
         }
-- 
2.43.0


From 3953814a93dc3e1ef2b315967858898a5ce2343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:51 +0000
Subject: [PATCH 80/91] fix: exporting a window of an OD solution also
 restricts its gains and filter-smoother ratios

---
 nyx-core/src/od/process/solution/export.rs | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/nyx-core/src/od/process/solution/export.rs b/nyx-core/src/od/process/solution/export.rs
index 90931a2..22e2314 100644
--- a/nyx-core/src/od/process/solution/export.rs
+++ b/nyx-core/src/od/process/solution/export.rs
@@ -346,7 +346,7 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
+        let (estimates, residuals, gains, filter_smoother_ratios) =
             if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
                 // Must interpolate the data!
                 let start = cfg
@@ -359,17 +359,27 @@ where
                 let mut residuals: Vec<Option<Residual<MsrSize>>> =
                     Vec::with_capacity(self.residuals.len());
                 let mut estimates = Vec::with_capacity(self.estimates.len());
+                let mut gains = Vec::with_capacity(self.gains.len());
+                let mut filter_smoother_ratios =
+                    Vec::with_capacity(self.filter_smoother_ratios.len());
 
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
+                for (idx, estimate) in self.estimates.iter().enumerate() {
                     if estimate.epoch() >= start && estimate.epoch() <= end {
                         estimates.push(*estimate);
-                        residuals.push(residual.clone());
+                        residuals.push(self.residuals[idx].clone());
+                        gains.push(self.gains[idx].clone());
+                        filter_smoother_ratios.push(self.filter_smoother_ratios[idx]);
                     }
                 }
 
-                (estimates, residuals)
+                (estimates, residuals, gains, filter_smoother_ratios)
             } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
+                (
+                    self.estimates.to_vec(),
+                    self.residuals.to_vec(),
+                    self.gains.to_vec(),
+                    self.filter_smoother_ratios.to_vec(),
+                )
             };
 
         // Build all of the records
@@ -587,7 +597,7 @@ where
         for i in 0..est_size {
             for j in 0..MsrSize::DIM {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -601,7 +611,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..est_size {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From 383f6cc06f7171aaf456f2a8c730c2991adb10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:54 +0000
Subject: [PATCH 81/91] fix: a malformed OD solution file is an error, not a
 panic

---
 nyx-core/src/od/process/solution/import.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index adf9c9f..b2b0017 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -83,7 +83,9 @@ where
           action: "opening OD solution file",
       })?;
 
-      let builder = ParquetRecordBatchReaderBuilder::try_new(file).unwrap();
+      let builder = ParquetRecordBatchReaderBuilder::try_new(file).context(ParquetSnafu {
+          action: "opening OD solution file",
+      })?;
 
       let mut metadata = HashMap::new();
       // Build the custom metadata
@@ -149,6 +151,12 @@ where
           }
       );
 
+      let srp_area_m2 = srp_area_m2.ok_or_else(|| InputOutputError::MissingData {
+          which: "SRP area in metadata".to_string(),
+      })?;
+      let drag_area_m2 = drag_area_m2.ok_or_else(|| InputOutputError::MissingData {
+          which: "drag area in metadata".to_string(),
+      })?;
 
         let mut estimates: Vec<KfEstimate<Spacecraft>> = Vec::new();
         let mut residuals: Vec<Option<Residual<MsrSize>>> = Vec::new();
@@ -381,10 +389,10 @@ where
                             dry_mass_col.value(i),
                             prop_mass_col.value(i))
                     ).srp(SRPData {
-                        area_m2: srp_area_m2.expect("somehow srp area isn't set"),
+                        area_m2: srp_area_m2,
                         coeff_reflectivity: cr_col.value(i)
                     }).drag(DragData{
-                        area_m2: drag_area_m2.expect("somehow dragarea isn't set"),
+                        area_m2: drag_area_m2,
                         coeff_drag: cd_col.value(i)
                     }).build();
 
-- 
2.43.0


From eaa08148bb1963bba74bd36efa5d5cbe1ecd495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:56 +0000
Subject: [PATCH 82/91] fix: an OD solution read from parquet keeps its
 whitened residuals and the order of its measurement types

---
 nyx-core/src/od/process/solution/import.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index b2b0017..fe47609 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -33,7 +33,7 @@ use anise::structure::spacecraft::{DragData, Mass, SRPData};
 use arrow::array::RecordBatchReader;
 use arrow::array::{Array, BooleanArray, Float64Array, StringArray};
 use hifitime::Epoch;
-use indexmap::IndexSet;
+use indexmap::{IndexMap, IndexSet};
 use log::{info, warn};
 use msr::sensitivity::TrackerSensitivity;
 use parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder;
@@ -289,10 +289,11 @@ where
             let tracker_col = get_col("Tracker").ok().and_then(|arr| arr.as_any().downcast_ref::<StringArray>().cloned());
             let ratio_col = get_col("Residual ratio").ok().and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned());
 
-            let mut residual_data_cols: HashMap<MeasurementType, BTreeMap<String, Float64Array>> = HashMap::new();
+            // In the order of the measurement types, which is that of the components of the residuals.
+            let mut residual_data_cols: IndexMap<MeasurementType, BTreeMap<String, Float64Array>> = IndexMap::new();
             for msr_type in &measurement_types_found {
                  let mut type_cols = BTreeMap::new();
-                 let prefixes = ["Prefit residual", "Whitened residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
+                 let prefixes = ["Prefit residual", "Postfit residual", "Measurement noise", "Real observation", "Computed observation"];
                  for prefix in prefixes {
                       // Again, guessing column name format
                       let base_name = format!("{}: {:?} ({})", prefix, msr_type, msr_type.unit());
@@ -304,6 +305,11 @@ where
                  residual_data_cols.insert(*msr_type, type_cols);
             }
 
+            // The whitened residuals are stored by component, not by measurement type.
+            let whitened_cols: Vec<Option<Float64Array>> = (0..MsrSize::DIM)
+                .map(|j| get_col(&format!("Whitened residual #{j}")).ok().and_then(|arr| arr.as_any().downcast_ref::<Float64Array>().cloned()))
+                .collect();
+
             // Gain columns (store for iteration)
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
             let mut gain_available = true;
@@ -442,16 +448,14 @@ where
 
                            // Check if data exists for this type *at this row*
                            let prefit_val = type_cols.get("Prefit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
-                           let whitened_resid_val = type_cols.get("Whitened residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let postfit_val = type_cols.get("Postfit residual").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let noise_val = type_cols.get("Measurement noise").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let real_val = type_cols.get("Real observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
                            let comp_val = type_cols.get("Computed observation").and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None });
 
                            // Only include if *at least one* value is present for this type in this row
-                           if prefit_val.is_some() || whitened_resid_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
+                           if prefit_val.is_some() || postfit_val.is_some() || noise_val.is_some() || real_val.is_some() || comp_val.is_some() {
                                 prefit_vec[msr_idx] = prefit_val.unwrap_or(f64::NAN);
-                                whitened_vec[msr_idx] = whitened_resid_val.unwrap_or(f64::NAN);
                                 postfit_vec[msr_idx] = postfit_val.unwrap_or(f64::NAN);
                                 noise_vec[msr_idx] = noise_val.unwrap_or(f64::NAN);
                                 real_obs_vec[msr_idx] = real_val.unwrap_or(f64::NAN);
@@ -461,6 +465,10 @@ where
                            }
                      }
 
+                     for (j, col) in whitened_cols.iter().enumerate() {
+                          whitened_vec[j] = col.as_ref().and_then(|col| if col.is_valid(i) { Some(col.value(i)) } else { None }).unwrap_or(f64::NAN);
+                     }
+
                      // Resize vectors if fewer than MsrSize types were found for this row
                      // This part is tricky and depends on how multi-type residuals were stored.
                      // Assuming vectors should always have MsrSize, filled potentially with NaN.
-- 
2.43.0


From 1fff886a8ebe28fcf23ef604b2ee3dddfd167f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:59 +0000
Subject: [PATCH 83/91] fix: an OD solution read from parquet keeps its gains
 when its measurement types are more than its components

---
 nyx-core/src/od/process/solution/import.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/od/process/solution/import.rs b/nyx-core/src/od/process/solution/import.rs
index fe47609..4cb9c63 100644
--- a/nyx-core/src/od/process/solution/import.rs
+++ b/nyx-core/src/od/process/solution/import.rs
@@ -314,14 +314,17 @@ where
             let mut gain_cols: Vec<Option<Float64Array>> = Vec::new();
             let mut gain_available = true;
             for i in 0..state_size {
-                for f in &measurement_types_found {
-                    // Guessing format - needs robust parsing or metadata
-                    let base_name = format!(
-                        "Gain {}*{f:?} ({}*{})",
-                        state_items[i],
-                        cov_units[i],
-                        f.unit()
-                    );
+                for j in 0..MsrSize::DIM {
+                    // The gains are named after the measurement types only if there is one type per component.
+                    let base_name = match measurement_types_found.get_index(j) {
+                        Some(f) if measurement_types_found.len() == MsrSize::DIM => format!(
+                            "Gain {}*{f:?} ({}*{})",
+                            state_items[i],
+                            cov_units[i],
+                            f.unit()
+                        ),
+                        _ => format!("Gain {}*[{j}]", state_items[i]),
+                    };
                     let col_name = schema.fields().iter()
                          .find(|f| f.name().starts_with(&base_name))
                          .map(|f| f.name().as_str());
-- 
2.43.0


From 6b9b044c7dae3ac1db9ca26b86a81e213935b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:02 +0000
Subject: [PATCH 84/91] fix: a fixed or last step into not a number is an
 error, as an adaptive step is

---
 nyx-core/src/propagators/instance.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/propagators/instance.rs b/nyx-core/src/propagators/instance.rs
index ab0094b..46599cf 100644
--- a/nyx-core/src/propagators/instance.rs
+++ b/nyx-core/src/propagators/instance.rs
@@ -367,6 +367,21 @@ where
         Ok(())
     }
 
+    /// Returns an error if any component of the next state is not a number.
+    fn check_numbers(
+        next_state: &OVector<f64, <D::StateType as State>::VecLength>,
+    ) -> Result<(), PropagationError> {
+        if next_state.iter().any(|x| x.is_nan()) {
+            return Err(PropagationError::PropMathError {
+                source: MathError::DomainError {
+                    value: f64::NAN,
+                    msg: "try another integration method, or decrease step size; part of state vector is",
+                },
+            });
+        }
+        Ok(())
+    }
+
     /// This method integrates whichever function is provided as `d_xdt`. Everything passed to this function is in **seconds**.
     ///
     /// This function returns the step sized used (as a Duration) and the new state as y_{n+1} = y_n + \frac{dy_n}{dt}.
@@ -431,6 +446,7 @@ where
 
             if self.fixed_step {
                 // Using a fixed step, no adaptive step necessary
+                Self::check_numbers(&next_state)?;
                 self.details.step = self.step_size;
                 return Ok(((self.details.step), next_state));
             } else {
@@ -445,14 +461,7 @@ where
                     || step_size_s.abs() <= self.prop.opts.min_step.to_seconds()
                     || self.details.attempts >= self.prop.opts.attempts
                 {
-                    if next_state.iter().any(|x| x.is_nan()) {
-                        return Err(PropagationError::PropMathError {
-                            source: MathError::DomainError {
-                                value: f64::NAN,
-                                msg: "try another integration method, or decrease step size; part of state vector is",
-                            },
-                        });
-                    }
+                    Self::check_numbers(&next_state)?;
                     if self.details.attempts >= self.prop.opts.attempts {
                         warn!(
                             "Could not further decrease step size: maximum number of attempts reached ({})",
-- 
2.43.0


From edc1d74f3b5f23e52e3f3f92b08a8a70c7f34de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:02 +0000
Subject: [PATCH 85/91] fix: a zero thrust direction is no direction instead of
 not a number

---
 nyx-core/src/cosmic/spacecraft.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nyx-core/src/cosmic/spacecraft.rs b/nyx-core/src/cosmic/spacecraft.rs
index 600a62e..6c67e87 100644
--- a/nyx-core/src/cosmic/spacecraft.rs
+++ b/nyx-core/src/cosmic/spacecraft.rs
@@ -323,7 +323,8 @@ impl Spacecraft {
 
     /// Set the thrust direction from its unit vector.
     pub fn mut_thrust_direction(&mut self, direction: Option<Vector3<f64>>) {
-        self.thrust_direction = direction.map(Into::into);
+        // A zero vector has no direction, and cannot be normalized.
+        self.thrust_direction = direction.filter(|u| u.norm() > 0.0).map(Into::into);
     }
 
     /// Return the thrust angles in degrees for the provided frame.
-- 
2.43.0


From ced9767cbe61abc4b9fa0e2dacb958a49a43462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:23 +0000
Subject: [PATCH 86/91] fix: Kolmogorov-Smirnov statistic of the residuals on
 both sides of each step, for all components

---
 nyx-core/src/od/process/solution/stats.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/process/solution/stats.rs b/nyx-core/src/od/process/solution/stats.rs
index cb32fe3..10278f3 100644
--- a/nyx-core/src/od/process/solution/stats.rs
+++ b/nyx-core/src/od/process/solution/stats.rs
@@ -225,9 +225,11 @@ where
         // Compute the maximum difference between the empirical CDF and the normal CDF.
         let mut d_stat = 0.0;
         for (i, &value) in residual_ratios.iter().enumerate() {
+            // The empirical CDF jumps at this value: compare both sides of the step.
             let empirical_cdf = (i + 1) as f64 / n;
+            let prev_empirical_cdf = i as f64 / n;
             let model_cdf = normal_dist.cdf(value);
-            let diff = (empirical_cdf - model_cdf).abs();
+            let diff = (empirical_cdf - model_cdf).max(model_cdf - prev_empirical_cdf);
             if diff > d_stat {
                 d_stat = diff;
             }
@@ -264,7 +266,8 @@ where
         // Compute the c_alpha
         let c_alpha = (-(alpha * 0.5).ln() * 0.5).sqrt();
 
-        let d_critical = c_alpha / (n as f64).sqrt();
+        // The statistic is computed on each component of the whitened residuals.
+        let d_critical = c_alpha / ((n * MsrSize::DIM) as f64).sqrt();
 
         Ok(ks_stat <= d_critical)
     }
-- 
2.43.0


From 534814cd23e8366147133b204905e249b056429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:33 +0000
Subject: [PATCH 87/91] fix: exporting a window or a single measurement type of
 a ground asset solution no longer fails

---
 nyx-core/src/od/groundpnt/solution.rs | 98 ++++++++++++++++-----------
 1 file changed, 60 insertions(+), 38 deletions(-)

diff --git a/nyx-core/src/od/groundpnt/solution.rs b/nyx-core/src/od/groundpnt/solution.rs
index 0383580..3d348af 100644
--- a/nyx-core/src/od/groundpnt/solution.rs
+++ b/nyx-core/src/od/groundpnt/solution.rs
@@ -224,19 +224,31 @@ where
         hdrs.append(&mut msr_fields);
 
         // Add the filter gain columns
-        for i in 0..state_items.len() {
-            for f in &self.measurement_types {
-                hdrs.push(Field::new(
-                    format!(
-                        "Gain {}*{f:?} ({}*{}*{})",
-                        state_items[i],
-                        state_units[i],
-                        state_units[i],
-                        f.unit()
-                    ),
-                    DataType::Float64,
-                    true,
-                ));
+        if self.measurement_types.len() == 2 {
+            for i in 0..state_items.len() {
+                for f in &self.measurement_types {
+                    hdrs.push(Field::new(
+                        format!(
+                            "Gain {}*{f:?} ({}*{}*{})",
+                            state_items[i],
+                            state_units[i],
+                            state_units[i],
+                            f.unit()
+                        ),
+                        DataType::Float64,
+                        true,
+                    ));
+                }
+            }
+        } else {
+            for state_item in &state_items {
+                for j in 0..2 {
+                    hdrs.push(Field::new(
+                        format!("Gain {state_item}*[{j}]"),
+                        DataType::Float64,
+                        true,
+                    ));
+                }
             }
         }
 
@@ -257,31 +269,41 @@ where
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
         // Build the states iterator -- this does require copying the current states but I can't either get a reference or a copy of all the states.
-        let (estimates, residuals) =
-            if cfg.start_epoch.is_some() || cfg.end_epoch.is_some() || cfg.step.is_some() {
-                // Must interpolate the data!
-                let start = cfg
-                    .start_epoch
-                    .unwrap_or_else(|| self.estimates.first().unwrap().state().epoch());
-                let end = cfg
-                    .end_epoch
-                    .unwrap_or_else(|| self.estimates.last().unwrap().state().epoch());
-
-                let mut residuals: Vec<Option<Residual<U2>>> =
-                    Vec::with_capacity(self.residuals.len());
-                let mut estimates = Vec::with_capacity(self.estimates.len());
-
-                for (estimate, residual) in self.estimates.iter().zip(self.residuals.iter()) {
-                    if estimate.epoch() >= start && estimate.epoch() <= end {
-                        estimates.push(*estimate);
-                        residuals.push(residual.clone());
-                    }
+        let (estimates, residuals, gains, filter_smoother_ratios) = if cfg.start_epoch.is_some()
+            || cfg.end_epoch.is_some()
+            || cfg.step.is_some()
+        {
+            // Must interpolate the data!
+            let start = cfg
+                .start_epoch
+                .unwrap_or_else(|| self.estimates.first().unwrap().state().epoch());
+            let end = cfg
+                .end_epoch
+                .unwrap_or_else(|| self.estimates.last().unwrap().state().epoch());
+
+            let mut residuals: Vec<Option<Residual<U2>>> = Vec::with_capacity(self.residuals.len());
+            let mut estimates = Vec::with_capacity(self.estimates.len());
+            let mut gains = Vec::with_capacity(self.gains.len());
+            let mut filter_smoother_ratios = Vec::with_capacity(self.filter_smoother_ratios.len());
+
+            for (idx, estimate) in self.estimates.iter().enumerate() {
+                if estimate.epoch() >= start && estimate.epoch() <= end {
+                    estimates.push(*estimate);
+                    residuals.push(self.residuals[idx].clone());
+                    gains.push(self.gains[idx]);
+                    filter_smoother_ratios.push(self.filter_smoother_ratios[idx]);
                 }
+            }
 
-                (estimates, residuals)
-            } else {
-                (self.estimates.to_vec(), self.residuals.to_vec())
-            };
+            (estimates, residuals, gains, filter_smoother_ratios)
+        } else {
+            (
+                self.estimates.to_vec(),
+                self.residuals.to_vec(),
+                self.gains.to_vec(),
+                self.filter_smoother_ratios.to_vec(),
+            )
+        };
 
         // Build all of the records
 
@@ -447,7 +469,7 @@ where
         for i in 0..state_items.len() {
             for j in 0..2 {
                 let mut data = Float64Builder::new();
-                for opt_k in &self.gains {
+                for opt_k in &gains {
                     if let Some(k) = opt_k {
                         data.append_value(k[(i, j)]);
                     } else {
@@ -461,7 +483,7 @@ where
         // Add the filter-smoother consistency ratios
         for i in 0..state_items.len() {
             let mut data = Float64Builder::new();
-            for opt_fsr in &self.filter_smoother_ratios {
+            for opt_fsr in &filter_smoother_ratios {
                 if let Some(fsr) = opt_fsr {
                     data.append_value(fsr[i]);
                 } else {
-- 
2.43.0


From df70f11d59ddde0b5b8f0a4ebd282f0a0f3f7fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:33 +0000
Subject: [PATCH 88/91] fix: malformed data lines of a TDM are errors and its
 comments are ignored

---
 nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
index 89c89a1..b9bee78 100644
--- a/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
+++ b/nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs
@@ -626,9 +626,17 @@ fn parse_measurement_line(
     line: &str,
     time_system: TimeScale,
 ) -> Result<Option<(MeasurementType, Epoch, f64)>, InputOutputError> {
+    if line.is_empty() || line.starts_with("COMMENT") {
+        return Ok(None);
+    }
+
+    let malformed = || InputOutputError::Inconsistency {
+        msg: format!("malformed TDM data line `{line}`"),
+    };
+
     let parts: Vec<&str> = line.split('=').collect();
     if parts.len() != 2 {
-        return Ok(None);
+        return Err(malformed());
     }
 
     let (mtype_str, data) = (parts[0].trim(), parts[1].trim());
@@ -656,7 +664,7 @@ fn parse_measurement_line(
 
     let data_parts: Vec<&str> = data.split_whitespace().collect();
     if data_parts.len() != 2 {
-        return Ok(None);
+        return Err(malformed());
     }
 
     let epoch =
-- 
2.43.0


From fdfaa3a213396e96eb45bdca33c35d71be254c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:08 +0000
Subject: [PATCH 89/91] fix: the targeter honours the step and bounds of the
 angles of a finite burn

---
 nyx-core/src/md/opti/raphson_finite_diff.rs | 30 +++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 9d593be..3eb8915 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -625,6 +625,27 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     delta[i]
                 );
 
+                // The thrust direction and epochs are bounded below, on the maneuver itself.
+                if !var.component.is_finite_burn()
+                    || matches!(
+                        var.component,
+                        Vary::MnvrAlpha
+                            | Vary::MnvrAlphaDot
+                            | Vary::MnvrAlphaDDot
+                            | Vary::MnvrDelta
+                            | Vary::MnvrDeltaDot
+                            | Vary::MnvrDeltaDDot
+                    )
+                {
+                    // Choose the minimum step between the provided max step and the correction.
+                    if delta[i].abs() > var.max_step.abs() {
+                        delta[i] = var.max_step.abs() * delta[i].signum();
+                    }
+                    // The bounds are on the variable itself, i.e. on its total correction.
+                    delta[i] =
+                        var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
+                }
+
                 let corr = delta[i];
 
                 if var.component.is_finite_burn() {
@@ -708,14 +729,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                         _ => unreachable!(),
                     }
                 } else {
-                    // Choose the minimum step between the provided max step and the correction.
-                    if delta[i].abs() > var.max_step.abs() {
-                        delta[i] = var.max_step.abs() * delta[i].signum();
-                    }
-                    // The bounds are on the variable itself, i.e. on its total correction.
-                    delta[i] =
-                        var.apply_bounds(total_correction[i] + delta[i]) - total_correction[i];
-                    state_correction[var.component.vec_index()] += delta[i];
+                    state_correction[var.component.vec_index()] += corr;
                 }
             }
 
-- 
2.43.0


From b30e76ba76164b3a4060454c913e1bccfd849971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:45 +0000
Subject: [PATCH 90/91] fix: a finite burn solution returns the maneuver which
 achieved its objectives

---
 nyx-core/src/md/opti/raphson_finite_diff.rs |   1 +
 nyx-core/src/md/opti/raphson_hyperdual.rs   |   1 +
 nyx-core/src/md/opti/solution.rs            | 118 +-------------------
 3 files changed, 8 insertions(+), 112 deletions(-)

diff --git a/nyx-core/src/md/opti/raphson_finite_diff.rs b/nyx-core/src/md/opti/raphson_finite_diff.rs
index 3eb8915..4115226 100644
--- a/nyx-core/src/md/opti/raphson_finite_diff.rs
+++ b/nyx-core/src/md/opti/raphson_finite_diff.rs
@@ -572,6 +572,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     achieved_errors: err_vector,
                     achieved_objectives: self.objectives,
                     iterations: it,
+                    mnvr: finite_burn_target.then_some(mnvr),
                 };
                 // Log success as info
                 if it == 1 {
diff --git a/nyx-core/src/md/opti/raphson_hyperdual.rs b/nyx-core/src/md/opti/raphson_hyperdual.rs
index 73955d9..858731c 100644
--- a/nyx-core/src/md/opti/raphson_hyperdual.rs
+++ b/nyx-core/src/md/opti/raphson_hyperdual.rs
@@ -281,6 +281,7 @@ impl<const V: usize, const O: usize> Targeter<'_, V, O> {
                     achieved_errors: err_vector,
                     achieved_objectives: self.objectives,
                     iterations: it,
+                    mnvr: None,
                 };
                 info!("Targeter -- CONVERGED in {it} iterations");
                 for obj in &objmsg {
diff --git a/nyx-core/src/md/opti/solution.rs b/nyx-core/src/md/opti/solution.rs
index 38c7ac1..87308da 100644
--- a/nyx-core/src/md/opti/solution.rs
+++ b/nyx-core/src/md/opti/solution.rs
@@ -16,15 +16,13 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
 */
 
-use hifitime::TimeUnits;
-use snafu::{ResultExt, ensure};
+use snafu::OptionExt;
 
-use crate::dynamics::guidance::{LocalFrame, Maneuver, MnvrRepr};
+use crate::dynamics::guidance::Maneuver;
 use crate::linalg::SVector;
 use crate::md::objective::Objective;
-use crate::md::{GuidanceSnafu, NotFiniteSnafu, TargetingError, prelude::*};
+use crate::md::{NotFiniteSnafu, TargetingError, prelude::*};
 pub use crate::md::{Variable, Vary};
-use crate::polyfit::CommonPolynomial;
 use std::fmt;
 use std::time::Duration;
 
@@ -47,6 +45,8 @@ pub struct TargeterSolution<const V: usize, const O: usize> {
     pub iterations: usize,
     /// Computation duration
     pub computation_dur: Duration,
+    /// The maneuver which achieves the objectives if the correction is a finite burn
+    pub mnvr: Option<Maneuver>,
 }
 
 impl<const V: usize, const O: usize> TargeterSolution<V, O> {
@@ -62,113 +62,7 @@ impl<const V: usize, const O: usize> TargeterSolution<V, O> {
 
     /// Returns a maneuver if targeter solution was a finite burn maneuver
     pub fn to_mnvr(&self) -> Result<Maneuver, TargetingError> {
-        ensure!(self.is_finite_burn(), NotFiniteSnafu);
-
-        let correction_epoch = self.corrected_state.epoch();
-        let achievement_epoch = self.achieved_state.epoch();
-        let mut mnvr = Maneuver {
-            start: correction_epoch,
-            end: achievement_epoch,
-            thrust_prct: 1.0,
-            representation: MnvrRepr::Angles {
-                azimuth: CommonPolynomial::Quadratic {
-                    a: 0.0,
-                    b: 0.0,
-                    c: 0.0,
-                },
-                elevation: CommonPolynomial::Quadratic {
-                    a: 0.0,
-                    b: 0.0,
-                    c: 0.0,
-                },
-            },
-            frame: LocalFrame::RCN,
-        };
-
-        for (i, var) in self.variables.iter().enumerate() {
-            let corr = self.correction[i];
-
-            // Modify the maneuver, but do not change the epochs of the maneuver unless the change is greater than one millisecond
-            match var.component {
-                Vary::Duration => {
-                    if corr.abs() > 1e-3 {
-                        // Check that we are within the bounds
-                        let init_duration_s = (correction_epoch - achievement_epoch).to_seconds();
-                        let acceptable_corr = var.apply_bounds(init_duration_s).seconds();
-                        mnvr.end = mnvr.start + acceptable_corr;
-                    }
-                }
-                Vary::EndEpoch => {
-                    if corr.abs() > 1e-3 {
-                        // Check that we are within the bounds
-                        let total_end_corr =
-                            (mnvr.end + corr.seconds() - achievement_epoch).to_seconds();
-                        let acceptable_corr = var.apply_bounds(total_end_corr).seconds();
-                        mnvr.end += acceptable_corr;
-                    }
-                }
-                Vary::StartEpoch => {
-                    if corr.abs() > 1e-3 {
-                        // Check that we are within the bounds
-                        let total_start_corr =
-                            (mnvr.start + corr.seconds() - correction_epoch).to_seconds();
-                        let acceptable_corr = var.apply_bounds(total_start_corr).seconds();
-                        mnvr.end += acceptable_corr;
-
-                        mnvr.start += corr.seconds()
-                    }
-                }
-                Vary::MnvrAlpha | Vary::MnvrAlphaDot | Vary::MnvrAlphaDDot => {
-                    match mnvr.representation {
-                        MnvrRepr::Angles { azimuth, elevation } => {
-                            let azimuth = azimuth
-                                .add_val_in_order(corr, var.component.vec_index())
-                                .unwrap();
-                            mnvr.representation = MnvrRepr::Angles { azimuth, elevation };
-                        }
-                        _ => unreachable!(),
-                    };
-                }
-                Vary::MnvrDelta | Vary::MnvrDeltaDot | Vary::MnvrDeltaDDot => {
-                    match mnvr.representation {
-                        MnvrRepr::Angles { azimuth, elevation } => {
-                            let elevation = elevation
-                                .add_val_in_order(corr, var.component.vec_index())
-                                .unwrap();
-                            mnvr.representation = MnvrRepr::Angles { azimuth, elevation };
-                        }
-                        _ => unreachable!(),
-                    };
-                }
-                Vary::ThrustX | Vary::ThrustY | Vary::ThrustZ => {
-                    let mut vector = mnvr.direction();
-                    vector[var.component.vec_index()] += corr;
-                    var.ensure_bounds(&mut vector[var.component.vec_index()]);
-                    mnvr.set_direction(vector).context(GuidanceSnafu)?;
-                }
-                Vary::ThrustRateX | Vary::ThrustRateY | Vary::ThrustRateZ => {
-                    let mut vector = mnvr.rate();
-                    let idx = (var.component.vec_index() - 1) % 3;
-                    vector[idx] += corr;
-                    var.ensure_bounds(&mut vector[idx]);
-                    mnvr.set_rate(vector).context(GuidanceSnafu)?;
-                }
-                Vary::ThrustAccelX | Vary::ThrustAccelY | Vary::ThrustAccelZ => {
-                    let mut vector = mnvr.accel();
-                    let idx = (var.component.vec_index() - 1) % 3;
-                    vector[idx] += corr;
-                    var.ensure_bounds(&mut vector[idx]);
-                    mnvr.set_accel(vector).context(GuidanceSnafu)?;
-                }
-                Vary::ThrustLevel => {
-                    mnvr.thrust_prct += corr;
-                    var.ensure_bounds(&mut mnvr.thrust_prct);
-                }
-                _ => unreachable!(),
-            }
-        }
-
-        Ok(mnvr)
+        self.mnvr.context(NotFiniteSnafu)
     }
 }
 
-- 
2.43.0


From 7a9992d634df506bc9e7767008a7fb689a5c830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:43 +0000
Subject: [PATCH 91/91] fix: the difference of two trajectories honours the
 requested window and exports what both have

---
 nyx-core/src/md/trajectory/traj.rs | 71 +++++++++++++-----------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/nyx-core/src/md/trajectory/traj.rs b/nyx-core/src/md/trajectory/traj.rs
index d6ccb04..0d375c9 100644
--- a/nyx-core/src/md/trajectory/traj.rs
+++ b/nyx-core/src/md/trajectory/traj.rs
@@ -19,7 +19,7 @@
 use super::traj_it::TrajIterator;
 use super::{ExportCfg, INTERPOLATION_SAMPLES, InterpolationSnafu};
 use super::{Interpolatable, TrajError};
-use crate::errors::{NyxError, StateError};
+use crate::errors::NyxError;
 use crate::io::InputOutputError;
 use crate::io::watermark::pq_writer;
 use crate::linalg::DefaultAllocator;
@@ -460,7 +460,26 @@ where
                 .unwrap_or(frame.to_string()),
         )]);
 
-        let mut cfg = cfg;
+        // Ensure the times match.
+        let mut start_epoch = self.first().epoch().max(other.first().epoch());
+        if let Some(requested) = cfg.start_epoch {
+            start_epoch = start_epoch.max(requested);
+        }
+
+        let mut end_epoch = self.last().epoch().min(other.last().epoch());
+        if let Some(requested) = cfg.end_epoch {
+            end_epoch = end_epoch.min(requested);
+        }
+
+        // Build the states iterator
+        let step = cfg.step.unwrap_or_else(|| 1.minutes());
+        let self_states = self
+            .every_between(step, start_epoch, end_epoch)
+            .collect::<Vec<S>>();
+
+        let other_states = other
+            .every_between(step, start_epoch, end_epoch)
+            .collect::<Vec<S>>();
 
         let mut fields = match cfg.fields {
             Some(fields) => fields,
@@ -469,40 +488,21 @@ where
 
         // Remove disallowed field and check that we can retrieve this information
         fields.retain(|param| {
-            param != &StateParameter::GuidanceMode() && self.first().value(*param).is_ok()
+            param != &StateParameter::GuidanceMode()
+                && other_states
+                    .iter()
+                    .zip(self_states.iter())
+                    .any(|(o, s)| s.value(*param).is_ok() && o.value(*param).is_ok())
         });
 
         for field in &fields {
-            hdrs.push(field.to_field(more_meta.clone()));
+            hdrs.push(field.to_field(more_meta.clone()).with_nullable(true));
         }
 
         // Build the schema
         let schema = Arc::new(Schema::new(hdrs));
         let mut record: Vec<Arc<dyn Array>> = Vec::new();
 
-        // Ensure the times match.
-        cfg.start_epoch = if self.first().epoch() > other.first().epoch() {
-            Some(self.first().epoch())
-        } else {
-            Some(other.first().epoch())
-        };
-
-        cfg.end_epoch = if self.last().epoch() > other.last().epoch() {
-            Some(other.last().epoch())
-        } else {
-            Some(self.last().epoch())
-        };
-
-        // Build the states iterator
-        let step = cfg.step.unwrap_or_else(|| 1.minutes());
-        let self_states = self
-            .every_between(step, cfg.start_epoch.unwrap(), cfg.end_epoch.unwrap())
-            .collect::<Vec<S>>();
-
-        let other_states = other
-            .every_between(step, cfg.start_epoch.unwrap(), cfg.end_epoch.unwrap())
-            .collect::<Vec<S>>();
-
         // Build an array of all the RIC differences
         let mut ric_diff = Vec::with_capacity(other_states.len());
         for (other_state, self_state) in other_states.iter().zip(self_states.iter()) {
@@ -540,19 +540,10 @@ where
         for field in fields {
             let mut data = Float64Builder::new();
             for (other_state, self_state) in other_states.iter().zip(self_states.iter()) {
-                let self_val =
-                    self_state
-                        .value(field)
-                        .map_err(|err: StateError| TrajError::TrajGeneric {
-                            err: err.to_string(),
-                        })?;
-                let other_val =
-                    other_state
-                        .value(field)
-                        .map_err(|err: StateError| TrajError::TrajGeneric {
-                            err: err.to_string(),
-                        })?;
-                data.append_value(self_val - other_val);
+                match (self_state.value(field), other_state.value(field)) {
+                    (Ok(self_val), Ok(other_val)) => data.append_value(self_val - other_val),
+                    _ => data.append_null(),
+                }
             }
 
             record.push(Arc::new(data.finish()));
-- 
2.43.0

