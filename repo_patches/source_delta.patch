From ddd36fb84f321f103803be6ac59fa34754f04144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:16 +0000
Subject: [PATCH 01/40] fix: push bunches whose first time step is longer than
 the element

The last push is shortened so that it ends at t_final, but the first one was
not. With push_bunches_before_diags=False, a bunch whose time step exceeds
the transit time was therefore never pushed at all.
---
 wake_t/tracking/tracker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 0a3600e..437366d 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -178,6 +178,12 @@ class Tracker():
             else:
                 dt_objects[i] = dt
 
+        # Make sure that the first push does not bring the bunches beyond
+        # `t_final`. Otherwise, they would never be pushed.
+        n_bunches = len(self.bunches)
+        dt_objects[:n_bunches] = np.minimum(
+            dt_objects[:n_bunches], self.t_final)
+
         # Start tracking loop.
         while True:
 
-- 
2.43.0


From e6fc9c385cc6f3b6686e5585e08f7d33ee781a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:16 +0000
Subject: [PATCH 02/40] fix: allow tracking with n_diags=0

The default value of n_diags failed with an AttributeError because the list
of output bunches was only created for n_diags > 0.
---
 wake_t/tracking/tracker.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 437366d..06403f7 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -126,13 +126,13 @@ class Tracker():
                 self.auto_dt_bunches.append(self.bunches[i])
 
         # If needed, add diagnostics to objects to track.
+        self.bunch_list = []
+        for bunch in bunches:
+            self.bunch_list.append([])
         if self.n_diags > 0:
             self.objects_to_track.append('diags')
             self.dt_diags = self.t_final/self.n_diags
             self.dt_objects.append(self.dt_diags)
-            self.bunch_list = []
-            for bunch in bunches:
-                self.bunch_list.append([])
 
         # Initialize tracking time.
         self.t_tracking = 0.
@@ -164,7 +164,8 @@ class Tracker():
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-        self.generate_diagnostics()
+        if self.n_diags > 0:
+            self.generate_diagnostics()
 
         # Allocate arrays containing the time step and current time of all
         # objects during tracking.
@@ -185,7 +186,7 @@ class Tracker():
             dt_objects[:n_bunches], self.t_final)
 
         # Start tracking loop.
-        while True:
+        while len(self.objects_to_track) > 0:
 
             # Calculate next time of all objects.
             t_next_objects = t_objects + dt_objects
-- 
2.43.0


From d3b9032491467ed8a7f3c525df1553f03d622b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:14 +0000
Subject: [PATCH 03/40] fix: keep tags, t_flight and z_injection when copying a
 ParticleBunch

copy() is documented to return the coordinates and properties of the bunch,
and is used for every output bunch of the field elements.
---
 wake_t/particles/particle_bunch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 09e3018..01d6f8e 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -311,7 +311,10 @@ class ParticleBunch():
             px=deepcopy(self.px),
             py=deepcopy(self.py),
             pz=deepcopy(self.pz),
+            tags=deepcopy(self.tags),
             prop_distance=deepcopy(self.prop_distance),
+            t_flight=deepcopy(self.t_flight),
+            z_injection=deepcopy(self.z_injection),
             name=deepcopy(self.name),
             q_species=deepcopy(self.q_species),
             m_species=deepcopy(self.m_species)
-- 
2.43.0


From 36c738908b567ed8ddb0cbe762b70f6e308f6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:14 +0000
Subject: [PATCH 04/40] fix: make the output bunches of TMElements independent
 and complete

The output bunches shared the array of weights with the tracked bunch (and
among themselves) and lost its tags, t_flight and z_injection.
---
 wake_t/beamline_elements/tm_elements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index bf1647d..4149610 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -1,4 +1,5 @@
 """ Contains the classes of all elements tracked using transfer matrices. """
+from copy import deepcopy
 from typing import Optional, Union, List
 import time
 
@@ -257,8 +258,12 @@ class TMElement():
             new_bunch_mat = np.dot(rot, new_bunch_mat)
         new_bunch_mat[0] += new_x_ref
         # create new bunch
-        new_bunch = ParticleBunch(old_bunch.w, bunch_matrix=new_bunch_mat,
+        new_bunch = ParticleBunch(np.array(old_bunch.w),
+                                  bunch_matrix=new_bunch_mat,
+                                  tags=deepcopy(old_bunch.tags),
                                   prop_distance=new_prop_dist,
+                                  t_flight=old_bunch.t_flight,
+                                  z_injection=old_bunch.z_injection,
                                   name=old_bunch.name,
                                   q_species=old_bunch.q_species,
                                   m_species=old_bunch.m_species)
-- 
2.43.0


From 227d151ceb1602a7998cfe137d2b90ab5db20033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:14 +0000
Subject: [PATCH 05/40] fix: update the bunch in TMElement.track with
 out_initial and no n_out

Without n_out, the only output bunch is the initial one, and the tracked
bunch was reset to it instead of to its state at the end of the element.
---
 wake_t/beamline_elements/tm_elements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 4149610..186684e 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -173,7 +173,9 @@ class TMElement():
                         l_curr/ct.c, l_step/ct.c, [output_bunch_list[-1]])
 
         # Update bunch data
-        self._update_input_bunch(bunch, bunch_mat, output_bunch_list)
+        self._update_input_bunch(
+            bunch, bunch_mat,
+            output_bunch_list if len(output_steps) > 0 else [])
 
         # Add element length to diagnostics position
         if opmd_diag is not None:
-- 
2.43.0


From 84d4fade3e11eb25a094299b875f87d379f9a80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:55 +0000
Subject: [PATCH 06/40] fix: clear also the element steps of the CSR calculator

After clear(), the next lattice elements used the steps of the elements of
the previous beamline, so they were tracked over a wrong length.
---
 wake_t/physics_models/collective_effects/csr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 098b0d8..2a5869d 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -52,6 +52,7 @@ class CSRCalculator():
         self._ref_traj = None
         self._lattice_elements = []
         self._lattice_element_steps = []
+        self._lattice_element_traj_steps = []
 
     def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
         """
-- 
2.43.0


From ab69d3f81a44a52e1ec23164d62a599420808f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:05:55 +0000
Subject: [PATCH 07/40] fix: do not lose a CSR step to rounding

The CSR step divides the element length, but int() truncates quotients such
as 2.9999999999999996, so that the last step of the element was skipped.
---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 186684e..63ed40a 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -209,7 +209,7 @@ class TMElement():
             frac_out = 0
         if self.csr_on:
             csr_track_step = self.csr_calculator.get_csr_step(self)
-            n_csr = int(self.length / csr_track_step)
+            n_csr = int(np.round(self.length / csr_track_step))
             if self.n_out is not None:
                 frac_out = int(n_csr / self.n_out)
             l_step = csr_track_step
-- 
2.43.0


From dedb036ae0f50a257d307734205746bd7fa10d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:06:58 +0000
Subject: [PATCH 08/40] fix: CSR removes energy from the bunch for both signs
 of the charge

The CSR kick is proportional to the product of the charge of the bunch and
that of its particles, but the (negative) charge of electron bunches was
used, so that electrons gained the energy that they should radiate.
---
 wake_t/beamline_elements/tm_elements.py         | 2 +-
 wake_t/physics_models/collective_effects/csr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 63ed40a..69ba0c9 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -159,7 +159,7 @@ class TMElement():
                 self.gamma_ref, order=self.order)
             # Apply CSR
             if self.csr_on:
-                self.csr_calculator.apply_csr(bunch_mat, bunch.q,
+                self.csr_calculator.apply_csr(bunch_mat, np.abs(bunch.q),
                                               self.gamma_ref, self, l_curr)
             # Add bunch to output list
             if i in output_steps:
diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 2a5869d..281cbd9 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -69,7 +69,7 @@ class CSRCalculator():
             Matrix containing the (x, xp, y, yp, tau, dp) components of each
             bunch particle.
         bunch_q : ndarray
-            Array containing the charge of each particle.
+            Array containing the absolute charge of each particle.
         gamma : float
             Reference energy used for the CSR calculation.
         element : TMElement
-- 
2.43.0


From 9b27d70fa55ac3e4c88dfc24bb5c7d6f44944156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:07:12 +0000
Subject: [PATCH 09/40] fix: use the average gamma of each bunch tracked
 through a TMElement

If no gamma_ref is given, the average gamma of the bunch is used. This value
was stored in the element, so that all bunches tracked afterwards used the
average gamma of the first one.
---
 wake_t/beamline_elements/tm_elements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 69ba0c9..c734647 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -112,6 +112,7 @@ class TMElement():
         """
         # Convert bunch to ocelot units and reference frame
         bunch_mat, g_avg = self._get_beam_matrix_for_tracking(bunch)
+        given_gamma_ref = self.gamma_ref
         if self.gamma_ref is None:
             self.gamma_ref = g_avg
 
@@ -181,6 +182,9 @@ class TMElement():
         if opmd_diag is not None:
             opmd_diag.increase_z_pos(self.length)
 
+        # Do not keep the average gamma of this bunch for the next tracking.
+        self.gamma_ref = given_gamma_ref
+
         # Finalize
         if show_progress_bar:
             tracking_time = time.time() - start_time
-- 
2.43.0


From e968c9da5f5277154943dd7e2bdb2072691613dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:35 +0000
Subject: [PATCH 10/40] fix: add the blowout fields to those of the other
 fields

The components of the blowout models overwrote the contribution of the fields
gathered before them instead of adding to it, so that, e.g., an external
field given before them in the list of fields had no effect.
---
 wake_t/physics_models/plasma_wakefields/custom_blowout.py   | 6 +++---
 wake_t/physics_models/plasma_wakefields/focusing_blowout.py | 4 ++--
 wake_t/physics_models/plasma_wakefields/simple_blowout.py   | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wake_t/physics_models/plasma_wakefields/custom_blowout.py b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
index 1f1a364..50c1b4d 100644
--- a/wake_t/physics_models/plasma_wakefields/custom_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
@@ -38,12 +38,12 @@ class CustomBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_0 = constants[1]
@@ -53,7 +53,7 @@ class CustomBlowoutWakefield(AnalyticalField):
 
             xi_off = - xi_fields + (1 - b_w) * ct.c * t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_0 + e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_0 + e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
diff --git a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
index 23bc5ed..de59416 100644
--- a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
@@ -11,11 +11,11 @@ class FocusingBlowoutField(AnalyticalField):
 
         def e_x(x, y, xi, t, ex, k):
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k[i] * x[i]
+                ex[i] += ct.c * k[i] * x[i]
 
         def e_y(x, y, xi, t, ey, k):
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k[i] * y[i]
+                ey[i] += ct.c * k[i] * y[i]
 
         super().__init__(e_x=e_x, e_y=e_y)
 
diff --git a/wake_t/physics_models/plasma_wakefields/simple_blowout.py b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
index 41caa13..85c2ea3 100644
--- a/wake_t/physics_models/plasma_wakefields/simple_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
@@ -18,12 +18,12 @@ class SimpleBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_p = constants[1]
@@ -35,7 +35,7 @@ class SimpleBlowoutWakefield(AnalyticalField):
             # Precalculate offset.
             xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
-- 
2.43.0


From 14059e9da85f2c0a37961e2d03e51609aa2c19a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:12 +0000
Subject: [PATCH 11/40] fix: gather finite fields for particles on axis

---
 wake_t/particles/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wake_t/particles/interpolation.py b/wake_t/particles/interpolation.py
index 7bfe378..f24b568 100644
--- a/wake_t/particles/interpolation.py
+++ b/wake_t/particles/interpolation.py
@@ -124,7 +124,8 @@ def gather_main_fields_cyl_linear(
         y_i = y[i]
         z_i = z[i]
         r_i = math.sqrt(x_i**2 + y_i**2)
-        inv_r_i = 1./r_i
+        # The transverse fields vanish on axis.
+        inv_r_i = 1./r_i if r_i > 0. else 0.
 
         # Gather field only if particle is within field boundaries.
         if z_i >= z_min and z_i <= z_max and r_i <= r_max:
-- 
2.43.0


From 26039b6889c1eb5bc312b96e70df23fd171574d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:12 +0000
Subject: [PATCH 12/40] fix: use the longitudinal position to detect particles
 beyond z_max in the linear deposition

---
 wake_t/particles/deposition.py                                  | 2 +-
 .../plasma_wakefields/qs_rz_baxevanis/deposition.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/deposition.py b/wake_t/particles/deposition.py
index 33e1dda..b3a1eaa 100644
--- a/wake_t/particles/deposition.py
+++ b/wake_t/particles/deposition.py
@@ -117,7 +117,7 @@ def deposit_3d_distribution_linear(z, x, y, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
index a4938a9..5b302df 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
@@ -87,7 +87,7 @@ def deposit_plasma_particles_linear(z_cell, r, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
-- 
2.43.0


From 14e5a30c54ab1c7816be54b3331cee703374ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:29 +0000
Subject: [PATCH 13/40] fix: longitudinal derivative of the wakefield potential
 with a parabolic plasma profile

---
 .../plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
index e9d6642..aa178e6 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
@@ -153,7 +153,7 @@ def calculate_psi_and_derivatives_at_particles(
     if r_right <= r_max:
         dxi_psi_pp += sum_3
     else:
-        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max/4)
+        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max**4/4)
                                * pr_i / (r_right * (1 + psi_i)))
 
     # Again, near the peak of a strong blowout, very large and unphysical
-- 
2.43.0


From ad33abfc601fee3b3035dc32a6860b081364d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 14/40] fix: solve the last row of the tridiagonal system of
 the laser envelope solver

---
 wake_t/physics_models/laser/tdma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/tdma.py b/wake_t/physics_models/laser/tdma.py
index f41f9c5..42e8b68 100644
--- a/wake_t/physics_models/laser/tdma.py
+++ b/wake_t/physics_models/laser/tdma.py
@@ -42,7 +42,7 @@ def TDMA(a, b, c, d, p):
         g[i] = (d[i] - a_im1 * g[i - 1]) * inv_coef
         w[i] = c[i] * inv_coef
 
-    g[-1] = (d[-1] - a[-2] * g[-2]) / (b[-1] - a[-2] * w[-2])
+    g[-1] = (d[-1] - a[-1] * g[-2]) / (b[-1] - a[-1] * w[-1])
 
     # Fill in output array.
     p[-1] = g[-1]
-- 
2.43.0


From ff59840fb3c2fde8435878cf9e04788d420ad8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 15/40] fix: reject any change of the laser envelope grid once
 it has been initialized

---
 wake_t/physics_models/laser/laser_pulse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 7576e95..3479e84 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -128,10 +128,10 @@ class LaserPulse():
         if self.n_steps > 0:
             # Check that grid parameters have not changed.
             if (
-                solver_params['zmin'] != self.solver_params['zmin'] and
-                solver_params['zmax'] != self.solver_params['zmax'] and
-                solver_params['rmax'] != self.solver_params['rmax'] and
-                solver_params['nz'] != self.solver_params['nz'] and
+                solver_params['zmin'] != self.solver_params['zmin'] or
+                solver_params['zmax'] != self.solver_params['zmax'] or
+                solver_params['rmax'] != self.solver_params['rmax'] or
+                solver_params['nz'] != self.solver_params['nz'] or
                 solver_params['nr'] != self.solver_params['nr']
             ):
                 raise ValueError(
-- 
2.43.0


From 0f537da26869ba8130673604fde53d479e17ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 16/40] fix: keep the polarization of summed laser pulses

---
 wake_t/physics_models/laser/laser_pulse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 3479e84..f5f422d 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -338,7 +338,11 @@ class SummedPulse(LaserPulse):
             raise ValueError(
                 'Only laser pulses with the same central wavelength'
                 ' can currently be summed.')
-        super().__init__(pulse_1.l_0)
+        if pulse_1.polarization != pulse_2.polarization:
+            raise ValueError(
+                'Only laser pulses with the same polarization'
+                ' can currently be summed.')
+        super().__init__(pulse_1.l_0, pulse_1.polarization)
         self.pulse_1 = pulse_1
         self.pulse_2 = pulse_2
 
-- 
2.43.0


From 90bff1202d45186bffe8bd5dbad04c16a9d1df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 17/40] fix: reject a change of the laser envelope grid also
 before the first step

---
 wake_t/physics_models/laser/laser_pulse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index f5f422d..1c46946 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -125,7 +125,7 @@ class LaserPulse():
             'use_phase': use_phase
         }
         # Check if laser pulse has already been initialized.
-        if self.n_steps > 0:
+        if self.a_env is not None:
             # Check that grid parameters have not changed.
             if (
                 solver_params['zmin'] != self.solver_params['zmin'] or
-- 
2.43.0


From 76ece9f8734355aabd7156cbb07110875ce56ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:47 +0000
Subject: [PATCH 18/40] fix: integral J3 in the T566 coefficient of
 combined-function elements

---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 9fe4119..604dadf 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -136,10 +136,8 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     f2y = (L - s2y) / ky2 if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
-    J3 = ((15*L - 22.5*sx + 9*sx*cx - 1.5*sx*cx*cx + kx2*sx2*sx) /
+    J3 = ((15*L - 22*sx + 9*sx*cx - 2*sx*cx*cx) /
           (6 * kx4 * kx2)) if kx != 0 else L ** 7 / 56.
-    # J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx ) / (
-    #        6 * kx4 * kx2) if kx != 0 else L ** 7 / 56.
     J_denom = kx2 - 4 * ky2
     Jc = (c2y - cx) / J_denom if J_denom != 0 else 0.5 * L2
     Js = (cy * sy - sx) / J_denom if J_denom != 0 else L3 / 6
-- 
2.43.0


From 056eee2a9be49e17ea590f4059630394e8181027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:48 +0000
Subject: [PATCH 19/40] fix: integral f2y in the second order matrix of
 combined-function elements

---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 604dadf..4ad5065 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -133,7 +133,7 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     s2y = sy * cy
     c2y = np.cos(2 * ky * L).real
     fx = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
-    f2y = (L - s2y) / ky2 if ky2 != 0 else L3 / 6
+    f2y = (L - s2y) / (4 * ky2) if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
     J3 = ((15*L - 22*sx + 9*sx*cx - 2*sx*cx*cx) /
-- 
2.43.0


From f49afc121fe924386264ecb83ea74bb8cf0ad4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:26 +0000
Subject: [PATCH 20/40] fix: allow tracking through a generic TMElement with
 progress bar

---
 wake_t/beamline_elements/tm_elements.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index c734647..66e9fcc 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -69,7 +69,7 @@ class TMElement():
         self.n_out = n_out
         self.order = order
         self.csr_calculator = get_csr_calculator()
-        self.element_name = ''
+        self.element_name = 'tm element'
 
     def track(
         self,
@@ -278,8 +278,8 @@ class TMElement():
         return new_bunch
 
     def _print_element_properties(self):
-        "To be implemented by each element. Prints the element properties"
-        raise NotImplementedError
+        "Prints the element properties. Can be overriden by each element"
+        print('Length = {:1.4f} m'.format(self.length))
 
 
 class Drift(TMElement):
-- 
2.43.0


From 4c6b526713f6d939b1c1d79a04921f71ca3499f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:42 +0000
Subject: [PATCH 21/40] fix: CSR position when the same element appears several
 times in the lattice

---
 .../physics_models/collective_effects/csr.py  | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 281cbd9..8baa0b5 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -37,10 +37,19 @@ class CSRCalculator():
 
     def get_csr_step(self, element):
         """Return the CSR step size used in the specified lattice element."""
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
         return ds_csr
 
+    def _get_element_index(self, element):
+        """
+        Return the index of the specified lattice element. If it has been added
+        several times, the last one is where the bunch currently is.
+
+        """
+        n_elements = len(self._lattice_elements)
+        return n_elements - 1 - self._lattice_elements[::-1].index(element)
+
     def clear(self):
         """
         Clear the CSR trajectory and list of lattice elements.
@@ -79,14 +88,12 @@ class CSRCalculator():
             element.
 
         """
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
 
         # Get current position along trajectory.
         s_current = 0
-        for el in self._lattice_elements:
-            if el is element:
-                break
+        for el in self._lattice_elements[:el_idx]:
             s_current += el.length
         s_current += element_pos
 
@@ -156,7 +163,7 @@ class CSRCalculator():
         M. Dohlus.
 
         """
-        el_idx = self._lattice_elements.index(element)
+        el_idx = self._get_element_index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
         n_steps = int(np.ceil(element.length / ds_traj))
         ds_traj = element.length / n_steps
-- 
2.43.0


From 039f34dfae0b2e2eb2611c8e4179805e4cbf1970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:49 +0000
Subject: [PATCH 22/40] fix: reallocate the auxiliary arrays of a bunch when
 its number of particles changes

---
 wake_t/particles/particle_bunch.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 01d6f8e..f011bc1 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -325,7 +325,10 @@ class ParticleBunch():
 
     def get_field_arrays(self):
         """Get the arrays where the gathered fields will be stored."""
-        if not self.__field_arrays_allocated:
+        if (
+            not self.__field_arrays_allocated
+            or len(self.__e_x) != len(self.x)
+        ):
             self.__preallocate_field_arrays()
         return (
             self.__e_x, self.__e_y, self.__e_z,
@@ -334,7 +337,10 @@ class ParticleBunch():
 
     def get_rk4_arrays(self):
         """Get the arrays needed by the RK4 pusher."""
-        if not self.__rk4_arrays_allocated:
+        if (
+            not self.__rk4_arrays_allocated
+            or len(self.__k_x) != len(self.x)
+        ):
             self.__preallocate_rk4_arrays()
         return (
             self.__x_rk4, self.__y_rk4, self.__xi_rk4,
-- 
2.43.0


From cbc592b6edd5f51b378a0735b7a0868a17ff1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:30 +0000
Subject: [PATCH 23/40] fix: start the numerical fields from t=0 every time an
 element is tracked

---
 wake_t/tracking/tracker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 06403f7..201a087 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -159,8 +159,9 @@ class Tracker():
             disable=not self.show_progress_bar,
         )
 
-        # Calculate fields at t=0.
+        # Calculate fields at t=0 (also if they were used in a previous tracking).
         for field in self.num_fields:
+            field.initialized = False
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-- 
2.43.0


From 9b9d826b4e01cd2c344e30a8091ad7b4d0f48b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:51 +0000
Subject: [PATCH 24/40] fix: do not add a field update by rounding when the
 tracking time is a multiple of the update period

---
 wake_t/fields/numerical_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wake_t/fields/numerical_field.py b/wake_t/fields/numerical_field.py
index 6fe68f9..c712ad5 100644
--- a/wake_t/fields/numerical_field.py
+++ b/wake_t/fields/numerical_field.py
@@ -95,7 +95,9 @@ class NumericalField(Field):
     ) -> None:
         """Autoadjust the time step of the field update."""
         if self.force_even_updates:
-            n_updates = np.ceil(t_final / self.dt_update)
+            # Round off to not add an update when `t_final` already is an
+            # integer multiple of `dt_update` (e.g., in a second tracking).
+            n_updates = max(1, np.ceil(np.round(t_final / self.dt_update, 9)))
             self.dt_update = t_final / n_updates
 
     def _initialize_properties(self, bunches):
-- 
2.43.0


From 1c217562a1063bc5940a9c11831d5ee71025c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:59 +0000
Subject: [PATCH 25/40] fix: restore the number of threads also if the tracking
 fails

---
 wake_t/tracking/tracker.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 201a087..db0f5f6 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -151,7 +151,16 @@ class Tracker():
         # requested by Wake-T.
         num_threads_outside_waket = get_num_threads()
         set_num_threads(num_threads)
-
+        try:
+            return self._do_tracking()
+        finally:
+            # Reset the number of threads to the value outside of Wake-T.
+            # This should help avoiding Wake-T to affect the behavior of other
+            # applications that require a different number of threads.
+            set_num_threads(num_threads_outside_waket)
+
+    def _do_tracking(self) -> List[List[ParticleBunch]]:
+        """Do the tracking with the number of threads already set."""
         # Initialize progress bar.
         progress_bar = get_progress_bar(
             description=self.section_name,
@@ -159,7 +168,7 @@ class Tracker():
             disable=not self.show_progress_bar,
         )
 
-        # Calculate fields at t=0 (also if they were used in a previous tracking).
+        # Calculate fields at t=0 (also if used in a previous tracking).
         for field in self.num_fields:
             field.initialized = False
             field.update(self.bunches)
@@ -262,11 +271,6 @@ class Tracker():
         # Close progress bar.
         progress_bar.close()
 
-        # Reset the number of threads to the value outside of Wake-T.
-        # This should help avoiding Wake-T to affect the behavior of other
-        # applications that require a different number of threads.
-        set_num_threads(num_threads_outside_waket)
-
         return self.bunch_list
 
     def evolve_bunch(
-- 
2.43.0


From f31b037b857ecc430c2f2e0c82c456386bf30992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 26/40] fix: read the parameters file with current h5py

Dataset.value was removed in h5py 3.0, so that read_parameters_from_file
always failed.
---
 wake_t/diagnostics/bunch_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/diagnostics/bunch_analysis.py b/wake_t/diagnostics/bunch_analysis.py
index b25d119..0f06d34 100644
--- a/wake_t/diagnostics/bunch_analysis.py
+++ b/wake_t/diagnostics/bunch_analysis.py
@@ -89,7 +89,7 @@ def read_parameters_from_file(file_path):
     bunch_params = {}
     with H5File(file_path, 'r') as h5_file:
         for param in h5_file.keys():
-            bunch_params[param] = h5_file.get(param).value
+            bunch_params[param] = h5_file.get(param)[()]
     return bunch_params
 
 
-- 
2.43.0


From 1543a78a2ce8679a7054a1fca8f03a59d52b5e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:41 +0000
Subject: [PATCH 27/40] fix: average relative energy in the alternative 6D
 matrix as documented

get_alternative_6D_matrix returned dp = (g-g_avg)/(g_avg*b_avg), while the
bunch setters document and use dp = (g-g_ref)/g_ref, so that the matrix
could not be used to restore the bunch.
---
 wake_t/particles/particle_bunch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index f011bc1..20e43fd 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -223,8 +223,7 @@ class ParticleBunch():
         """
         g = np.sqrt(1 + self.px**2 + self.py**2 + self.pz**2)
         g_avg = np.average(g, weights=self.w)
-        b_avg = np.sqrt(1 - g_avg**(-2))
-        dp = (g-g_avg)/(g_avg*b_avg)
+        dp = (g-g_avg)/g_avg
         p_kin = np.sqrt(g**2 - 1)
         return np.array([self.x, self.px/p_kin, self.y, self.py/p_kin,
                          self.xi, dp]), g_avg
-- 
2.43.0


From 2c80c13bab14b8aa553c5ced216208adedfd2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:04 +0000
Subject: [PATCH 28/40] fix: refuse an unknown ramp type instead of using a
 downramp

---
 wake_t/beamline_elements/plasma_ramp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/beamline_elements/plasma_ramp.py b/wake_t/beamline_elements/plasma_ramp.py
index 3590165..4be2085 100644
--- a/wake_t/beamline_elements/plasma_ramp.py
+++ b/wake_t/beamline_elements/plasma_ramp.py
@@ -145,6 +145,9 @@ class PlasmaRamp(PlasmaStage):
         name: Optional[str] = 'Plasma ramp',
         **model_params
     ) -> None:
+        if ramp_type not in ('upramp', 'downramp'):
+            raise ValueError(
+                'Ramp type "{}" not recognized'.format(ramp_type))
         self.ramp_type = ramp_type
         if position_down is None:
             position_down = length
-- 
2.43.0


From 1c8c423a6cac5f4af7f5591aa6d0b981d91d0c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:05 +0000
Subject: [PATCH 29/40] fix: refuse transfer matrix orders that are not
 available

---
 wake_t/beamline_elements/tm_elements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 66e9fcc..d8b4543 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -67,6 +67,10 @@ class TMElement():
         self.gamma_ref = gamma_ref
         self.csr_on = csr_on
         self.n_out = n_out
+        if order not in (1, 2):
+            raise ValueError(
+                "Transfer matrices of order '{}' are not ".format(order) +
+                "available. Possible values are 1 and 2.")
         self.order = order
         self.csr_calculator = get_csr_calculator()
         self.element_name = 'tm element'
-- 
2.43.0


From d12a11de9325ee60321ce7f1e4b7b1ecfb4e3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:05 +0000
Subject: [PATCH 30/40] fix: refuse an unknown bunch matrix type

---
 wake_t/particles/particle_bunch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 20e43fd..f83e1f1 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -89,6 +89,10 @@ class ParticleBunch():
             elif matrix_type == 'alternative':
                 self.set_phase_space_from_alternative_matrix(bunch_matrix,
                                                              gamma_ref)
+            else:
+                raise ValueError(
+                    "Matrix type '{}' not recognized. ".format(matrix_type) +
+                    "Possible values are 'standard' or 'alternative'.")
         else:
             self.x = x
             self.y = y
-- 
2.43.0


From 85c03060a21409775bad50c971ccb9a492f209cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:05 +0000
Subject: [PATCH 31/40] fix: refuse an unknown laser polarization

---
 wake_t/physics_models/laser/laser_pulse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 1c46946..c1d97b8 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -47,6 +47,10 @@ class LaserPulse():
         polarization: Optional[str] = 'linear'
     ) -> None:
         self.l_0 = l_0
+        if polarization not in ('linear', 'circular'):
+            raise ValueError(
+                "Laser polarization '{}' not recognized. ".format(polarization)
+                + "Possible values are 'linear' or 'circular'.")
         self.polarization = polarization
         self.a_env = None
         self.solver_params = None
-- 
2.43.0


From 47b16d3e821c708da7655fd6a97e714f19dd85d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:05 +0000
Subject: [PATCH 32/40] fix: refuse an unknown particle shape in the plasma
 deposition

---
 .../plasma_wakefields/qs_rz_baxevanis/deposition.py            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
index 5b302df..664e706 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
@@ -49,6 +49,9 @@ def deposit_plasma_particles(z_cell, r, w, z_min, r_min, nz, nr, dz, dr,
     elif p_shape == 'cubic':
         return deposit_plasma_particles_cubic(
             z_cell, r, w, z_min, r_min, nz, nr, dz, dr, deposition_array)
+    else:
+        raise ValueError("Particle shape not recognized. "
+                         "Possible values are 'linear' or 'cubic'.")
 
 
 @njit_serial
-- 
2.43.0


From a0024cd865651caf3455bcb035c3ae1633568276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:15 +0000
Subject: [PATCH 33/40] fix: use the adaptive time step for dt_bunch=None as
 documented

---
 wake_t/beamline_elements/field_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wake_t/beamline_elements/field_element.py b/wake_t/beamline_elements/field_element.py
index 31159d9..5faf459 100644
--- a/wake_t/beamline_elements/field_element.py
+++ b/wake_t/beamline_elements/field_element.py
@@ -122,6 +122,8 @@ class FieldElement():
                     f'does not match the number of bunches ({n_bunches}).'
                 )
             dt_bunch = self.dt_bunch
+        # `None` is equivalent to `'auto'`.
+        dt_bunch = ['auto' if dt is None else dt for dt in dt_bunch]
 
         # Create diagnostics instance.
         if type(opmd_diag) is not OpenPMDDiagnostics and opmd_diag:
-- 
2.43.0


From 30bbc740f08f9a231f753e0a2e37650738ac82a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:09 +0000
Subject: [PATCH 34/40] fix: document the wakefield model and ramp profile
 names that exist

---
 wake_t/beamline_elements/plasma_ramp.py  | 4 ++--
 wake_t/beamline_elements/plasma_stage.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wake_t/beamline_elements/plasma_ramp.py b/wake_t/beamline_elements/plasma_ramp.py
index 4be2085..7fbec4b 100644
--- a/wake_t/beamline_elements/plasma_ramp.py
+++ b/wake_t/beamline_elements/plasma_ramp.py
@@ -59,7 +59,7 @@ class PlasmaRamp(PlasmaStage):
         Length of the plasma ramp in m.
     profile : string or callable
         Longitudinal density profile of the ramp. Possible string values
-        are ``'gaussian'``, ``'inverse square'`` and ``'exponential'``.
+        are ``'gaussian'``, ``'inverse_square'`` and ``'exponential'``.
         A callable might also be provided as a function of the form
         ``'def func(z, decay_length, density_top, density_down,
         position_down)'`` that returns the density value at the given
@@ -67,7 +67,7 @@ class PlasmaRamp(PlasmaStage):
     ramp_type : string
         Possible types are ``'upramp'`` and ``'downramp'``.
     wakefield_model : str
-        Wakefield model to be used. Possible values are ``'blowout'``,
+        Wakefield model to be used. Possible values are ``'simple_blowout'``,
         ``'custom_blowout'``, ``'focusing_blowout'``, ``'cold_fluid_1d'`` and
         ``'quasistatic_2d'``.
     decay_length : float
diff --git a/wake_t/beamline_elements/plasma_stage.py b/wake_t/beamline_elements/plasma_stage.py
index ec9a83f..ece994e 100644
--- a/wake_t/beamline_elements/plasma_stage.py
+++ b/wake_t/beamline_elements/plasma_stage.py
@@ -33,7 +33,7 @@ class PlasmaStage(FieldElement):
     density : float
         Plasma density in units of m^{-3}.
     wakefield_model : str or Field, optional
-        Wakefield model to be used. Possible values are ``'blowout'``,
+        Wakefield model to be used. Possible values are ``'simple_blowout'``,
         ``'custom_blowout'``, ``'focusing_blowout'``, ``'cold_fluid_1d'``
         and ``'quasistatic_2d'``. If ``None``, no wakefields will be
         computed.
-- 
2.43.0


From b25872393f9344bae464f99663d13f4c6ff11f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:13 +0000
Subject: [PATCH 35/40] fix: start from the requested update period of a field
 in every tracking

---
 wake_t/fields/numerical_field.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wake_t/fields/numerical_field.py b/wake_t/fields/numerical_field.py
index c712ad5..4d976fe 100644
--- a/wake_t/fields/numerical_field.py
+++ b/wake_t/fields/numerical_field.py
@@ -46,6 +46,8 @@ class NumericalField(Field):
         self.dt_update = dt_update
         self.force_even_updates = force_even_updates
         self.initialized = False
+        self._dt_original = None
+        self._dt_adjusted = None
 
     def update(
         self,
@@ -95,10 +97,16 @@ class NumericalField(Field):
     ) -> None:
         """Autoadjust the time step of the field update."""
         if self.force_even_updates:
+            # If the time step was already adjusted in a previous tracking,
+            # start again from its original value.
+            if self.dt_update != self._dt_adjusted:
+                self._dt_original = self.dt_update
             # Round off to not add an update when `t_final` already is an
-            # integer multiple of `dt_update` (e.g., in a second tracking).
-            n_updates = max(1, np.ceil(np.round(t_final / self.dt_update, 9)))
+            # integer multiple of `dt_update`.
+            n_updates = max(
+                1, np.ceil(np.round(t_final / self._dt_original, 9)))
             self.dt_update = t_final / n_updates
+            self._dt_adjusted = self.dt_update
 
     def _initialize_properties(self, bunches):
         pass
-- 
2.43.0


From a3486865a7187239352e7ac5241ca46866ee92b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:26 +0000
Subject: [PATCH 36/40] fix: add to the field array in the documentation of
 analytical fields

---
 wake_t/fields/analytical_field.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wake_t/fields/analytical_field.py b/wake_t/fields/analytical_field.py
index f69a6a3..17c6c11 100644
--- a/wake_t/fields/analytical_field.py
+++ b/wake_t/fields/analytical_field.py
@@ -17,10 +17,12 @@ FieldFunction = Callable[
 class AnalyticalField(Field):
     """Class used to define fields with analytical components.
 
-    The given components (Ex, Ey, Ez, Bx, By, Bz) must be functions taking 5
+    The given components (Ex, Ey, Ez, Bx, By, Bz) must be functions taking 6
     arguments (3 arrays containing the x, y, z positions where to calculate the
-    field; 1 array with the same size where the field values will be stored;
-    and a list of constants). The given functions must be written in a way
+    field; the time; 1 array with the same size to which the field values will
+    be added; and a list of constants). Since this array also holds the
+    contribution of other fields, the functions must add to its values instead
+    of overwriting them. The given functions must be written in a way
     which allows them to be compiled with ``numba``.
 
     Not all components need to be given. Those which are not specified will
@@ -53,9 +55,9 @@ class AnalyticalField(Field):
     >>> def linear_ex(x, y, z, t, ex, constants):
     ...     ex_slope = constants[0]
     ...     for i in prange(x.shape[0]):
-    ...         ex[i] = ex_slope * x[i]
+    ...         ex[i] += ex_slope * x[i]
     ...
-    >>> ex = AnalyticField(e_x=linear_ex, constants=[1e6])
+    >>> ex = AnalyticalField(e_x=linear_ex, constants=[1e6])
 
     """
 
-- 
2.43.0


From 876a4ccb3eb4a5988482aa0607c77e598c0ea4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:46 +0000
Subject: [PATCH 37/40] fix: restore the reference energy of an element also if
 the tracking fails

---
 wake_t/beamline_elements/tm_elements.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index d8b4543..a357dbf 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -119,7 +119,17 @@ class TMElement():
         given_gamma_ref = self.gamma_ref
         if self.gamma_ref is None:
             self.gamma_ref = g_avg
-
+        try:
+            return self._track_bunch_matrix(
+                bunch, bunch_mat, backtrack, out_initial, opmd_diag, diag_dir,
+                show_progress_bar)
+        finally:
+            # Do not keep the average gamma of this bunch for the next
+            # tracking.
+            self.gamma_ref = given_gamma_ref
+
+    def _track_bunch_matrix(self, bunch, bunch_mat, backtrack, out_initial,
+                            opmd_diag, diag_dir, show_progress_bar):
         # Add element to CSR calculator
         if self.csr_on:
             self.csr_calculator.add_lattice_element(self)
@@ -186,9 +196,6 @@ class TMElement():
         if opmd_diag is not None:
             opmd_diag.increase_z_pos(self.length)
 
-        # Do not keep the average gamma of this bunch for the next tracking.
-        self.gamma_ref = given_gamma_ref
-
         # Finalize
         if show_progress_bar:
             tracking_time = time.time() - start_time
-- 
2.43.0


From 66b4d9db867fbe804f5053b1c0dca072c04136cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:37 +0000
Subject: [PATCH 38/40] fix: match bunches of any species to the plasma

get_matched_bunch took the charge and mass of the species but matched every
bunch as if made of electrons.
---
 wake_t/utilities/bunch_generation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wake_t/utilities/bunch_generation.py b/wake_t/utilities/bunch_generation.py
index 784489c..00b845e 100644
--- a/wake_t/utilities/bunch_generation.py
+++ b/wake_t/utilities/bunch_generation.py
@@ -243,6 +243,8 @@ def get_matched_bunch(
     if n_p is not None:
         n_p *= 1e-6
     b_m = ge.matched_plasma_beta_function(ene, n_p, k_x)
+    # `ge.matched_plasma_beta_function` assumes electrons.
+    b_m *= np.sqrt(m_species / ct.m_e * np.abs(ct.e / q_species))
     return get_gaussian_bunch_from_twiss(
         en_x, en_y, 0, 0, b_m, b_m, ene, ene_sp, s_t, xi_c, q_tot, n_part,
         x_off, y_off, theta_x, theta_y, name=name, q_species=q_species,
-- 
2.43.0


From de33e8d28c92ea59f9519c554425e0986a56924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:37 +0000
Subject: [PATCH 39/40] fix: apply the CSR kick of any species

The energy kick was normalised with the charge and mass of an electron for all
species.
---
 wake_t/beamline_elements/tm_elements.py         | 4 +++-
 wake_t/physics_models/collective_effects/csr.py | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index a357dbf..9e74a12 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -175,7 +175,9 @@ class TMElement():
             # Apply CSR
             if self.csr_on:
                 self.csr_calculator.apply_csr(bunch_mat, np.abs(bunch.q),
-                                              self.gamma_ref, self, l_curr)
+                                              self.gamma_ref, self, l_curr,
+                                              bunch.q_species,
+                                              bunch.m_species)
             # Add bunch to output list
             if i in output_steps:
                 new_bunch_mat = convert_from_ocelot_matrix(
diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 8baa0b5..9a91d56 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -63,7 +63,8 @@ class CSRCalculator():
         self._lattice_element_steps = []
         self._lattice_element_traj_steps = []
 
-    def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
+    def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos,
+                  q_species=-ct.e, m_species=ct.m_e):
         """
         Apply the CSR kick to the specified particle bunch at a certain
         lattice location.
@@ -86,6 +87,9 @@ class CSRCalculator():
         element_pos : float
             Current position (longitudinal) of the bunch in the lattice
             element.
+        q_species, m_species : float
+            Charge and mass of a single particle of the species represented
+            by the macroparticles. By default, those of an electron.
 
         """
         el_idx = self._get_element_index(element)
@@ -133,6 +137,8 @@ class CSRCalculator():
         dE = np.interp(z_norm, np.arange(len(lam_K1)), lam_K1)
         pc_ref = np.sqrt(gamma**2 - 1) * 0.511e-3
         delta_p = dE * 1e-9 / pc_ref
+        # `dE` and `pc_ref` are those of an electron.
+        delta_p *= np.abs(q_species / ct.e) * (ct.m_e / m_species)
         bunch_matrix[5] += delta_p
 
     def _set_element_steps(self, element):
-- 
2.43.0


From 993a026c44608fade3e4a5cfb73e47daa0e22ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 40/40] fix: limits of the second-order map for small bends and
 gradients

---
 .../beam_optics/transfer_matrices.py            | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 4ad5065..ecc83c1 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -135,14 +135,19 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     fx = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     f2y = (L - s2y) / (4 * ky2) if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
-    J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
+    # The differences in J2 to Jf cancel out as kx2 and ky2 vanish, and their
+    # quotients lose all digits. Expand them instead.
+    small_x = abs(kx2)*L2 < 1e-4
+    J2 = ((3.*L - 4.*sx + sx*cx) / (2*kx4)) if not small_x else L5 / 20.
     J3 = ((15*L - 22*sx + 9*sx*cx - 2*sx*cx*cx) /
-          (6 * kx4 * kx2)) if kx != 0 else L ** 7 / 56.
+          (6 * kx4 * kx2)) if not small_x else L ** 7 / 56.
     J_denom = kx2 - 4 * ky2
-    Jc = (c2y - cx) / J_denom if J_denom != 0 else 0.5 * L2
-    Js = (cy * sy - sx) / J_denom if J_denom != 0 else L3 / 6
-    Jd = (d2y - dx) / J_denom if J_denom != 0 else L4 / 24
-    Jf = (f2y - fx) / J_denom if J_denom != 0 else L5 / 120
+    J_sum = kx2 + 4 * ky2
+    small_J = J_denom == 0 or (small_x and abs(4*ky2)*L2 < 1e-4)
+    Jc = (c2y - cx) / J_denom if not small_J else L2/2 - J_sum*L4/24
+    Js = (cy * sy - sx) / J_denom if not small_J else L3/6 - J_sum*L5/120
+    Jd = (d2y - dx) / J_denom if not small_J else L4/24 - J_sum*L**6/720
+    Jf = (f2y - fx) / J_denom if not small_J else L5/120 - J_sum*L**7/5040
 
     khk = K2 + 2*h*K1
     T = np.zeros((6, 6, 6))
-- 
2.43.0

