From 2c37985abb20176326d8413de0b6eeea23e104b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 01/27] fix: mark new uniformly distributed MPs (not the
 storage behind them) as never having impacted

---
 MP_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 485c2ce..0ccda37 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -480,11 +480,11 @@ class MP_system:
                 self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
                 self.nel_mp[self.N_mp:self.N_mp + Nint_new_MP] = self.nel_mp_ref
 
-                self.N_mp = int(self.N_mp + Nint_new_MP)
-
                 if self.flag_lifetime_hist:
                     self.t_last_impact[self.N_mp:self.N_mp + Nint_new_MP] = -1
 
+                self.N_mp = int(self.N_mp + Nint_new_MP)
+
     def add_uniform_ele_density(self, n_ele, E_init, x_max, x_min, y_max, y_min):
 
         if x_max is None:
-- 
2.43.0


From 6c7e048a1870f975b38950bb8c0473612f815e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 02/27] fix: init_from_dict leaves no charge of the previous
 content, extract_dict keeps the last-impact times

---
 MP_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index 0ccda37..ea18fe5 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -588,8 +588,11 @@ class MP_system:
             'nel_mp': self.nel_mp[:self.N_mp].copy(),
             'N_mp': self.N_mp,
         }
+        if self.flag_lifetime_hist:
+            dict_MP['t_last_impact'] = self.t_last_impact[:self.N_mp].copy()
         return dict_MP
 
     def init_from_dict(self, dict_MP):
         self.N_mp = 0
+        self.nel_mp[:] = 0.
         self.add_from_file(dict_MP)
-- 
2.43.0


From e5dc070c67817d5293307c20b98a3d173b6b6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 03/27] fix: soft regeneration keeps at least one MP so that
 the total charge is conserved

---
 MP_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index ea18fe5..9e12257 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -184,6 +184,9 @@ class MP_system:
 
                 flag_keep = np.array(len(self.x_mp) * [False])
                 flag_keep[:self.N_mp] = (rand(self.N_mp) > death_prob)
+                if not np.any(flag_keep):
+                    # One MP has to survive to carry the total charge
+                    flag_keep[0] = True
                 self.N_mp = np.sum(flag_keep)
 
                 self.x_mp[0:self.N_mp] = np.array(self.x_mp[flag_keep].copy())
-- 
2.43.0


From 89d6d7389b31b94aeefed2c2617d2b51dc06aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 04/27] fix: regeneration with an even number of cells no
 longer assigns edge MPs to a wrong cell

---
 MP_system.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 9e12257..c380922 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -310,11 +310,11 @@ class MP_system:
 
             ##
             #% MATLAB-like indices
-            ix_mp = np.around(self.x_mp[0:self.N_mp] / Dx_reg) + bias_x
-            iy_mp = np.around(self.y_mp[0:self.N_mp] / Dy_reg) + bias_y
-            ivx_mp = np.around(self.vx_mp[0:self.N_mp] / Dvx_reg) + bias_vx
-            ivy_mp = np.around(self.vy_mp[0:self.N_mp] / Dvy_reg) + bias_vy
-            ivz_mp = np.around(self.vz_mp[0:self.N_mp] / Dvz_reg) + bias_vz
+            ix_mp = np.clip(np.around(self.x_mp[0:self.N_mp] / Dx_reg) + bias_x, 1, self.Nx_reg)
+            iy_mp = np.clip(np.around(self.y_mp[0:self.N_mp] / Dy_reg) + bias_y, 1, self.Ny_reg)
+            ivx_mp = np.clip(np.around(self.vx_mp[0:self.N_mp] / Dvx_reg) + bias_vx, 1, self.Nvx_reg)
+            ivy_mp = np.clip(np.around(self.vy_mp[0:self.N_mp] / Dvy_reg) + bias_vy, 1, self.Nvy_reg)
+            ivz_mp = np.clip(np.around(self.vz_mp[0:self.N_mp] / Dvz_reg) + bias_vz, 1, self.Nvz_reg)
             #
             #
             #
-- 
2.43.0


From bd235014851841e5d915922d37e66222faaabd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 05/27] fix: velocity cells of the regeneration ignore data of
 MPs that are no longer there

---
 MP_system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index c380922..27b10a9 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -275,9 +275,9 @@ class MP_system:
 
             #Assign particle to grid
             #
-            vx_max = max(abs(self.vx_mp))
-            vy_max = max(abs(self.vy_mp))
-            vz_max = max(abs(self.vz_mp))
+            vx_max = np.max(abs(self.vx_mp[:self.N_mp]), initial=0.)
+            vy_max = np.max(abs(self.vy_mp[:self.N_mp]), initial=0.)
+            vz_max = np.max(abs(self.vz_mp[:self.N_mp]), initial=0.)
             if vx_max == 0:
                 vx_max = 1e-5
             if vy_max == 0:
-- 
2.43.0


From 9bea8b5dde0c911a5f44c8655dfbf9a5d1af21ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 06/27] fix: reject chambers whose last vertex repeats the
 first one

---
 geom_impact_poly_fast_impact.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geom_impact_poly_fast_impact.py b/geom_impact_poly_fast_impact.py
index 2bdffaa..a277733 100644
--- a/geom_impact_poly_fast_impact.py
+++ b/geom_impact_poly_fast_impact.py
@@ -95,10 +95,6 @@ class polyg_cham_geom_object(object):
                 self.EQ_segments = np.squeeze(dict_chm['EQ_segments'])
                 self.tau_segments = np.squeeze(dict_chm['tau_segments'])
 
-
-        if np.any(np.sqrt(np.diff(Vx)**2 + np.diff(Vy)**2) < 1e-9):
-            raise PyECLOUD_ChamberException('There is a zero length segment!')
-
         self.N_vert = len(Vx)
 
         N_edg = len(Vx)
@@ -112,6 +108,10 @@ class polyg_cham_geom_object(object):
         Vx = np.array(Vx, float)
         Vy = np.array(Vy, float)
 
+        # The segment closing the polygon is checked as well
+        if np.any(np.sqrt(np.diff(Vx)**2 + np.diff(Vy)**2) < 1e-9):
+            raise PyECLOUD_ChamberException('There is a zero length segment!')
+
         self.area = -0.5 * np.sum((Vy[1:] + Vy[:-1]) * (Vx[1:] - Vx[:-1]))
 
         print("The area of the chamber is %.3e m^2"%self.area)
-- 
2.43.0


From 01b8dc0e4c3e2e6822cee43aadc4aadf3182b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 07/27] fix: a path that ends exactly on the wall of a
 polygonal chamber gets the segment and normal it hit

---
 geom_impact_poly_cython.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geom_impact_poly_cython.pyx b/geom_impact_poly_cython.pyx
index c3fe076..a74ae7b 100644
--- a/geom_impact_poly_cython.pyx
+++ b/geom_impact_poly_cython.pyx
@@ -32,7 +32,8 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
     #with nogil, parallel():
     #for i_imp in prange(N_impacts):
     for i_imp in xrange(N_impacts):
-        t_min_curr = 1.
+        # larger than one: the end point can be exactly on an edge
+        t_min_curr = 2.
         i_found_curr = -1
         fould_curr = False
         x_in_curr = x_in[i_imp]
@@ -65,10 +66,10 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
         y_int[i_imp]=t_min_curr*y_out_curr+(1.-t_min_curr)*y_in_curr
         z_int[i_imp]=0
 
+        i_found[i_imp] = i_found_curr
         if i_found_curr>=0:
             Nx_int[i_imp] = Nx[i_found_curr]
             Ny_int[i_imp] = Ny[i_found_curr]
-            i_found[i_imp] = i_found_curr
 
     return x_int, y_int, z_int, Nx_int, Ny_int, i_found
 
-- 
2.43.0


From 5ae6799fca463f3c8627b7c4d95a4863eb08cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 08/27] fix: elastic fraction is zero instead of undefined
 where the secondary yield vanishes

---
 sec_emission_model_accurate_low_ene.py | 4 +++-
 sec_emission_model_cos_low_ener.py     | 4 +++-
 sec_emission_model_flat_low_ener.py    | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_accurate_low_ene.py b/sec_emission_model_accurate_low_ene.py
index 1697053..de4e3bc 100644
--- a/sec_emission_model_accurate_low_ene.py
+++ b/sec_emission_model_accurate_low_ene.py
@@ -69,7 +69,9 @@ def yield_fun3(E, costheta, Emax, del_max, R0, E0):
 
     delta = del_true_sec + del_reflected
 
-    ref_frac = del_reflected / delta
+    ref_frac = 0. * delta
+    mask_non_zero = (delta > 0)
+    ref_frac[mask_non_zero] = del_reflected[mask_non_zero] / delta[mask_non_zero]
 
     return del_true_sec, del_reflected, ref_frac
 
diff --git a/sec_emission_model_cos_low_ener.py b/sec_emission_model_cos_low_ener.py
index 49cf307..4f16f59 100644
--- a/sec_emission_model_cos_low_ener.py
+++ b/sec_emission_model_cos_low_ener.py
@@ -71,7 +71,9 @@ def yield_fun2(E, costheta, Emax, del_max, R0, E0):
 
     delta = true_sec + reflected
 
-    ref_frac = reflected / delta
+    ref_frac = 0. * delta
+    mask_non_zero = (delta > 0)
+    ref_frac[mask_non_zero] = reflected[mask_non_zero] / delta[mask_non_zero]
 
     return delta, ref_frac
 
diff --git a/sec_emission_model_flat_low_ener.py b/sec_emission_model_flat_low_ener.py
index 7da09ad..3b95ebb 100644
--- a/sec_emission_model_flat_low_ener.py
+++ b/sec_emission_model_flat_low_ener.py
@@ -72,7 +72,9 @@ def yield_fun2(E, costheta, Emax, del_max, R0):
     delta[mask_change] = R0
     reflected = delta - true_sec
 
-    ref_frac = reflected / delta
+    ref_frac = 0. * delta
+    mask_non_zero = (delta > 0)
+    ref_frac[mask_non_zero] = reflected[mask_non_zero] / delta[mask_non_zero]
 
     return delta, ref_frac
 
-- 
2.43.0


From 7df4ba30d6d665e686eafd6cf01ededa4c4918cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 09/27] fix: the flat low energy model reflects electrons again
 (the true secondary yield was overwritten)

---
 sec_emission_model_flat_low_ener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_flat_low_ener.py b/sec_emission_model_flat_low_ener.py
index 3b95ebb..7e1cecb 100644
--- a/sec_emission_model_flat_low_ener.py
+++ b/sec_emission_model_flat_low_ener.py
@@ -66,7 +66,7 @@ def yield_fun2(E, costheta, Emax, del_max, R0):
 
     true_sec = del_max_tilde * (s * x) / (s - 1. + x**s)
 
-    delta = true_sec
+    delta = true_sec.copy()
 
     mask_change = logical_and(delta < R0, E < Emax)
     delta[mask_change] = R0
-- 
2.43.0


From 3645f70fc84b58fcc4a0fca8a3874af0be22bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 10/27] fix: load the SEY table that was found, report a badly
 spaced table given as dictionary

---
 sec_emission_model_from_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index d4faef4..d23077d 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -86,6 +86,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
             self.angle_dist_func = None
 
         if type(sey_file) is dict:
+            sey_file_real = '(given as dictionary)'
             sey_properties = sey_file
         else:
             # Search for file with given name, either as an absolute path or in the dedicated folder
@@ -100,7 +101,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
             sey_file_real = existing_files[0]
             print('Secondary emission from file %s' % sey_file_real)
 
-            sey_properties = sio.loadmat(sey_file)
+            sey_properties = sio.loadmat(sey_file_real)
 
         energy_eV = sey_properties['energy_eV'].squeeze()
         sey_true = sey_properties['sey_true'].squeeze()
-- 
2.43.0


From 21e56001b918c8ac007b9f0d4644de2b98d6ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 11/27] fix: segments without SEY parameters get the defaults
 of each cloud, not those of the first one (the chamber description was
 overwritten)

---
 sec_emission_model_ECLOUD_nunif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_ECLOUD_nunif.py b/sec_emission_model_ECLOUD_nunif.py
index 3b36ac5..c2ff36c 100644
--- a/sec_emission_model_ECLOUD_nunif.py
+++ b/sec_emission_model_ECLOUD_nunif.py
@@ -99,9 +99,9 @@ class SEY_model_ECLOUD_non_unif(SEY_model_ECLOUD):
             else:
                 self.angle_dist_func = None
 
-            self.del_max_segments = np.float64(chamb.del_max_segments)
-            self.R0_segments = np.float64(chamb.R0_segments)
-            self.Emax_segments = np.float64(chamb.Emax_segments)
+            self.del_max_segments = np.array(chamb.del_max_segments, dtype=float)
+            self.R0_segments = np.array(chamb.R0_segments, dtype=float)
+            self.Emax_segments = np.array(chamb.Emax_segments, dtype=float)
 
             self.del_max_segments[chamb.del_max_segments < 0.] = del_max
             self.R0_segments[chamb.R0_segments < 0.] = R0
-- 
2.43.0


From 2df4aedf547e3cc5cafbec67f435e949954ebd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 12/27] fix: true secondaries of events that emit a single
 macroparticle get the drawn energy and direction (Furman-Pivi), they kept the
 impact velocity

---
 sec_emission_model_furman_pivi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 50319a9..bae3b93 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -480,9 +480,11 @@ class SEY_model_furman_pivi():
 
                         N_violations = np.sum(flag_violation)
 
-                # Replace velocities
-                vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
-                    N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+            # Replace velocities (also of events that emit a single MP)
+            vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
+                N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+
+            if n_add_total != 0:
                 # New velocities
                 vx_new_MPs, vy_new_MPs, vz_new_MPs = self.angle_dist_func(
                     n_add_total, En_truesec_eV_add, norm_x_add, norm_y_add, mass)
-- 
2.43.0


From 6067f0937baf0e24218e23951d2c34e36ff4eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:38 +0000
Subject: [PATCH 13/27] fix: accept filling pattern files with a single bunch

np.squeeze turned the one-element arrays read from the .mat file into
zero-dimensional ones, and len() of those raises a TypeError.
---
 beam_and_timing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_and_timing.py b/beam_and_timing.py
index 1dc8fe2..415f5f0 100644
--- a/beam_and_timing.py
+++ b/beam_and_timing.py
@@ -103,9 +103,9 @@ class beam_and_timing:
             if type(filling_pattern_file) is str:
                 if '.mat' in filling_pattern_file:
                     dict_fillp = sio.loadmat(filling_pattern_file)
-                    ppb_vect = np.squeeze(dict_fillp['ppb_vect'])
+                    ppb_vect = np.atleast_1d(np.squeeze(dict_fillp['ppb_vect']))
                     if 'sigmaz_vect' in list(dict_fillp.keys()):
-                        sigmaz_vect = np.squeeze(dict_fillp['sigmaz_vect'])
+                        sigmaz_vect = np.atleast_1d(np.squeeze(dict_fillp['sigmaz_vect']))
                 else:
                     raise ValueError('Input of filling scheme via txt files is discontinued!')
                     # Incompatible with Python3 because of the exec                   
-- 
2.43.0


From 6625bf7b271232919fb5946ed4a216aa1a82f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:54 +0000
Subject: [PATCH 14/27] fix: steps shorter than half a sub-step are done in one
 sub-step

With a non-uniform beam profile the number of sub-steps was rounded to
zero for such steps, which ended the simulation with a ZeroDivisionError.
---
 buildup_simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index d345819..e405b43 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -320,7 +320,9 @@ class BuildupSimulation(object):
             # Non-uniform beam-profile
             flag_substeps = True
             Dt_substep_target = cloud.dynamics.Dt / cloud.dynamics.N_sub_steps
-            N_substeps_curr = int(np.round(beamtim.Dt_curr / Dt_substep_target))
+            N_substeps_curr = max(
+                int(np.round(beamtim.Dt_curr / Dt_substep_target)), 1
+            )
             Dt_substep_curr = beamtim.Dt_curr / N_substeps_curr
 
         elif hasattr(cloud.dynamics, "N_sub_steps"):
-- 
2.43.0


From ab8023f4d4b6cfc49e03f5379ffccd3b9c83cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:47 +0000
Subject: [PATCH 15/27] fix: save the last sample of the electron density
 probes

el_dens_at_probes was one sample shorter than the time axis.
---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 11aacca..2e7df76 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -894,7 +894,7 @@ class pyecloud_saver:
             dict_sbs_data['En_electric_eV_time'] = self.En_electric_eV_time[:self.i_last_save + 1]
 
         if self.flag_el_dens_probes:
-            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save]
+            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save + 1]
 
         for kk in list(self.sbs_custom_data.keys()):
             dict_sbs_data[kk] = self.sbs_custom_data[kk][:self.i_last_save + 1]
-- 
2.43.0


From 31119ce3ffc01c472f5a9e1f4a73e31faa74b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:47 +0000
Subject: [PATCH 16/27] fix: put the charge density videos of single clouds in
 the output folder

The folder was created beside it (and creating it again at the next step
raised an exception) unless the output folder was the current one.
---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 2e7df76..9f3fff1 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1057,7 +1057,7 @@ class pyecloud_saver:
         # save rho video for cloud
         if self.flag_video and self.flag_multiple_clouds:
             if not os.path.exists(self.folder_outp + '/rho_video_%s'%(self.cloud_name)):
-                os.makedirs(self.folder_outp + 'rho_video_%s'%(self.cloud_name))
+                os.makedirs(self.folder_outp + '/rho_video_%s'%(self.cloud_name))
             if self.rho_video_cloud is None:
                     self.rho_video_cloud = []
                     self.t_video_cloud = []
@@ -1070,7 +1070,7 @@ class pyecloud_saver:
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
                 self.t_video_cloud = np.array(self.t_video_cloud)
-                filename_rho = self.folder_outp + 'rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
+                filename_rho = self.folder_outp + '/rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
                 sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud, 'rho_video': self.rho_video_cloud}, oned_as='row')
                 print('Done')
-- 
2.43.0


From 5773d8680c8abdcc2ca55682330bf1464a4d314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:47 +0000
Subject: [PATCH 17/27] fix: the detailed histogram of an empty cloud is empty

It repeated the one of the previous passage.
---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 9f3fff1..cf89e19 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -378,6 +378,8 @@ class pyecloud_saver:
     def _pass_by_pass_data_save(self, MP_e, impact_man, beamtim, buildup_sim):
         #update histograms
         self.nel_hist_line = 0.0 * self.nel_hist_line
+        if self.flag_hist_det:
+            self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
         if MP_e.N_mp > 0:
             histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp], MP_e.nel_mp[0:MP_e.N_mp], impact_man.bias_x_hist, impact_man.Dx_hist, self.nel_hist_line)
 
@@ -388,8 +390,6 @@ class pyecloud_saver:
                 mask_det_hist_y = np.logical_and(MP_e.y_mp[0:MP_e.N_mp] > self.y_min_hist_det, MP_e.y_mp[0:MP_e.N_mp] < self.y_max_hist_det)
                 mask_det_hist = np.logical_and(mask_det_hist_x, mask_det_hist_y)
 
-                self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
-
                 if np.sum(mask_det_hist) > 0:
                     #print 'here 2'
                     histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp][mask_det_hist], MP_e.nel_mp[0:MP_e.N_mp][mask_det_hist],
-- 
2.43.0


From 1d0cfe11ed0eec3ff35bc076a6313486d4f0cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 18/27] fix: restore complete histories from the output file at
 a restart

The bunch passage times and the lifetime histograms were not restored, the
last step-by-step sample was dropped, energies of the cloud, probe densities and energy
histograms were cut at wrong places or not at all, and single entries were
restored as numbers.
---
 pyecloud_saver.py | 94 ++++++++++++++++++++++-------------------------
 1 file changed, 43 insertions(+), 51 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index cf89e19..2cf0947 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -587,10 +587,6 @@ class pyecloud_saver:
         ob = mlm.myloadmat_to_obj(load_output_folder + '/' + self.fname_only_main_outp)
         dict_history = mlm.obj_to_dict(ob)
 
-        idx_t = (np.abs(dict_history['t'] - last_t)).argmin()  # index closest to last_t
-        idx_t_hist = (np.abs(dict_history['t_hist'] - last_t)).argmin()
-        idx_t_sc_video = (np.abs(dict_history['t_sc_video'] - last_t)).argmin()
-
         # Delete everything in Pyecltest.mat recorded after the last checkpoint
         saved_every_timestep_list = ['En_emit_eV_time',
                                      'En_imp_eV_time',
@@ -608,10 +604,7 @@ class pyecloud_saver:
                                      'En_electric_eV_time',
                                      't']
 
-        saved_every_passage_list = ['En_hist',
-                                    'all_Ekin_hist',
-                                    't_En_hist',
-                                    'N_mp_corrected_pass',
+        saved_every_passage_list = ['N_mp_corrected_pass',
                                     'N_mp_impact_pass',
                                     'N_mp_pass',
                                     'N_mp_ref_pass',
@@ -623,10 +616,12 @@ class pyecloud_saver:
                                     'nel_hist_emit_seg',
                                     'nel_impact_hist_scrub',
                                     'nel_impact_hist_tot',
-                                    'cos_angle_hist',
-                                    't_hist'
-                                    'lifetime_hist'
-                                    't_lifetime_hist']
+                                    't_hist']
+
+        saved_with_En_hist_list = ['En_hist',
+                                   'all_Ekin_hist',
+                                   'cos_angle_hist',
+                                   't_En_hist']
 
         not_time_dependent_list = ['xg_hist',
                                    'xg_hist_det',
@@ -634,11 +629,7 @@ class pyecloud_saver:
                                    'b_spac',
                                    't_sec_beams',
                                    'sec_beam_profiles',
-                                   'x_el_dens_probes',
-                                   'y_el_dens_probes',
-                                   'r_el_dens_probes',
                                    'xg_hist_cos_angle',
-                                   'el_dens_at_probes',
                                    'dec_fact_out',
                                    'chamber_area',
                                    'sey_test_del_true_mat',
@@ -648,49 +639,50 @@ class pyecloud_saver:
                                    'sey_test_cos_theta',
                                    'ene_dist_test_cos_theta',
                                    'ene_dist_test_E_impact_eV',
-                                   'emit_ene_dist_test',
-                                   'U_sc_eV'
+                                   'emit_ene_dist_test'
                                    ]
 
         if self.flag_lifetime_hist:
             not_time_dependent_list.append('lifetime_g_hist')
 
-        should_be_list_list = ['U_sc_eV',
-                               'x_el_dens_probes',
-                               'y_el_dens_probes',
-                               'r_el_dens_probes'
-                               ]
-
-        dict_restored = {}
-        for var in saved_every_timestep_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var]
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t]
-        self.i_last_save = len(dict_restored['Nel_timep']) - 1
-
-        for var in saved_every_passage_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t_hist + 1].tolist()
-
         for var in not_time_dependent_list:
             if var in list(dict_history.keys()):
-                if var in should_be_list_list:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var]
-
-        # Treating t_sc_video separately because of different indicies
-        if 't_sc_video' in list(dict_history.keys()):
-            dict_restored['t_sc_video'] = dict_history['t_sc_video'][: idx_t_sc_video + 1].tolist()
+                setattr(self, var, dict_history[var])
 
-        # Restore this pyecloud_saver object with values from dict_restored
-        for var in list(dict_restored.keys()):
-            setattr(self, var, dict_restored[var])
+        # Step by step data
+        t_saved = np.atleast_1d(dict_history['t'])
+        N_t = np.sum(t_saved <= last_t)
+        for var in saved_every_timestep_list:
+            if var in list(dict_history.keys()):
+                setattr(self, var, np.atleast_1d(dict_history[var])[:N_t])
+        if self.flag_el_dens_probes:
+            self.el_dens_at_probes = np.reshape(dict_history['el_dens_at_probes'], (self.N_el_dens_probes, len(t_saved)))[:, :N_t]
+        self.i_last_save = N_t - 1
+
+        # Lists with their own sampling times
+        def restored(var, t_var):
+            times = np.atleast_1d(dict_history[t_var])
+            N_keep = np.sum(times <= last_t)
+            values = dict_history[var]
+            if values.size == len(times):
+                return np.reshape(values, (len(times),))[:N_keep].tolist()
+            return np.reshape(values, (len(times), -1))[:N_keep].tolist()
+
+        for t_var, var_list in [('t_hist', saved_every_passage_list),
+                                ('t_En_hist', saved_with_En_hist_list),
+                                ('t_lifetime_hist', ['lifetime_hist', 't_lifetime_hist']),
+                                ('t_sc_video', ['t_sc_video', 'U_sc_eV'])]:
+            for var in var_list:
+                # what is not recorded is not a list
+                if var in list(dict_history.keys()) and isinstance(getattr(self, var, None), list):
+                    setattr(self, var, restored(var, t_var))
+
+        for kk in list(self.pbp_custom_data.keys()):
+            self.pbp_custom_data[kk] = restored(kk, 't_hist')
+
+        if isinstance(self.En_hist_seg, list):
+            En_hist_seg = np.reshape(dict_history['En_hist_seg'], (len(self.En_hist_seg), np.size(dict_history['t_En_hist']), -1))
+            self.En_hist_seg = [seg_hist[:len(self.t_En_hist)].tolist() for seg_hist in En_hist_seg]
 
     def _stepbystep_check_for_data_resize(self):
         if self.i_last_save >= (len(self.t) - 1):
-- 
2.43.0


From 329929322562e0edef91624e6ba7ac243afd8964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 19/27] fix: save simulation states with electromagnetic
 tracking (there is no state_As)

---
 buildup_simulation.py | 3 +--
 pyecloud_saver.py     | 4 ----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index e405b43..5836b1c 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -518,10 +518,9 @@ class BuildupSimulation(object):
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
         if self.spacech_ele.flag_em_tracking:
-            print("Restoring PyPIC Ax, Ay and As state objects...")
+            print("Restoring PyPIC Ax and Ay state objects...")
             self.spacech_ele.state_Ax = self.spacech_ele.PyPICobj.get_state_object()
             self.spacech_ele.state_Ay = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_As = self.spacech_ele.PyPICobj.get_state_object()
 
         print("Done reload.")
         return dict_state
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 2cf0947..a8de0a4 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -948,18 +948,15 @@ class pyecloud_saver:
         if self.flag_last_cloud:
 
             temp_luobj = spacech_ele.PyPICobj.luobj
-            spacech_ele.luobj = None
             spacech_ele.PyPICobj.luobj = None
 
             if spacech_ele.flag_em_tracking:
                 temp_state_Ax = spacech_ele.state_Ax
                 temp_state_Ay = spacech_ele.state_Ay
-                temp_state_As = spacech_ele.state_As
                 temp_state_Ax_old = spacech_ele.state_Ax_old
                 temp_state_Ay_old = spacech_ele.state_Ay_old
                 spacech_ele.state_Ax = None
                 spacech_ele.state_Ay = None
-                spacech_ele.state_As = None
                 spacech_ele.state_Ax_old = None
                 spacech_ele.state_Ay_old = None
 
@@ -996,7 +993,6 @@ class pyecloud_saver:
             if spacech_ele.flag_em_tracking:
                 spacech_ele.state_Ax = temp_state_Ax
                 spacech_ele.state_Ay = temp_state_Ay
-                spacech_ele.state_As = temp_state_As
                 spacech_ele.state_Ax_old = temp_state_Ax_old
                 spacech_ele.state_Ay_old = temp_state_Ay_old
 
-- 
2.43.0


From b0862626e33fc9202e2dee4d3d6088d6bee9e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 20/27] fix: keep what was accumulated since the last records
 across a restart

---
 buildup_simulation.py |  6 +++++-
 pyecloud_saver.py     | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 5836b1c..2ee451d 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -541,8 +541,12 @@ class BuildupSimulation(object):
             load_from_folder=load_from_folder,
         )
 
-        for cloud in self.cloud_list:
+        for i_cloud, cloud in enumerate(self.cloud_list):
             cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
             cloud.pyeclsaver.i_checkp = i_checkp + 1
             cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
             cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
+            if "saver_states" in dict_state:
+                cloud.pyeclsaver.set_recording_state(
+                    dict_state["saver_states"][i_cloud]
+                )
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index a8de0a4..2b03302 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -573,6 +573,21 @@ class pyecloud_saver:
             if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT):
                 self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
+    def get_recording_state(self):
+        names = ['t_last_save', 'Nel_impact_last_step_group', 'Nel_emit_last_step_group',
+                 'En_imp_last_step_group_eV', 'En_emit_last_step_group_eV', 't_last_En_hist']
+        if self.flag_lifetime_hist:
+            names.append('t_last_lifetime_hist')
+        if self.flag_save_MP_state:
+            names.append('i_obs')
+        if self.flag_save_simulation_state:
+            names.append('i_obs_sim')
+        return {name: getattr(self, name) for name in names}
+
+    def set_recording_state(self, state):
+        for name in list(state.keys()):
+            setattr(self, name, state[name])
+
     def load_from_output(self, last_t=None):
 
         if self.step_by_step_custom_observables is not None:
@@ -980,6 +995,9 @@ class pyecloud_saver:
             if self.flag_lifetime_hist:
                 dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
 
+            # what the savers have accumulated since their last records
+            dict_state['saver_states'] = [saver.get_recording_state() for saver in temp_saver_list]
+
             with open(outfile, 'wb') as fid:
                 # use best protocol available
                 pickle.dump(dict_state, fid, protocol=-1)
-- 
2.43.0


From f3a6334c300a78f2529e58b71b6fc29ce9b7207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:32 +0000
Subject: [PATCH 21/27] fix: a simulation interrupted while it saves a
 checkpoint can be restarted

Checkpoints and outputs replace their predecessors only when they are
complete, histories are saved before the checkpoint that refers to them,
and the latest checkpoint is used if the previous one was not removed.
---
 buildup_simulation.py | 19 ++++++++++--------
 pyecloud_saver.py     | 46 ++++++++++++++++++++++++++-----------------
 2 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 2ee451d..2b73745 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -113,20 +113,23 @@ class BuildupSimulation(object):
         # Checking if there are saved checkpoints
         if self.checkpoint_folder is not None:
             if os.path.isdir(self.checkpoint_folder):
-                if len(os.listdir(self.checkpoint_folder)) == 1:
+                # Incomplete files are left behind by an interrupted save
+                checkpoints = [
+                    ff for ff in os.listdir(self.checkpoint_folder) if ff.endswith(".pkl")
+                ]
+                if len(checkpoints) > 0:
                     print("Loading from checkpoint...")
-                    # Selecting latest checkpoint
-                    checkpoint = os.listdir(self.checkpoint_folder)[0]
+                    # Selecting latest checkpoint (the previous one is there as
+                    # well if the simulation stopped before removing it)
+                    checkpoint = max(
+                        checkpoints, key=lambda ff: int(ff.split(".pkl")[0].split("_")[-1])
+                    )
                     self.load_checkpoint(
                         filename_simulation_checkpoint=checkpoint,
                         load_from_folder=self.checkpoint_folder,
                     )
-                elif len(os.listdir(self.checkpoint_folder)) == 0:
-                    print("No checkpoint found, starting new simulation...")
                 else:
-                    raise ValueError(
-                        "More than one checkpoint found in %s" % self.checkpoint_folder
-                    )
+                    print("No checkpoint found, starting new simulation...")
 
     def run(self, t_end_sim=None):
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 2b03302..ee73c13 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -307,8 +307,10 @@ class pyecloud_saver:
             self.b_spac = beamtim.b_spac
             self.area = impact_man.chamb.area
 
-            if (beamtim.pass_numb + 1) % self.save_mat_every == 0:
-                sio.savemat(self.filen_main_outp, self.build_outp_dict(buildup_sim), oned_as='row')
+            if (beamtim.pass_numb + 1) % self.save_mat_every == 0 or self._checkpoint_is_due(beamtim):
+                # the previous file stays until the new one is complete
+                sio.savemat(self.filen_main_outp + '.tmp', self.build_outp_dict(buildup_sim), oned_as='row')
+                os.replace(self.filen_main_outp + '.tmp', self.filen_main_outp)
 
             # Check for checkpoint save state
             self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
@@ -524,30 +526,36 @@ class pyecloud_saver:
             if not os.path.isdir(self.checkpoint_folder):
                 os.makedirs(self.checkpoint_folder)
 
+    def _checkpoint_is_due(self, beamtim):
+        return self.flag_save_checkpoint and beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT
+
     def _checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                          sec_beams_list, flag_multiple_clouds, cloud_list):
         # First check if it is time to save a checkpoint
-        if (self.flag_save_checkpoint):
-            if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
+        if self._checkpoint_is_due(beamtim):
+
+            outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
 
-                outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
+            # histories first: a restart drops what comes after the checkpoint
+            if self.copy_main_outp_folder is not None:
+                self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
-                self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
-                if self.copy_main_outp_folder is not None:
-                    self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
+            self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
+                                        sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
 
-                if self.i_checkp > 0:
-                    if self.flag_last_cloud:
-                        prevpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1)
-                        os.remove(prevpath)
-                        print('Removed simulation checkpoint in: ' + prevpath)
+            if self.i_checkp > 0:
+                if self.flag_last_cloud:
+                    prevpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1)
+                    os.remove(prevpath)
+                    print('Removed simulation checkpoint in: ' + prevpath)
 
-                self.i_checkp += 1
-                self.t_last_checkp = beamtim.tt_curr
+            self.i_checkp += 1
+            self.t_last_checkp = beamtim.tt_curr
 
     def _copy_main_outp_to_safety(self, outpath, beamtim):
-        shutil.copy(self.filen_main_outp, outpath)
+        destination = outpath + '/' + self.filen_main_outp.split('/')[-1]
+        shutil.copy(self.filen_main_outp, destination + '.tmp')
+        os.replace(destination + '.tmp', destination)
         self.t_last_copy = beamtim.tt_curr
 
     def _copy_main_outp_init(self, copy_main_outp_DT, copy_main_outp_folder):
@@ -998,9 +1006,11 @@ class pyecloud_saver:
             # what the savers have accumulated since their last records
             dict_state['saver_states'] = [saver.get_recording_state() for saver in temp_saver_list]
 
-            with open(outfile, 'wb') as fid:
+            # the file gets its name only when it is complete
+            with open(outfile + '.tmp', 'wb') as fid:
                 # use best protocol available
                 pickle.dump(dict_state, fid, protocol=-1)
+            os.replace(outfile + '.tmp', outfile)
 
             # put back savers
             for cloud, saver in zip(cloud_list, temp_saver_list):
-- 
2.43.0


From 268fd4c046b136810d8c3af20e2da89911a725e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:40 +0000
Subject: [PATCH 22/27] fix: impact histograms of an additional cloud use the
 settings of that cloud

---
 init.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/init.py b/init.py
index 0485389..f8d575b 100644
--- a/init.py
+++ b/init.py
@@ -406,16 +406,16 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             print('Warning: You cannot enable flag_hist_impact_seg for an ellip chamber --> disabled!')
             flag_seg = False
 
-        if cc.flag_lifetime_hist:
-            if cc.Nbin_lifetime_hist is None or cc.lifetime_hist_max is None or cc.Dt_lifetime_hist is None:
+        if thiscloud.flag_lifetime_hist:
+            if thiscloud.Nbin_lifetime_hist is None or thiscloud.lifetime_hist_max is None or thiscloud.Dt_lifetime_hist is None:
                 raise inp_spec.PyECLOUD_ConfigException(
                         'If flag_lifetime_hist is True then all the histogram parameters must be specified')
 
         impact_man = imc.impact_management(chamb, sey_mod,
-            thiscloud.Dx_hist, thiscloud.scrub_en_th, cc.Nbin_En_hist, cc.En_hist_max,
-            cc.Nbin_lifetime_hist, cc.lifetime_hist_max, cc.flag_lifetime_hist,
+            thiscloud.Dx_hist, thiscloud.scrub_en_th, thiscloud.Nbin_En_hist, thiscloud.En_hist_max,
+            thiscloud.Nbin_lifetime_hist, thiscloud.lifetime_hist_max, thiscloud.flag_lifetime_hist,
             flag_seg=flag_seg, flag_En_hist_seg=thiscloud.flag_En_hist_seg,
-            cos_angle_width=cc.cos_angle_width)
+            cos_angle_width=thiscloud.cos_angle_width)
 
         # Init gas ionization and photoemission
         if thiscloud.gas_ion_flag == 1:
-- 
2.43.0


From 1e199a5af33e061d6e0d18aab98beb87bab17fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:40 +0000
Subject: [PATCH 23/27] fix: multipole tracker of an additional cloud uses the
 substeps of that cloud

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index f8d575b..3113021 100644
--- a/init.py
+++ b/init.py
@@ -510,7 +510,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
-            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=cc.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
+            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                         B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
         else:
             raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")
-- 
2.43.0


From 6607fb2de3c6358513ae33a84ad90842c7773b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:40 +0000
Subject: [PATCH 24/27] fix: longitudinal profile of a secondary beam is looked
 up by its own name

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 3113021..1b99f8a 100644
--- a/init.py
+++ b/init.py
@@ -240,7 +240,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 try:
                     if os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file
-                    elif os.path.isfile(pyecl_input_folder + '/' + b_par.beam_long_prof_file + '.mat'):
+                    elif os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'
                     else:
                         sbeam_long_prof_file_path = sb_par.beam_long_prof_file
-- 
2.43.0


From b4e543350915155cd87cc2e282054fafc53d2de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:40 +0000
Subject: [PATCH 25/27] fix: secondary beams can be used without a progress
 file

---
 init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 1b99f8a..b966f2b 100644
--- a/init.py
+++ b/init.py
@@ -248,6 +248,11 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                     # in case sb_par.beam_long_prof_file is -1
                     sbeam_long_prof_file_path = sb_par.beam_long_prof_file
 
+                if cc.progress_path is not None:
+                    progress_mapgen_file = cc.progress_path + ('_mapgen_sec_%d' % ii)
+                else:
+                    progress_mapgen_file = None
+
                 sec_beams_list.append(beatim.beam_and_timing(sb_par.flag_bunched_beam, sb_par.fact_beam, sb_par.coast_dens, sb_par.q_part, sb_par.beam_field_file, cc.lam_th,
                                                              b_spac=sb_par.b_spac, sigmaz=sb_par.sigmaz, t_offs=sb_par.t_offs, filling_pattern_file=sb_par.filling_pattern_file, Dt=cc.Dt, t_end=cc.t_end,
                                                              beam_long_prof_file=sbeam_long_prof_file_path, Dh_beam_field=sb_par.Dh_beam_field, f_telescope_beam=sb_par.f_telescope_beam,
@@ -255,7 +260,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                                              chamb=chamb, sigmax=sb_par.sigmax, sigmay=sb_par.sigmay,
                                                              x_beam_pos=sb_par.x_beam_pos, y_beam_pos=sb_par.y_beam_pos, save_beam_field_file_as=sb_par.save_beam_field_file_as,
                                                              flag_secodary_beam=True, t_primary_beam=beamtim.t,
-                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=(cc.progress_path + ('_mapgen_sec_%d' % ii))))
+                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=progress_mapgen_file))
     else:
         beamtim = None
         sec_beams_list = []
-- 
2.43.0


From 24ad03d943302c468a021b2cf3f56aa3f3979849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:54 +0000
Subject: [PATCH 26/27] fix: a stored field kicks the slices it was recorded
 for

---
 Transverse_Efield_map_for_frozen_cloud.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index f8cb489..c52ba83 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -42,10 +42,7 @@ class Transverse_Efield_map(object):
 
         slices = beam.get_slices(self.slicer)
 
-        sid = 0
-        for _ in range(slices.n_slices):
-
-            sid -= 1
+        for sid in range(slices.n_slices - 1, -1, -1):
 
             # select particles in the slice
             pid = slices.particle_indices_of_slice(sid)
-- 
2.43.0


From 0acc79ce1cded93f559cfd0a708b06c09b6e3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:54 +0000
Subject: [PATCH 27/27] fix: a stored field leaves the momenta of a disabled
 plane untouched

---
 PyEC4PyHT.py                              |  2 ++
 Transverse_Efield_map_for_frozen_cloud.py | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 394c2ce..56334ff 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -448,6 +448,8 @@ class Ecloud(object):
                 x_beam_offset=self.x_beam_offset,
                 y_beam_offset=self.y_beam_offset,
                 slice_by_slice_mode=self.slice_by_slice_mode,
+                enable_kick_x=self.enable_kick_x,
+                enable_kick_y=self.enable_kick_y,
             )
 
             self._ecloud_track = self.track
diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index c52ba83..6e341eb 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -8,7 +8,8 @@ from PyPIC.PyPIC_Scatter_Gather import PyPIC_Scatter_Gather
 class Transverse_Efield_map(object):
     def __init__(self, xg, yg, Ex, Ey, L_interaction, slicer,
                  flag_clean_slices=False, wrt_slice_centroid=False,
-                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False):
+                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False,
+                 enable_kick_x=True, enable_kick_y=True):
 
         self.slicer = slicer
         self.L_interaction = L_interaction
@@ -22,6 +23,9 @@ class Transverse_Efield_map(object):
         self.x_beam_offset = x_beam_offset
         self.y_beam_offset = y_beam_offset
 
+        self.enable_kick_x = enable_kick_x
+        self.enable_kick_y = enable_kick_y
+
         self.slice_by_slice_mode = slice_by_slice_mode
         if self.slice_by_slice_mode:
             self.sid = 0
@@ -71,8 +75,10 @@ class Transverse_Efield_map(object):
 
         # kick beam particles
         fact_kick = beam.charge / (beam.p0 * beam.beta * c) * self.L_interaction
-        beam.xp[pid] += fact_kick * Ex_sc_p
-        beam.yp[pid] += fact_kick * Ey_sc_p
+        if self.enable_kick_x:
+            beam.xp[pid] += fact_kick * Ex_sc_p
+        if self.enable_kick_y:
+            beam.yp[pid] += fact_kick * Ey_sc_p
 
     def _track_in_single_slice_mode(self, beam):
 
-- 
2.43.0

