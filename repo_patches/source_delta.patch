From ccbebeb99a9953fa391516438b5a60e1e4f9ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 1/7] fix: mirror the position of maximum camber along the
 girth of the underwater sail

---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 44e0f87..4fad021 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -89,7 +89,7 @@ class SailGeometry(BaseGeometry, ABC):
         sh0, sh1, sh2 = mesh.shape
         mesh = mesh.reshape(sh0*sh1, sh2)
         
-        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, interpolated_distance_from_luff, np.flip(interpolated_camber))
+        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, np.flip(interpolated_distance_from_luff), np.flip(interpolated_camber))
         ### zero mesh
         zero_mesh_under = np.swapaxes(mesh_underwater, 0, 1)
         panels_under_zero, _, _= make_panels_from_mesh_spanwise(zero_mesh_under)
-- 
2.43.0


From 2e47231df76c5b0b6c61095d3daf230553cf1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 2/7] fix: apply the twist selected by LLT_twist to the sail
 mesh

---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 4fad021..353d6fa 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -125,7 +125,7 @@ class SailGeometry(BaseGeometry, ABC):
                 'real_twist': initial_sail_twist_deg
             }
             sail_twist_deg = twist_dict[LLT_twist]
-            sail_twist_deg = np.hstack([initial_sail_twist_deg] * (sh1))
+            sail_twist_deg = np.hstack([sail_twist_deg] * (sh1))
             sail_twist_deg = sail_twist_deg.reshape(sh1, sh0).transpose().flatten()
 
             p2 = mesh[::sh1][-1]
-- 
2.43.0


From c543746384f9b9aacadd5a221373b7902fc5453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 3/7] fix: give the numpy defaults of the containers a default
 factory so that they import on Python 3.11 and later

---
 pySailingVLM/runner/container.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pySailingVLM/runner/container.py b/pySailingVLM/runner/container.py
index 869bc71..3fe02e2 100644
--- a/pySailingVLM/runner/container.py
+++ b/pySailingVLM/runner/container.py
@@ -67,10 +67,10 @@ class Rig:
 class MainSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00])
-    chords: np.ndarray = np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00])
-    camber: np.ndarray = 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00]))
+    camber: np.ndarray = field(default_factory=lambda: 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge
     
     def __post_init__(self):
         if self.centerline_twist_deg is None:
@@ -80,10 +80,10 @@ class MainSail:
 class JibSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./4, 1./2, 3./4, 1.00])
-    chords: np.ndarray =np.array([3.80, 2.98, 2.15, 1.33, 0.5])
-    camber: np.ndarray = 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge   
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./4, 1./2, 3./4, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([3.80, 2.98, 2.15, 1.33, 0.5]))
+    camber: np.ndarray = field(default_factory=lambda: 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge   
     def __post_init__(self):
         if self.centerline_twist_deg is None:
             self.centerline_twist_deg = 15. * self.girths + 7
@@ -103,7 +103,7 @@ class JibSail:
 # heeling_reference [m] - distance from the water level,  at which the heeling moment is calculated.
 @dataclass
 class Csys:
-    reference_level_for_moments: np.ndarray =  np.array([0, 0, 0])  # [yaw_reference, sway_reference, heeling_reference]
+    reference_level_for_moments: np.ndarray = field(default_factory=lambda: np.array([0, 0, 0]))  # [yaw_reference, sway_reference, heeling_reference]
 
 
 # GEOMETRY OF THE KEEL
@@ -111,4 +111,4 @@ class Csys:
 # reminder: the z coord shall be negative (under the water)
 @dataclass
 class Keel:
-    center_of_lateral_resistance_upright: np.ndarray =  np.array([0, 0, -1.0])  # [m] the coordinates for a yacht standing in upright position
+    center_of_lateral_resistance_upright: np.ndarray = field(default_factory=lambda: np.array([0, 0, -1.0]))  # [m] the coordinates for a yacht standing in upright position
-- 
2.43.0


From 67ca5be4372ec04217ca24beaf24caf0772baa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 4/7] fix: validate the settings of the exponential wind
 profile

---
 pySailingVLM/runner/sail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 28d131c..ca397d4 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -46,7 +46,7 @@ class Wind:
         try: 
             if self.conditions.wind_profile == 'logarithmic' and None in [self.conditions.roughness, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in logarithmic mode!: Roughness or wind_reference_measurment_height badly defined!")
-            elif self.conditions.wind_profile == 'expotentional' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
+            elif self.conditions.wind_profile == 'exponential' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in expotentional mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
             elif self.conditions.wind_profile == 'flat' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
-- 
2.43.0


From 8c09ae4e66482fb784db84bbef01b551ea01babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 5/7] fix: plot the section lift data as lift and the section
 drag data as drag

---
 pySailingVLM/runner/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 8cd596d..e555420 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -89,6 +89,6 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cd_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cl_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
     
\ No newline at end of file
-- 
2.43.0


From bf108d4949ff69f280f53cfe6b1d651bb1295094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 6/7] fix: take the lift of a free wing across its span

The wing of an Aircraft spans along z, but CL was the force component along z,
which is zero for a planar wing; the lift is the component along y.
---
 pySailingVLM/runner/aircraft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index 1de797e..94035d2 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from pySailingVLM.rotations.geometry_calc import rotation_matrix
 from pySailingVLM.solver.panels import make_panels_from_le_te_points, get_panels_area
-from pySailingVLM.solver.coefs import get_CL_CD_free_wing, get_vlm_CL_CD_free_wing, get_vlm_Cxyz
+from pySailingVLM.solver.coefs import get_CL_CD_free_wing, get_vlm_Cxyz
 from pySailingVLM.solver.coefs import calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points, \
                                 solve_eq, calculate_RHS, calc_velocity_coefs
 
@@ -66,7 +66,8 @@ class Aircraft:
         self.__force, _, _ = calc_force_wrapper(self.__V_app_infw, self.__gamma_magnitude, self.rho, cp, rings, self.n_spanwise, normals, span_vectors, trailing_edge_info, leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.__pressure = calc_pressure(self.__force, normals, areas)
 
-        self.__CL, self.__CD = get_vlm_CL_CD_free_wing(self.__force, self.V, self.rho, self.__S)
+        # the wing spans along z, so its lift acts along y
+        self.__CD, self.__CL, _ = self.__get_Cxyz()
 
         total_p = np.sum(self.__pressure, axis=0)
         q = 0.5 * rho * (np.linalg.norm(self.V) ** 2) * self.__S
-- 
2.43.0


From ee5b6091895b9b8eecfce875637766cb59b2c927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:47 +0000
Subject: [PATCH 7/7] fix: apparent wind angle at the panels keeps its quadrant

---
 pySailingVLM/results/inviscid_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index c223b38..05068bc 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -24,7 +24,7 @@ class InviscidFlowResults:
         self.V_induced_length = np.linalg.norm(self.V_induced_at_cp, axis=1)
         self.V_app_fs_at_cp = myvlm.V_app_fs_at_cp#V_app_fs
         self.V_app_fs_length = np.linalg.norm(self.V_app_fs_at_cp, axis=1)
-        self.AWA_app_fs = np.arctan(myvlm.V_app_fs_at_cp[:, 1] / myvlm.V_app_fs_at_cp[:, 0])
+        self.AWA_app_fs = np.arctan2(myvlm.V_app_fs_at_cp[:, 1], myvlm.V_app_fs_at_cp[:, 0])
   
         self.F_xyz = myvlm.force
         self.F_xyz_above_water, self.F_xyz_total = extract_above_water_quantities(self.F_xyz)
-- 
2.43.0

