From f3294aa099bbf3f714049dfbd65182b8c09f4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:41 +0000
Subject: [PATCH 001/134] fix: SIS_truncate.hessian differentiates r at the
 coordinates relative to the profile centre

---
 lenstronomy/LensModel/Profiles/sis_truncate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/sis_truncate.py b/lenstronomy/LensModel/Profiles/sis_truncate.py
index 9135f08..8be8892 100644
--- a/lenstronomy/LensModel/Profiles/sis_truncate.py
+++ b/lenstronomy/LensModel/Profiles/sis_truncate.py
@@ -109,7 +109,7 @@ class SIS_truncate(LensProfileBase):
         y_shift = y - center_y
         dphi_dr = self._dphi_dr(x_shift, y_shift, theta_E, r_trunc)
         d2phi_dr2 = self._d2phi_dr2(x_shift, y_shift, theta_E, r_trunc)
-        dr_dx, dr_dy = self._dr_dx(x, y)
+        dr_dx, dr_dy = self._dr_dx(x_shift, y_shift)
         d2r_dx2, d2r_dy2, d2r_dxy = self._d2r_dx2(x_shift, y_shift)
         f_xx = d2r_dx2 * dphi_dr + dr_dx**2 * d2phi_dr2
         f_yy = d2r_dy2 * dphi_dr + dr_dy**2 * d2phi_dr2
-- 
2.43.0


From 20e00d9d0cbb54c92c14ea1be8ebb277a44c36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:29 +0000
Subject: [PATCH 002/134] fix: TNFW.mass_3d evaluates the truncation radius in
 units of Rs

---
 lenstronomy/LensModel/Profiles/tnfw.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/tnfw.py b/lenstronomy/LensModel/Profiles/tnfw.py
index 8c3e130..4464ffe 100644
--- a/lenstronomy/LensModel/Profiles/tnfw.py
+++ b/lenstronomy/LensModel/Profiles/tnfw.py
@@ -206,17 +206,18 @@ class TNFW(LensProfileBase):
 
         x = r * Rs**-1
         x = np.maximum(x, self._s)
+        tau = r_trunc * Rs**-1
         func = (
-            r_trunc**2
+            tau**2
             * (
-                -2 * x * (1 + r_trunc**2)
-                + 4 * (1 + x) * r_trunc * np.arctan(x / r_trunc)
-                - 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs)
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * (1 + x))
-                + 2 * (1 + x) * (-1 + r_trunc**2) * np.log(Rs * r_trunc)
-                - (1 + x) * (-1 + r_trunc**2) * np.log(Rs**2 * (x**2 + r_trunc**2))
+                -2 * x * (1 + tau**2)
+                + 4 * (1 + x) * tau * np.arctan(x / tau)
+                - 2 * (1 + x) * (-1 + tau**2) * np.log(Rs)
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * (1 + x))
+                + 2 * (1 + x) * (-1 + tau**2) * np.log(Rs * tau)
+                - (1 + x) * (-1 + tau**2) * np.log(Rs**2 * (x**2 + tau**2))
             )
-        ) / (2.0 * (1 + x) * (1 + r_trunc**2) ** 2)
+        ) / (2.0 * (1 + x) * (1 + tau**2) ** 2)
 
         m_3d = 4 * np.pi * Rs**3 * rho0 * func
         return m_3d
-- 
2.43.0


From df3c19c5f42c3b11d8d95810ba6c4816e514d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:10 +0000
Subject: [PATCH 003/134] fix: Hernquist projected mass is finite at the scale
 radius

---
 lenstronomy/LensModel/Profiles/hernquist.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/hernquist.py b/lenstronomy/LensModel/Profiles/hernquist.py
index adc0f5e..f4310fa 100644
--- a/lenstronomy/LensModel/Profiles/hernquist.py
+++ b/lenstronomy/LensModel/Profiles/hernquist.py
@@ -140,8 +140,7 @@ class Hernquist(LensProfileBase):
         :param Rs: Hernquist radius
         :return: mass enclosed 2d projected radius
         """
-        X = r / Rs
-        alpha_r = 2 * sigma0 * Rs * X * (1 - self._F(X)) / (X**2 - 1)
+        alpha_r, _ = self.derivatives(r, 0, sigma0, Rs)
         mass_2d = alpha_r * r * np.pi
         return mass_2d
 
-- 
2.43.0


From e2c42bf978f324ac5b0861d52033c8994e5489a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:14 +0000
Subject: [PATCH 004/134] fix: potential of line-of-sight lens models uses the
 main-lens parameters when the LOS model is not listed last

---
 lenstronomy/LensModel/LineOfSight/single_plane_los.py         | 4 ++--
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los.py b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
index 44ad5af..080a90d 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
@@ -399,7 +399,7 @@ class SinglePlaneLOS(SinglePlane):
               In the presence of LOS corrections, a lensing system does not always\
               derive from a potential.")
 
-        # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, kwargs_los = self.split_lens_los(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs=kwargs_main, k=k)
 
         return potential
diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index b2c9092..559e6aa 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -594,7 +594,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
               In the presence of LOS corrections, a lensing system does not always\
               derive from a potential.")
 
-        # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, kwargs_los = self.split_lens_los_flexion(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs=kwargs_main, k=k)
 
         return potential
-- 
2.43.0


From e6d20c3354dc2c3411ada7dcc803df1b430bba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:49 +0000
Subject: [PATCH 005/134] fix: single-component evaluation of a lens model
 applies the source-redshift scaling

---
 lenstronomy/LensModel/single_plane.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/single_plane.py b/lenstronomy/LensModel/single_plane.py
index 81aa8a6..60ffe20 100644
--- a/lenstronomy/LensModel/single_plane.py
+++ b/lenstronomy/LensModel/single_plane.py
@@ -93,7 +93,8 @@ class SinglePlane(ProfileListBase):
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
         if isinstance(k, int):
-            return np.asarray(self.func_list[k].function(x, y, **kwargs[k]))
+            potential = self.func_list[k].function(x, y, **kwargs[k])
+            return np.asarray(potential) * self._alpha_scaling
         bool_list = self._bool_list(k)
         potential = np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -118,7 +119,10 @@ class SinglePlane(ProfileListBase):
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
         if isinstance(k, int):
             f_x, f_y = self.func_list[k].derivatives(x, y, **kwargs[k])
-            return np.asarray(f_x), np.asarray(f_y)
+            return (
+                np.asarray(f_x) * self._alpha_scaling,
+                np.asarray(f_y) * self._alpha_scaling,
+            )
         bool_list = self._bool_list(k)
         f_x, f_y = np.zeros_like(x), np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -151,10 +155,10 @@ class SinglePlane(ProfileListBase):
         if isinstance(k, int):
             f_xx, f_xy, f_yx, f_yy = self.func_list[k].hessian(x, y, **kwargs[k])
             return (
-                np.asarray(f_xx),
-                np.asarray(f_xy),
-                np.asarray(f_yx),
-                np.asarray(f_yy),
+                np.asarray(f_xx) * self._alpha_scaling,
+                np.asarray(f_xy) * self._alpha_scaling,
+                np.asarray(f_yx) * self._alpha_scaling,
+                np.asarray(f_yy) * self._alpha_scaling,
             )
 
         bool_list = self._bool_list(k)
-- 
2.43.0


From 1fbdfb26129a2e6d000aa2f07cd8fdacbfa58074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:07 +0000
Subject: [PATCH 006/134] fix: hyper2F2_array returns a float for scalar input,
 so the Sersic lens potential can be evaluated in a LensModel

---
 lenstronomy/Util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 45d6ada..3511cc6 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -679,7 +679,7 @@ def hyper2F2_array(a, b, c, d, x):
     import mpmath
 
     if isinstance(x, int) or isinstance(x, float):
-        out = mpmath.hyp2f2(a, b, c, d, x)
+        out = float(mpmath.hyp2f2(a, b, c, d, x))
     else:
         n = len(x)
         out = np.zeros(n)
-- 
2.43.0


From df5e8db548e39a145619116579b2170933eace36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:55 +0000
Subject: [PATCH 007/134] fix: hessian_z1z2 starts the ray at theta_y in the
 y-direction

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 626d520..ee3efb6 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -586,7 +586,7 @@ class MultiPlane(object):
 
         T_0z1 = self._multi_plane_base._cosmo_bkg.T_xy(0, z1)
         x = theta_x * T_0z1
-        y = theta_x * T_0z1
+        y = theta_y * T_0z1
         x_s0, y_s0, _, _ = self.ray_shooting_partial_comoving(
             x=x,
             y=y,
-- 
2.43.0


From 6b032424f45c366a1763575609beeb9d8dde25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 008/134] fix: LensedLocation looks up the distance of the
 deflector in the redshift-sorted list

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index ee3efb6..779da6f 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -766,7 +766,9 @@ class LensedLocation(object):
                 T_ij_end=None,
             )
 
-            T = self._multiplane.T_z_list[ind]
+            # T_z_list is ordered by redshift
+            sorted_index = list(self._multiplane.sorted_redshift_index).index(ind)
+            T = self._multiplane.T_z_list[sorted_index]
             new_kwargs[ind]["center_x"] = x / T
             new_kwargs[ind]["center_y"] = y / T
 
-- 
2.43.0


From 4d5a53ca3cade4fbd89fff077f840a6cc5b92e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 009/134] fix: MultiPlane static mode respects and restores
 ignore_observed_positions

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 779da6f..8fff0f8 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -157,6 +157,7 @@ class MultiPlane(object):
                 self._multi_plane_base, observed_convention_index
             )
         self.ignore_observed_positions = ignore_observed_positions
+        self._ignore_observed_positions_dynamic = ignore_observed_positions
 
     def update_source_redshift(self, z_source):
         """Update instance of this class to compute reduced lensing quantities and time
@@ -682,7 +683,8 @@ class MultiPlane(object):
         :return: lens model keyword argument list with positional parameters all in flat sky coordinates
         """
 
-        kwargs = self.observed2flat_convention(kwargs)
+        if not self.ignore_observed_positions:
+            kwargs = self.observed2flat_convention(kwargs)
         self.ignore_observed_positions = True
         return self._multi_plane_base.set_static(kwargs)
 
@@ -691,7 +693,7 @@ class MultiPlane(object):
 
         :return:
         """
-        self.ignore_observed_positions = False
+        self.ignore_observed_positions = self._ignore_observed_positions_dynamic
         self._multi_plane_base.set_dynamic()
 
     @staticmethod
-- 
2.43.0


From 077058b37f669897d450979b72f3c32f11a75d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:16 +0000
Subject: [PATCH 010/134] fix: multi-plane geometric delay with deflectors at
 or behind the source plane

---
 .../LensModel/MultiPlane/multi_plane_base.py  | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
index deb1c8f..bd341c0 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
@@ -353,8 +353,8 @@ class MultiPlaneBase(ProfileListBase):
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
 
-        i = 0
         z_lens_last = 0
+        T_z_last = None
         for i, index in enumerate(self._sorted_redshift_index):
             z_lens = self._lens_redshift_list[index]
             if z_lens <= z_stop:
@@ -379,20 +379,23 @@ class MultiPlaneBase(ProfileListBase):
 
                 dt_grav += dt_grav_new
                 z_lens_last = z_lens
+                T_z_last = self._T_z_list[i]
         if T_ij_end is None:
             T_ij_end = self._cosmo_bkg.T_xy(z_lens_last, z_stop)
         T_ij = T_ij_end
         x_new, y_new = self._ray_step(x, y, alpha_x, alpha_y, T_ij)
         if T_z_stop is None:
             T_z_stop = self._cosmo_bkg.T_xy(0, z_stop)
-        T_j = T_z_stop
-        T_i = self._T_z_list[i]
-        beta_i_x, beta_i_y = x / T_i, y / T_i
-        beta_j_x, beta_j_y = x_new / T_j, y_new / T_j
-        dt_geo_new = self._geometrical_delay(
-            beta_i_x, beta_i_y, beta_j_x, beta_j_y, T_i, T_j, T_ij
-        )
-        dt_geo += dt_geo_new
+        # no delay without deflector in front of, or without distance to, the last plane
+        if T_z_last is not None and T_ij > 0:
+            T_j = T_z_stop
+            T_i = T_z_last
+            beta_i_x, beta_i_y = x / T_i, y / T_i
+            beta_j_x, beta_j_y = x_new / T_j, y_new / T_j
+            dt_geo_new = self._geometrical_delay(
+                beta_i_x, beta_i_y, beta_j_x, beta_j_y, T_i, T_j, T_ij
+            )
+            dt_geo += dt_geo_new
         return np.asarray(dt_geo), np.asarray(dt_grav)
 
     @staticmethod
-- 
2.43.0


From eb62656c663e19683e2f3b3f8c6d3545d049abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:56 +0000
Subject: [PATCH 011/134] fix: LightParam treats the amplitudes of
 SHAPELETS_ELLIPSE and MGE_SET profiles as arrays when they are sampled

---
 lenstronomy/LightModel/light_param.py | 44 ++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index 9ad3824..d315db7 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -55,7 +55,12 @@ class LightParam(object):
         self.upper_limit = kwargs_upper
         # check that n_max is fixed
         for k, model in enumerate(self.model_list):
-            if model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]:
+            if model in [
+                "SHAPELETS",
+                "SHAPELETS_ELLIPSE",
+                "SHAPELETS_POLAR",
+                "SHAPELETS_POLAR_EXP",
+            ]:
                 if "n_max" not in self.kwargs_fixed[k]:
                     Warning("n_max needs to be fixed in %s." % model)
 
@@ -79,7 +84,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_ELLIPSE",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                        ]
                         and name == "amp"
                     ):
                         if "n_max" in kwargs_fixed:
@@ -117,6 +128,10 @@ class LightParam(object):
                         num_param = n_scales * n_pixels
                         kwargs["amp"] = args[i : i + num_param]
                         i += num_param
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        kwargs["amp"] = args[i : i + num_param]
+                        i += num_param
                     else:
                         kwargs[name] = args[i]
                         i += 1
@@ -141,7 +156,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_ELLIPSE",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                        ]
                         and name == "amp"
                     ):
                         n_max = kwargs_fixed.get("n_max", kwargs.get("n_max"))
@@ -196,6 +217,10 @@ class LightParam(object):
                         raise ValueError(
                             "'sigma' must be a fixed keyword argument for MULTI_GAUSSIAN"
                         )
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        for i in range(num_param):
+                            args.append(kwargs[name][i])
                     else:
                         args.append(kwargs[name])
         return args
@@ -213,7 +238,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_ELLIPSE",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                        ]
                         and name == "amp"
                     ):
                         if "n_max" not in kwargs_fixed:
@@ -253,6 +284,11 @@ class LightParam(object):
                         num += num_param
                         for i in range(num_param):
                             name_list.append(str(name + "_" + self._type + str(k)))
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        num += num_param
+                        for i in range(num_param):
+                            name_list.append(str(name + "_" + self._type + str(k)))
                     else:
                         num += 1
                         name_list.append(str(name + "_" + self._type + str(k)))
-- 
2.43.0


From f2d39f925fac44238546551d74419eb0542a456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:35 +0000
Subject: [PATCH 012/134] fix: num_param_linear supports SERSIC_ELLIPSE_Q_PHI
 as the other linear-basis routines do

---
 lenstronomy/LightModel/linear_basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LightModel/linear_basis.py b/lenstronomy/LightModel/linear_basis.py
index 8e65696..2c5fd52 100644
--- a/lenstronomy/LightModel/linear_basis.py
+++ b/lenstronomy/LightModel/linear_basis.py
@@ -142,6 +142,7 @@ class LinearBasis(LightModelBase):
                 "SERSIC",
                 "SERSIC_ELLIPSE",
                 "SERSIC_ELLIPSE_FLEXION",
+                "SERSIC_ELLIPSE_Q_PHI",
                 "TRIPLE_CHAMELEON",
                 "UNIFORM",
             ]:
-- 
2.43.0


From faac41ff9142bdaa6d0f8db837a73c5e3db74a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:35 +0000
Subject: [PATCH 013/134] fix: missing comma in the parameter names of
 CTNFW_GAUSS_DEC

---
 lenstronomy/LensModel/Profiles/gauss_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/gauss_decomposition.py b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
index 4ca089e..49d4d79 100644
--- a/lenstronomy/LensModel/Profiles/gauss_decomposition.py
+++ b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
@@ -555,7 +555,7 @@ class CTNFWGaussDec(GaussDecompositionAbstract3D):
     """This class computes the lensing properties of an projection from a spherical
     cored-truncated NFW profile using Shajib (2019)'s Gauss decomposition method."""
 
-    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x" "center_y"]
+    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x", "center_y"]
     lower_limit_default = {
         "r_s": 0,
         "r_core": 0,
-- 
2.43.0


From 98b5476c245a3cd3c996a8b678d7ed43273efdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:35 +0000
Subject: [PATCH 014/134] fix: Param without fixed extinction parameters
 supports optical depth models

---
 lenstronomy/Sampling/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 1556b09..41378c8 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -318,6 +318,10 @@ class Param(object):
             ]
         if kwargs_fixed_ps is None:
             kwargs_fixed_ps = [{} for _ in range(len(self._point_source_model_list))]
+        if kwargs_fixed_extinction is None:
+            kwargs_fixed_extinction = [
+                {} for _ in range(len(self._optical_depth_model_list))
+            ]
         if kwargs_fixed_tracer_source is None:
             kwargs_fixed_tracer_source = [
                 {} for _ in range(len(self._tracer_source_model_list))
-- 
2.43.0


From d338ba4a8133a6c3c2995240607eb6c51e2c37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:35 +0000
Subject: [PATCH 015/134] fix: ArrayParam.get_params imposes the bounds without
 changing the parameter vector passed in

---
 lenstronomy/Sampling/param_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/param_group.py b/lenstronomy/Sampling/param_group.py
index 35a75aa..7c2e2bc 100644
--- a/lenstronomy/Sampling/param_group.py
+++ b/lenstronomy/Sampling/param_group.py
@@ -7,6 +7,7 @@ parameters you can safely ignore this.
 __author__ = "jhodonnell"
 __all__ = ["ModelParamGroup", "SingleParam", "ArrayParam"]
 
+import copy
 import numpy as np
 
 
@@ -303,7 +304,7 @@ class ArrayParam(ModelParamGroup):
         params = {}
         for name, count in self.param_names.items():
             if name not in kwargs_fixed:
-                params[name] = args[i : i + count]
+                params[name] = copy.copy(args[i : i + count])
 
                 if kwargs_lower is not None:
                     for j in range(len(params[name])):
-- 
2.43.0


From a758e657c163dd256b76a4d4cf67d3307fc6c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:18 +0000
Subject: [PATCH 016/134] fix: default upper limits of e1, e2 equalled the
 lower limits in elliptical Gaussian and linear light profiles

---
 lenstronomy/LightModel/Profiles/gaussian.py | 8 ++++----
 lenstronomy/LightModel/Profiles/linear.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/gaussian.py b/lenstronomy/LightModel/Profiles/gaussian.py
index 74806de..0c7b2e4 100644
--- a/lenstronomy/LightModel/Profiles/gaussian.py
+++ b/lenstronomy/LightModel/Profiles/gaussian.py
@@ -87,8 +87,8 @@ class GaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
@@ -247,8 +247,8 @@ class MultiGaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index 660ea77..bfd760c 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -75,8 +75,8 @@ class LinearEllipse(object):
     upper_limit_default = {
         "k": 1000,
         "amp": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
-- 
2.43.0


From 1e4350b300719b86ce0edeeef10e4e9e9c5579a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:18 +0000
Subject: [PATCH 017/134] fix: default limits for all sampled parameters of
 CORE_SERSIC and ElliSLICE

---
 lenstronomy/LensModel/Profiles/elliptical_density_slice.py | 2 ++
 lenstronomy/LightModel/Profiles/sersic.py                  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
index ee0f98d..10eabde 100644
--- a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
+++ b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
@@ -41,6 +41,7 @@ class ElliSLICE(LensProfileBase):
         "a": 0.0,
         "b": 0.0,
         "psi": -90.0 / 180.0 * np.pi,
+        "sigma_0": 0.0,
         "center_x": -100.0,
         "center_y": -100.0,
     }
@@ -48,6 +49,7 @@ class ElliSLICE(LensProfileBase):
         "a": 100.0,
         "b": 100.0,
         "psi": 90.0 / 180.0 * np.pi,
+        "sigma_0": 100.0,
         "center_x": 100.0,
         "center_y": 100.0,
     }
diff --git a/lenstronomy/LightModel/Profiles/sersic.py b/lenstronomy/LightModel/Profiles/sersic.py
index 486f8a8..815bbe4 100644
--- a/lenstronomy/LightModel/Profiles/sersic.py
+++ b/lenstronomy/LightModel/Profiles/sersic.py
@@ -222,6 +222,7 @@ class CoreSersic(SersicUtil):
     ]
     lower_limit_default = {
         "amp": 0,
+        "R_sersic": 0,
         "Rb": 0,
         "n_sersic": 0.5,
         "gamma": 0,
@@ -232,6 +233,7 @@ class CoreSersic(SersicUtil):
     }
     upper_limit_default = {
         "amp": 100,
+        "R_sersic": 100,
         "Rb": 100,
         "n_sersic": 8,
         "gamma": 10,
-- 
2.43.0


From 26c3bb03605ea4611d9a5b59a9d1500bb4739117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:24 +0000
Subject: [PATCH 018/134] fix: lens models joint with a source light model that
 is itself joint with another source

---
 lenstronomy/Sampling/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 41378c8..d1328f1 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -599,6 +599,10 @@ class Param(object):
         kwargs_lens = self._update_joint_param(
             kwargs_lens_light, kwargs_lens, self._joint_lens_with_light
         )
+        # resolve source parameters linked to other sources before lens models refer to them
+        kwargs_source = self._update_joint_param(
+            kwargs_source, kwargs_source, self._joint_source_with_source
+        )
         kwargs_lens = self._update_joint_param(
             kwargs_source, kwargs_lens, self._joint_lens_with_source_light
         )
-- 
2.43.0


From 1bc135b3b15720db50e63792944989ad1050ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:42 +0000
Subject: [PATCH 019/134] fix: polar2cart is the inverse of cart2polar about a
 centre other than the origin

---
 lenstronomy/Util/param_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/param_util.py b/lenstronomy/Util/param_util.py
index 32fbec0..33d83c4 100644
--- a/lenstronomy/Util/param_util.py
+++ b/lenstronomy/Util/param_util.py
@@ -44,7 +44,7 @@ def polar2cart(r, phi, center):
     """
     x = r * np.cos(phi)
     y = r * np.sin(phi)
-    return x - center[0], y - center[1]
+    return x + center[0], y + center[1]
 
 
 @export
-- 
2.43.0


From 44f760f0f1d02f58a38a8571e823d559a4e81da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:09 +0000
Subject: [PATCH 020/134] fix: RegularGrid selects the sub-pixels of the pixels
 in flux_evaluate_indexes

---
 lenstronomy/ImSim/Numerics/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index df0cfce..c4d329b 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -284,7 +284,7 @@ class RegularGrid(Coordinates1D):
         :return: 1d array of equivalent mask in subgrid resolution
         """
         idex_sub = np.repeat(idex_mask, subgrid_res, axis=0)
-        idex_sub = util.array2image(idex_sub, nx=nx, ny=ny * subgrid_res)
+        idex_sub = util.array2image(idex_sub, nx=nx * subgrid_res, ny=ny)
         idex_sub = np.repeat(idex_sub, subgrid_res, axis=0)
         idex_sub = util.image2array(idex_sub)
         return idex_sub
-- 
2.43.0


From 5b01e25951f24af37e8b65d59cd8296085a51781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:09 +0000
Subject: [PATCH 021/134] fix: AdaptiveGrid accepts flux_evaluate_indexes as an
 image, as RegularGrid does

---
 lenstronomy/ImSim/Numerics/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index c4d329b..7b53e9c 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -41,6 +41,8 @@ class AdaptiveGrid(Coordinates1D):
         self._x_grid, self._y_grid = self.coordinate_grid(nx, ny)
         if flux_evaluate_indexes is None:
             flux_evaluate_indexes = np.ones_like(self._x_grid, dtype=bool)
+        elif np.ndim(flux_evaluate_indexes) == 2:
+            flux_evaluate_indexes = util.image2array(flux_evaluate_indexes)
         supersampled_indexes1d = util.image2array(supersampling_indexes)
         self._high_res_indexes1d = (supersampled_indexes1d) & (flux_evaluate_indexes)
         self._low_res_indexes1d = (np.invert(supersampled_indexes1d)) & (
-- 
2.43.0


From c2a9d85b6852dc25b78df697422bbb08724606b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:33 +0000
Subject: [PATCH 022/134] fix: sub-frames of the image are located with the
 first image axis as y, as in the pixel grid

---
 lenstronomy/ImSim/Numerics/numerics_subframe.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/numerics_subframe.py b/lenstronomy/ImSim/Numerics/numerics_subframe.py
index 2d450ff..fa8c34b 100644
--- a/lenstronomy/ImSim/Numerics/numerics_subframe.py
+++ b/lenstronomy/ImSim/Numerics/numerics_subframe.py
@@ -132,10 +132,10 @@ class NumericsSubFrame(PointSourceRendering):
         :return: 2d numpy array of size of image with added zeros on their edges
         """
         if self._subframe_calc is True:
-            image = np.zeros((self._nx, self._ny))
+            image = np.zeros((self._ny, self._nx))
             image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ] = image_sub_frame
         else:
             image = image_sub_frame
@@ -149,10 +149,11 @@ class NumericsSubFrame(PointSourceRendering):
             self._x_max_sub, self._y_max_sub = self._nx, self._ny
         else:
             self._subframe_calc = True
-            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
-            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
-            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
-            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
+            # images are indexed as [y, x]
+            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
+            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
+            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
+            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
 
     def _cut_frame(self, image):
         """
@@ -162,8 +163,8 @@ class NumericsSubFrame(PointSourceRendering):
         """
         if self._subframe_calc is True and image is not None:
             return image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ]
         else:
             return image
-- 
2.43.0


From ec69f6e0947a5d766851c761d2b5971fa79cddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:33 +0000
Subject: [PATCH 023/134] fix: PixelGrid.shift_coordinate_system also moves the
 pixel coordinates

---
 lenstronomy/Data/pixel_grid.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lenstronomy/Data/pixel_grid.py b/lenstronomy/Data/pixel_grid.py
index d36b7c2..3acecd9 100644
--- a/lenstronomy/Data/pixel_grid.py
+++ b/lenstronomy/Data/pixel_grid.py
@@ -53,6 +53,17 @@ class PixelGrid(Coordinates):
             self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
         return updated_bool
 
+    def shift_coordinate_system(self, x_shift, y_shift, pixel_unit=False):
+        """Shifts the coordinate system and the coordinates of the pixels.
+
+        :param x_shift: shift in x (or RA)
+        :param y_shift: shift in y (or DEC)
+        :param pixel_unit: bool, if True, units of pixels in input, otherwise RA/DEC
+        :return: updated data class with change in coordinate system
+        """
+        super().shift_coordinate_system(x_shift, y_shift, pixel_unit=pixel_unit)
+        self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
+
     @property
     def num_pixel(self):
         """
-- 
2.43.0


From e0f50feb24d079539c31be50556eea534ec24c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:33 +0000
Subject: [PATCH 024/134] fix: ImageData.update_data rejects data that differ
 in either axis length

---
 lenstronomy/Data/imaging_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index 88a2ff3..fd6a5b6 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -142,7 +142,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
         :return: None
         """
         ny, nx = np.shape(image_data)
-        if not self._nx == nx and not self._ny == ny:
+        if not self._nx == nx or not self._ny == ny:
             raise ValueError(
                 "shape of new data %s %s must equal old data %s %s!"
                 % (nx, ny, self._nx, self._ny)
-- 
2.43.0


From 7137f9a9db2aae9add8fb24e58e1f3b1f2ea8bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:02 +0000
Subject: [PATCH 025/134] fix: undefined (nan) log-likelihoods are replaced by
 the documented penalty

---
 lenstronomy/Sampling/Likelihoods/image_likelihood.py    | 2 +-
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 2 +-
 lenstronomy/Sampling/Likelihoods/tracer_likelihood.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/image_likelihood.py b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
index a16dd7a..d041d19 100644
--- a/lenstronomy/Sampling/Likelihoods/image_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
@@ -82,7 +82,7 @@ class ImageLikelihood(object):
             linear_prior=self._linear_prior,
             check_positive_flux=self._check_positive_flux,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15), param
         return logL, param
 
diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index b5f12f1..2588081 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -199,7 +199,7 @@ class PositionLikelihood(object):
             )
             dist = (delta_x**2 + delta_y**2) / sigma**2 / 2
             logL = -np.sum(dist)
-            if np.isnan(logL) is True:
+            if np.isnan(logL):
                 return -(10**15)
             return logL
         else:
diff --git a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
index c16686f..9932e05 100644
--- a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
@@ -71,7 +71,7 @@ class TracerLikelihood(object):
             kwargs_extinction=kwargs_extinction,
             kwargs_special=kwargs_special,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15)
         return logL
 
-- 
2.43.0


From 5501bed416af89558dc22f5236be6b23749e0d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:02 +0000
Subject: [PATCH 026/134] fix: image_flux_joint selects source component k,
 whatever the order of the source redshifts

---
 lenstronomy/ImSim/image2source_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 2cb55e3..19f93a8 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -301,7 +301,7 @@ class Image2SourceMapping(object):
                             T_ij_end=T_ij_end,
                         )
 
-                    if k is None or k == i:
+                    if k is None or k == index_source:
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=index_source
                         )
-- 
2.43.0


From a4b133ee87a6aa3aadcf5408021583b25cc1d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:32 +0000
Subject: [PATCH 027/134] fix: joint-linear error response accounts for
 kwargs_special

---
 lenstronomy/ImSim/MultiBand/joint_linear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 3573b02..870126d 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -71,7 +71,9 @@ class JointLinear(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
-- 
2.43.0


From 7132e3d6c6271fcc0d113e4e0c59c29a1d7b3daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:33 +0000
Subject: [PATCH 028/134] fix: joint-linear positive-flux check uses the solved
 amplitudes

---
 lenstronomy/ImSim/MultiBand/joint_linear.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 870126d..6446ee2 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -220,7 +220,13 @@ class JointLinear(MultiLinear):
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
         if check_positive_flux is True and self._num_bands > 0:
-            bool_ = self._image_model_list[0].check_positive_flux(
+            image_model = self._image_model_list[0]
+            _, kwargs_source, kwargs_lens_light, kwargs_ps = (
+                image_model.update_linear_kwargs(
+                    param, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+                )
+            )
+            bool_ = image_model.check_positive_flux(
                 kwargs_source, kwargs_lens_light, kwargs_ps
             )
             if bool_ is False:
-- 
2.43.0


From 7561b47f9c7bdaa403af5efa2d70b633b2895823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:33 +0000
Subject: [PATCH 029/134] fix: joint-linear counts the linear parameters shared
 among bands once

---
 lenstronomy/ImSim/MultiBand/joint_linear.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 6446ee2..7f9e220 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -116,6 +116,24 @@ class JointLinear(MultiLinear):
                     A = np.append(A, A_i, axis=1)
         return A
 
+    def num_param_linear(
+        self, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+    ):
+        """Number of linear parameters, shared among all bands.
+
+        :param kwargs_lens: lens model keyword argument list
+        :param kwargs_source: source light keyword argument list
+        :param kwargs_lens_light: lens light keyword argument list
+        :param kwargs_ps: point source keyword argument list
+        :return: number of linear coefficients to be solved for in the linear inversion
+        """
+        for i in range(self._num_bands):
+            if self._compute_bool[i] is True:
+                return self._image_model_list[i].num_param_linear(
+                    kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+                )
+        return 0
+
     @property
     def data_response(self):
         """Returns the 1d array of the data element that is fitted for (including
-- 
2.43.0


From 8539fd7579aa74b9cd09e12f88d7f783f948deec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:33 +0000
Subject: [PATCH 030/134] fix: ImageModel.update_data evaluates the model on
 the pixels of the new data

---
 lenstronomy/ImSim/image_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index eaf0213..fe32899 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -743,7 +743,9 @@ class ImageModel(object):
         :return: no return. Class is updated.
         """
         self.Data = data_class
-        self.ImageNumerics._PixelGrid = data_class
+        self.ImageNumerics = NumericsSubFrame(
+            pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
+        )
 
     @property
     def num_data_evaluate(self):
-- 
2.43.0


From 0662ba50529f8964047d5b48f647239cfe5d49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:04 +0000
Subject: [PATCH 031/134] fix: the unconvolved linear response leaves point
 sources unconvolved too

---
 lenstronomy/ImSim/image_linear_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 1c51a34..628692f 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -407,7 +407,7 @@ class ImageLinearFit(ImageModel):
         # response of point sources
         for i in range(0, n_points):
             image = self.ImageNumerics.point_source_rendering(
-                ra_pos[i], dec_pos[i], amp[i]
+                ra_pos[i], dec_pos[i], amp[i], unconvolved=unconvolved
             )
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
-- 
2.43.0


From 8406edb8263acee4bc978b2b1c1f6a5a705ef8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:00 +0000
Subject: [PATCH 032/134] fix: joint-linear with varying background: error
 response, positive-flux check and number of parameters as in joint-linear

---
 .../MultiBand/joint_linear_vary_background.py | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 96a52dc..feec66b 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -102,7 +102,9 @@ class JointLinear_VaryBG(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
@@ -151,6 +153,26 @@ class JointLinear_VaryBG(MultiLinear):
                     A = np.append(A, A_i, axis=1)
         return A
 
+    def num_param_linear(
+        self, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+    ):
+        """Number of linear parameters: those shared among all bands and one background
+        per computed band.
+
+        :param kwargs_lens: lens model keyword argument list
+        :param kwargs_source: source light keyword argument list
+        :param kwargs_lens_light: lens light keyword argument list
+        :param kwargs_ps: point source keyword argument list
+        :return: number of linear coefficients to be solved for in the linear inversion
+        """
+        for i in range(self._num_bands):
+            if self._compute_bool[i] is True:
+                num_shared = self._image_model_list[i].num_param_linear(
+                    kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+                )
+                return num_shared + sum(self._compute_bool)
+        return 0
+
     @property
     def data_response(self):
         """Returns the 1d array of the data element that is fitted for (including
@@ -255,7 +277,13 @@ class JointLinear_VaryBG(MultiLinear):
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
         if check_positive_flux is True and self._num_bands > 0:
-            bool_ = self._image_model_list[0].check_positive_flux(
+            image_model = self._image_model_list[0]
+            _, kwargs_source, kwargs_lens_light, kwargs_ps = (
+                image_model.update_linear_kwargs(
+                    param, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+                )
+            )
+            bool_ = image_model.check_positive_flux(
                 kwargs_source, kwargs_lens_light, kwargs_ps
             )
             if bool_ is False:
-- 
2.43.0


From 37e09a60d0c4901af5fa46949b298c7ca3ca04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:14 +0000
Subject: [PATCH 033/134] fix: no background parameter for bands that are not
 computed (the normal matrix was singular)

---
 .../ImSim/MultiBand/joint_linear_vary_background.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index feec66b..917ee69 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -123,7 +123,7 @@ class JointLinear_VaryBG(MultiLinear):
     ):
         """Computes the linear response matrix of shape (N_params + N_bands, N_pixels_total),
         where the last N_bands rows encode the per-band constant background: row
-        N_params + i is all-ones for band i's pixels and zero elsewhere.
+        N_params + i is all-ones for the i-th computed band's pixels and zero elsewhere.
 
         :param kwargs_lens:
         :param kwargs_source:
@@ -143,8 +143,10 @@ class JointLinear_VaryBG(MultiLinear):
                     kwargs_special,
                 )
                 # Background response: ones for this band's pixels, zeros for all other bands
-                background_response_i = np.zeros((self._num_bands, A_i_start.shape[1]))
-                background_response_i[i, :] += 1
+                background_response_i = np.zeros(
+                    (sum(self._compute_bool), A_i_start.shape[1])
+                )
+                background_response_i[sum(self._compute_bool[:i]), :] += 1
                 A_i = np.append(A_i_start, background_response_i, axis=0)
 
                 if len(A) == 0:
-- 
2.43.0


From 9acbdcbc4e4c05dffdd4003ce77875558246bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:14 +0000
Subject: [PATCH 034/134] fix: the tracer likelihood applies its mask

---
 lenstronomy/ImSim/tracer_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/tracer_model.py b/lenstronomy/ImSim/tracer_model.py
index af599f4..f13ad16 100644
--- a/lenstronomy/ImSim/tracer_model.py
+++ b/lenstronomy/ImSim/tracer_model.py
@@ -72,6 +72,7 @@ class TracerModelSource(ImageModel):
             point_source_class=point_source_class,
             extinction_class=extinction_class,
             kwargs_numerics=kwargs_numerics,
+            likelihood_mask=likelihood_mask,
             kwargs_pixelbased=kwargs_pixelbased,
         )
         if psf_error_map_bool_list is None:
-- 
2.43.0


From 02662d8c81df7e7ec48cd12c64a8fc7c44a4a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:59 +0000
Subject: [PATCH 035/134] fix: bands with a selection of models get the profile
 keyword arguments of the selected models

---
 lenstronomy/Util/class_creator.py | 43 ++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index 6ace033..6791cfd 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -144,7 +144,11 @@ def create_class_instances(
         lens_model_list_i = lens_model_list
         lens_redshift_list_i = lens_redshift_list
         observed_convention_index_i = observed_convention_index
+        lens_profile_kwargs_list_i = lens_profile_kwargs_list
     else:
+        lens_profile_kwargs_list_i = _select_profile_kwargs(
+            lens_profile_kwargs_list, index_lens_model_list[band_index]
+        )
         lens_model_list_i = [
             lens_model_list[k] for k in index_lens_model_list[band_index]
         ]
@@ -176,7 +180,7 @@ def create_class_instances(
         cosmology_sampling=cosmology_sampling,
         cosmology_model=cosmology_model,
         observed_convention_index=observed_convention_index_i,
-        profile_kwargs_list=lens_profile_kwargs_list,
+        profile_kwargs_list=lens_profile_kwargs_list_i,
         decouple_multi_plane=decouple_multi_plane,
         kwargs_multiplane_model=kwargs_multiplane_model,
     )
@@ -187,11 +191,11 @@ def create_class_instances(
             z_lens=z_lens,
             z_source=z_source,
             z_source_convention=z_source_convention,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_i,
             multi_plane=multi_plane,
             cosmo=cosmo,
-            observed_convention_index=observed_convention_index,
-            profile_kwargs_list=lens_profile_kwargs_list,
+            observed_convention_index=observed_convention_index_i,
+            profile_kwargs_list=lens_profile_kwargs_list_i,
             decouple_multi_plane=decouple_multi_plane,
             kwargs_multiplane_model=kwargs_multiplane_model_point_source,
         )
@@ -202,7 +206,11 @@ def create_class_instances(
         source_light_model_list_i = source_light_model_list
         source_deflection_scaling_list_i = source_deflection_scaling_list
         source_redshift_list_i = source_redshift_list
+        source_light_profile_kwargs_list_i = source_light_profile_kwargs_list
     else:
+        source_light_profile_kwargs_list_i = _select_profile_kwargs(
+            source_light_profile_kwargs_list, index_source_light_model_list[band_index]
+        )
         source_light_model_list_i = [
             source_light_model_list[k]
             for k in index_source_light_model_list[band_index]
@@ -225,18 +233,22 @@ def create_class_instances(
         light_model_list=source_light_model_list_i,
         deflection_scaling_list=source_deflection_scaling_list_i,
         source_redshift_list=source_redshift_list_i,
-        profile_kwargs_list=source_light_profile_kwargs_list,
+        profile_kwargs_list=source_light_profile_kwargs_list_i,
     )
 
     if index_lens_light_model_list is None or all_models is True:
         lens_light_model_list_i = lens_light_model_list
+        lens_light_profile_kwargs_list_i = lens_light_profile_kwargs_list
     else:
+        lens_light_profile_kwargs_list_i = _select_profile_kwargs(
+            lens_light_profile_kwargs_list, index_lens_light_model_list[band_index]
+        )
         lens_light_model_list_i = [
             lens_light_model_list[k] for k in index_lens_light_model_list[band_index]
         ]
     lens_light_model_class = LightModel(
         light_model_list=lens_light_model_list_i,
-        profile_kwargs_list=lens_light_profile_kwargs_list,
+        profile_kwargs_list=lens_light_profile_kwargs_list_i,
     )
 
     point_source_model_list_i = point_source_model_list
@@ -296,11 +308,16 @@ def create_class_instances(
             optical_depth_model_list[k]
             for k in index_optical_depth_model_list[band_index]
         ]
+        optical_depth_profile_kwargs_list_i = _select_profile_kwargs(
+            optical_depth_profile_kwargs_list,
+            index_optical_depth_model_list[band_index],
+        )
     else:
         optical_depth_model_list_i = optical_depth_model_list
+        optical_depth_profile_kwargs_list_i = optical_depth_profile_kwargs_list
     extinction_class = DifferentialExtinction(
         optical_depth_model=optical_depth_model_list_i,
-        profile_kwargs_list=optical_depth_profile_kwargs_list,
+        profile_kwargs_list=optical_depth_profile_kwargs_list_i,
         tau0_index=tau0_index,
     )
     return (
@@ -312,6 +329,18 @@ def create_class_instances(
     )
 
 
+def _select_profile_kwargs(profile_kwargs_list, index_list):
+    """Profile keyword arguments of the models selected for a band.
+
+    :param profile_kwargs_list: list of dicts for all models, or None
+    :param index_list: list of integers of the models being selected
+    :return: list of dicts of the selected models, or None
+    """
+    if profile_kwargs_list is None:
+        return None
+    return [profile_kwargs_list[k] for k in index_list]
+
+
 @export
 def create_image_model(
     kwargs_data, kwargs_psf, kwargs_numerics, kwargs_model, image_likelihood_mask=None
-- 
2.43.0


From 4102f7d63715e46407fbe09b32ab5bb1b5ac5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:27 +0000
Subject: [PATCH 036/134] fix: sources that share a redshift in front of the
 lens model's source redshift are ray-traced to their own plane

---
 lenstronomy/ImSim/image2source_mapping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 19f93a8..7d5a146 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -87,8 +87,9 @@ class Image2SourceMapping(object):
                         "the one specified in the lens model."
                     )
 
-            # turn off multi source plane if all sources are at the same redshift
-            if len(list(set(self._source_redshift_list))) == 1:
+            # turn off multi source plane if all sources are at the source redshift of
+            # the lens model
+            if set(self._source_redshift_list) == {self._lens_model.z_source}:
                 self._multi_source_plane = False
                 self._sorted_source_redshift_index = [0]
             else:
-- 
2.43.0


From acf3ea2df4011ea08b22fd50172b88b34cda3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:27 +0000
Subject: [PATCH 037/134] fix: create_tracer_model passes tracer_type on to the
 tracer model

---
 lenstronomy/Util/class_creator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index 6791cfd..919f5d6 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -491,5 +491,6 @@ def create_tracer_model(tracer_data, kwargs_model, tracer_likelihood_mask=None):
         psf_error_map_bool_list=None,
         kwargs_pixelbased=None,
         tracer_partition=tracer_partition,
+        tracer_type=kwargs_model.get("tracer_type", "LINEAR"),
     )
     return tracer_model
-- 
2.43.0


From 4897d025fab8035722dff20b5b2cbab0300396c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 038/134] fix: image displacements of a single point source
 model are those of its own images

---
 lenstronomy/ImSim/image_model.py | 39 ++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index fe32899..4f11f30 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -575,7 +575,11 @@ class ImageModel(object):
             kwargs_ps, kwargs_lens=kwargs_lens, k=k
         )
         ra_pos, dec_pos = self._displace_astrometry(
-            ra_pos, dec_pos, kwargs_special=kwargs_special
+            ra_pos,
+            dec_pos,
+            kwargs_special=self._select_displacements(
+                kwargs_special, kwargs_ps, kwargs_lens, k
+            ),
         )
 
         # Scale point source amplitude (amp) by the primary beam response, if applicable.
@@ -831,7 +835,11 @@ class ImageModel(object):
                     )
                     if len(ra_pos) > 0:
                         ra_pos, dec_pos = self._displace_astrometry(
-                            ra_pos, dec_pos, kwargs_special=kwargs_special
+                            ra_pos,
+                            dec_pos,
+                            kwargs_special=self._select_displacements(
+                                kwargs_special, kwargs_ps, kwargs_lens, k
+                            ),
                         )
                         error_map += self.ImageNumerics.psf_variance_map(
                             ra_pos,
@@ -842,6 +850,33 @@ class ImageModel(object):
                         )
         return error_map
 
+    def _select_displacements(self, kwargs_special, kwargs_ps, kwargs_lens, k):
+        """Selects the image displacements of the k-th point source model.
+
+        :param kwargs_special: keyword arguments, can contain 'delta_x_image' and
+            'delta_y_image', in order of the images of all point source models
+        :param kwargs_ps: point source keyword arguments
+        :param kwargs_lens: lens model keyword arguments
+        :param k: index of the point source model, or None for all of them
+        :return: kwargs_special with the displacements of the k-th point source model
+        """
+        if k is None or kwargs_special is None or "delta_x_image" not in kwargs_special:
+            return kwargs_special
+        num_images = [
+            len(
+                self.PointSource.point_source_list(
+                    kwargs_ps, kwargs_lens=kwargs_lens, k=i, with_amp=False
+                )[0]
+            )
+            for i in range(k + 1)
+        ]
+        start, stop = sum(num_images[:k]), sum(num_images)
+        return {
+            **kwargs_special,
+            "delta_x_image": kwargs_special["delta_x_image"][start:stop],
+            "delta_y_image": kwargs_special["delta_y_image"][start:stop],
+        }
+
     @staticmethod
     def _displace_astrometry(x_pos, y_pos, kwargs_special=None):
         """Displaces point sources by shifts specified in kwargs_special.
-- 
2.43.0


From 3b0da5d72e7ec14331310dab023d00d2793309cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 039/134] fix: degrading a kernel by an odd factor when its
 size exceeds an odd multiple of the factor

Rounding down cut the frame below the size of the kernel (e.g. 7 pixels, factor 5)
and the assignment raised.
---
 lenstronomy/Util/kernel_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 98c76d4..2c15777 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -440,7 +440,7 @@ def degrade_kernel(kernel_super, degrading_factor):
 def averaging_odd_kernel(kernel_super, degrading_factor):
     """"""
     n_kernel = len(kernel_super)
-    num_pix = int(round(n_kernel / degrading_factor))
+    num_pix = int(np.ceil(n_kernel / degrading_factor))
     if num_pix % 2 == 0:
         num_pix += 1
     n_high = num_pix * degrading_factor
-- 
2.43.0


From 191e7e99d39c0bad193b49fa3b685cf7a16ddb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 040/134] fix: kernel_norm does not modify the kernel it is
 given

PSF.kernel_point_source_supersampled normalised the PSF's own kernel to one
with kernel_point_source_normalisation=False.
---
 lenstronomy/Util/kernel_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 2c15777..eab680c 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -128,8 +128,7 @@ def kernel_norm(kernel):
     :return: normalisation of the psf kernel
     """
     norm = np.sum(np.array(kernel))
-    kernel /= norm
-    return kernel
+    return kernel / norm
 
 
 @export
-- 
2.43.0


From b236b8f4ccbabfbbdd4fc00d626b72dcc821a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 041/134] fix: subgrid_kernel with an even factor keeps the
 flux of the kernel and supports odd=False

---
 lenstronomy/Util/kernel_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index eab680c..6de3417 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -174,7 +174,7 @@ def subgrid_kernel(kernel, subgrid_res, odd=False, num_iter=100):
     kernel_subgrid = kernel_norm(kernel_subgrid)
     for i in range(max(num_iter, 1)):
         # given a proposition, re-size it to original pixel size
-        if subgrid_res % 2 == 0:
+        if nx_new != nx * subgrid_res:
             kernel_pixel = averaging_even_kernel(kernel_subgrid, subgrid_res)
         else:
             kernel_pixel = util.averaging(kernel_subgrid, num_grid=nx_new, num_pix=nx)
@@ -192,7 +192,7 @@ def subgrid_kernel(kernel, subgrid_res, odd=False, num_iter=100):
     # print(np.shape(kernel_subgrid))
     # whatever has not been matched is added to zeroth order (in squares of the undersampled PSF)
     if subgrid_res % 2 == 0:
-        return kernel_subgrid
+        return kernel_subgrid * norm_kernel
     kernel_pixel = util.averaging(kernel_subgrid, num_grid=nx_new, num_pix=nx)
     kernel_pixel = kernel_norm(kernel_pixel)
     delta_kernel = kernel_pixel - kernel_norm(kernel)
-- 
2.43.0


From bc3dd7f98fe4e583fbb53515ab9d1dfb657def6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 042/134] fix: the initial super-sampled PSF kernel is returned
 normalised after another super-sampling was cached

---
 lenstronomy/Data/psf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 6602610..4045c1d 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -98,6 +98,8 @@ class PSF(object):
                     "an interferometric array."
                 )
             self._kernel_point_source = kernel_point_source_
+            if point_source_supersampling_factor > 1:
+                self._kernel_point_source_init = self._kernel_point_source_supersampled
 
         elif self.psf_type == "NONE":
             self._kernel_point_source = np.zeros((3, 3))
-- 
2.43.0


From e10d6126711f87a1871b59c79dd14f4e3b2958f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 043/134] fix: changing the pixel size of a Gaussian PSF also
 discards its cached pixel and super-sampled kernels

---
 lenstronomy/Data/psf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 4045c1d..6d1c075 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -247,10 +247,12 @@ class PSF(object):
         """
         self._pixel_size = delta_pix
         if self.psf_type == "GAUSSIAN":
-            try:
-                del self._kernel_point_source
-            except:
-                pass
+            for name in [
+                "_kernel_point_source",
+                "_kernel_pixel",
+                "_kernel_point_source_supersampled",
+            ]:
+                self.__dict__.pop(name, None)
 
     @property
     def psf_variance_map(self):
-- 
2.43.0


From fe5c76a383285ffbc4acd17e24839fc3f251ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 044/134] fix: PSF variance map with a Gaussian PSF

---
 lenstronomy/Data/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 6d1c075..82c4621 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -117,7 +117,7 @@ class PSF(object):
                         "psf_variance_map has the same size as the super-sampled kernel. Make sure the units in the"
                         "psf_variance_map are on the down-sampled pixel scale."
                     )
-            if kernel_point_source_normalisation is True:
+            if kernel_point_source_normalisation is True and self.psf_type == "PIXEL":
                 self._psf_variance_map /= np.sum(np.array(kernel_point_source)) ** 2
             self.psf_variance_map_bool = True
         else:
-- 
2.43.0


From cb86a4d34f13539c63d4abc0e92cf50505864ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 045/134] fix: rebin_image of images whose size is not close to
 a multiple of the bin size

---
 lenstronomy/Util/image_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/image_util.py b/lenstronomy/Util/image_util.py
index 1983e27..56387ec 100644
--- a/lenstronomy/Util/image_util.py
+++ b/lenstronomy/Util/image_util.py
@@ -245,7 +245,7 @@ def rebin_image(bin_size, image, wht_map, sigma_bkg, ra_coords, dec_coords, idex
     """
     num_pix = int(len(image) / bin_size)
     num_pix_precut = num_pix * bin_size
-    factor = int(len(image) / num_pix)
+    factor = int(bin_size)
     if not num_pix * bin_size == len(image):
         image_precut = image[0:num_pix_precut, 0:num_pix_precut]
     else:
-- 
2.43.0


From df9d975a21601e9480bd2436b25f9d7e70559288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:10 +0000
Subject: [PATCH 046/134] fix: static FFT convolution of an image of another
 shape than the first one

---
 lenstronomy/ImSim/Numerics/convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/convolution.py b/lenstronomy/ImSim/Numerics/convolution.py
index 1dc27ef..6974770 100644
--- a/lenstronomy/ImSim/Numerics/convolution.py
+++ b/lenstronomy/ImSim/Numerics/convolution.py
@@ -81,7 +81,7 @@ class PixelKernelConvolution(object):
         """
         in1 = image
         in1 = np.asarray(in1)
-        if self._pre_computed is False:
+        if self._pre_computed is False or tuple(self._s1) != in1.shape:
             (
                 self._s1,
                 self._s2,
-- 
2.43.0


From f81f42ea0f8cbe39fc57aebf8c944affa6e44e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:21 +0000
Subject: [PATCH 047/134] fix: adaptive convolution with a super-sampled kernel
 smaller than the cut

With an even super-sampling factor and the default (full) size of the
super-sampled kernel the cut was always larger than the kernel and raised.
---
 lenstronomy/ImSim/Numerics/adaptive_numerics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/Numerics/adaptive_numerics.py b/lenstronomy/ImSim/Numerics/adaptive_numerics.py
index 0d4b878..0ee8f29 100644
--- a/lenstronomy/ImSim/Numerics/adaptive_numerics.py
+++ b/lenstronomy/ImSim/Numerics/adaptive_numerics.py
@@ -56,6 +56,7 @@ class AdaptiveConvolution(object):
         n_cut_super = supersampling_kernel_size * supersampling_factor
         if n_cut_super % 2 == 0:
             n_cut_super += 1
+        n_cut_super = min(n_cut_super, len(kernel_super))
         kernel_super_cut = image_util.cut_edges(kernel_super, n_cut_super)
         kernel_cut = kernel_util.degrade_kernel(
             kernel_super_cut, degrading_factor=supersampling_factor
-- 
2.43.0


From 99fe37d3cb65e9aab00be8a38a7af84657aab9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:21 +0000
Subject: [PATCH 048/134] fix: the empty PSF variance map of a Gaussian PSF
 follows a change of pixel size

---
 lenstronomy/Data/psf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 82c4621..0614eb2 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -253,6 +253,8 @@ class PSF(object):
                 "_kernel_point_source_supersampled",
             ]:
                 self.__dict__.pop(name, None)
+            if not self.psf_variance_map_bool:
+                self.__dict__.pop("_psf_variance_map", None)
 
     @property
     def psf_variance_map(self):
-- 
2.43.0


From 1b5851435540351487ac115740519c5350792195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:04 +0000
Subject: [PATCH 049/134] fix: NFWParam.c_rho0 uses the requested redshift and
 not the one of the first call

---
 lenstronomy/Cosmo/nfw_param.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Cosmo/nfw_param.py b/lenstronomy/Cosmo/nfw_param.py
index 598971d..de32c2c 100644
--- a/lenstronomy/Cosmo/nfw_param.py
+++ b/lenstronomy/Cosmo/nfw_param.py
@@ -102,10 +102,11 @@ class NFWParam(object):
         :return: concentration parameter c
         :rtype: float
         """
-        if not hasattr(self, "_c_rho0_interp"):
+        if not hasattr(self, "_c_rho0_interp") or self._c_rho0_z != z:
             c_array = np.linspace(0.1, 30, 100)
             rho0_array = self.rho0_c(c_array, z)
 
+            self._c_rho0_z = z
             self._c_rho0_interp = interpolate.InterpolatedUnivariateSpline(
                 rho0_array, c_array, w=None, bbox=[None, None], k=3
             )
-- 
2.43.0


From ebc9bef45c6dbd01773be4016a26a66785540486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:04 +0000
Subject: [PATCH 050/134] fix: GNFWParam.c_rho0 uses the requested redshift and
 not the one of the first call

---
 lenstronomy/Cosmo/gnfw_param.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Cosmo/gnfw_param.py b/lenstronomy/Cosmo/gnfw_param.py
index e93b232..4107370 100644
--- a/lenstronomy/Cosmo/gnfw_param.py
+++ b/lenstronomy/Cosmo/gnfw_param.py
@@ -130,7 +130,11 @@ class GNFWParam(object):
         :rtype: float
         """
         c_array = np.linspace(0.1, 30, 100)
-        if not hasattr(self, "_rho0_c_gamma_in_interps"):
+        if (
+            not hasattr(self, "_rho0_c_gamma_in_interps")
+            or self._rho0_c_gamma_in_z != z
+        ):
+            self._rho0_c_gamma_in_z = z
             gamma_in_array = np.linspace(0.1, 2.99, 100)
             self._rho0_c_gamma_in_interps = []
 
-- 
2.43.0


From 0776527c85ca7fa66f2ff52b4a4e3afbb178f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:29 +0000
Subject: [PATCH 051/134] fix: particles of the swarm remember the best
 position they visited

---
 lenstronomy/Sampling/Samplers/pso.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Samplers/pso.py b/lenstronomy/Sampling/Samplers/pso.py
index ff1d1ec..8fdf544 100644
--- a/lenstronomy/Sampling/Samplers/pso.py
+++ b/lenstronomy/Sampling/Samplers/pso.py
@@ -144,7 +144,10 @@ class ParticleSwarmOptimizer(object):
                     # print("new global best found %i %s"%(i,
                     # self.global_best.__str__()))
 
-                if particle.fitness > particle.personal_best.fitness:
+                if (
+                    particle._personal_best is None
+                    or particle.fitness > particle.personal_best.fitness
+                ):
                     particle.update_personal_best()
 
             if i >= max_iter:
-- 
2.43.0


From a2b49ef596396a3f869648d0808ac433c973d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:29 +0000
Subject: [PATCH 052/134] fix: KDE priors on special and extinction parameters
 enter the likelihood

---
 .../Sampling/Likelihoods/prior_likelihood.py  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
index 02203b9..d5abcac 100644
--- a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
@@ -73,7 +73,17 @@ class PriorLikelihood(object):
             self._prior_source_kde,
             self._prior_lens_light_kde,
             self._prior_ps_kde,
-        ) = (prior_lens_kde, prior_source_kde, prior_lens_light_kde, prior_ps_kde)
+            self._prior_extinction_kde,
+        ) = (
+            prior_lens_kde,
+            prior_source_kde,
+            prior_lens_light_kde,
+            prior_ps_kde,
+            prior_extinction_kde,
+        )
+        if prior_special_kde is not None:
+            prior_special_kde = [[0, name, values] for name, values in prior_special_kde]
+        self._prior_special_kde = prior_special_kde
         (
             self._prior_lens_lognormal,
             self._prior_source_lognormal,
@@ -94,7 +104,8 @@ class PriorLikelihood(object):
         self._kde_source_list = self._init_kde(prior_source_kde)
         self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
         self._kde_ps_list = self._init_kde(prior_ps_kde)
-        self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
+        self._kde_extinction_list = self._init_kde(prior_extinction_kde)
+        self._kde_special_list = self._init_kde(prior_special_kde)
 
     @staticmethod
     def _init_kde(prior_list_kde):
@@ -161,6 +172,12 @@ class PriorLikelihood(object):
             kwargs_lens_light, self._prior_lens_light_kde, self._kde_lens_light_list
         )
         logL += self._prior_kde_list(kwargs_ps, self._prior_ps_kde, self._kde_ps_list)
+        logL += self._prior_kde_list(
+            kwargs_extinction, self._prior_extinction_kde, self._kde_extinction_list
+        )
+        logL += self._prior_kde_list(
+            [kwargs_special], self._prior_special_kde, self._kde_special_list
+        )
         return logL
 
     @staticmethod
-- 
2.43.0


From 7408a2a05bd109503fdb710950f287e585572e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:29 +0000
Subject: [PATCH 053/134] fix: a sampler run with MPI evaluates its own
 likelihood when several samplers exist

---
 lenstronomy/Sampling/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Sampling/sampler.py b/lenstronomy/Sampling/sampler.py
index dc0f220..3e0db6f 100644
--- a/lenstronomy/Sampling/sampler.py
+++ b/lenstronomy/Sampling/sampler.py
@@ -37,6 +37,7 @@ class Sampler(object):
     def _pool_and_logl(self, mpi, threadCount):
         """Build a pool and return the corresponding worker-safe logL callable."""
         if mpi:
+            set_sampler_likelihood_module(self.chain)
             pool = choose_pool(mpi=mpi, processes=threadCount)
             return pool, sampler_logl_worker
 
-- 
2.43.0


From 9ec370a01b6be68edd833db2efe55542d5f0d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 054/134] fix: setting a parameter value leaves the initial
 values untouched

The current state is the initial state (the user's dictionaries) until a
sampler ran; writing into it in place made 'restart' return to the changed
values and changed kwargs_params of the caller.
---
 lenstronomy/Workflow/update_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index bedbf0e..7fed1fc 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -443,6 +443,8 @@ class UpdateManager(object):
             lens_light = []
         if ps is None:
             ps = []
+        # the state may be shared with the initial values, so change a copy of it
+        self._kwargs_temp = copy.deepcopy(self._kwargs_temp)
         for items, kwargs_key in zip(
             [lens, source, lens_light, ps],
             ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps"],
-- 
2.43.0


From aa43bc667d53ee72d44155b020aa7029ead40e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 055/134] fix: fixing and releasing parameters leaves the
 caller's kwargs_params untouched

---
 lenstronomy/Workflow/update_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index 7fed1fc..caca836 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -739,7 +739,7 @@ class UpdateManager(object):
         """
         if add_fixed is None:
             add_fixed = []
-        # fixed_kwargs = copy.deepcopy(kwargs_fixed)
+        kwargs_fixed = copy.deepcopy(kwargs_fixed)
         for i in range(len(add_fixed)):
             i_model = add_fixed[i][0]
             fix_names = add_fixed[i][1]
@@ -767,6 +767,7 @@ class UpdateManager(object):
         """
         if remove_fixed is None:
             remove_fixed = []
+        kwargs_fixed = copy.deepcopy(kwargs_fixed)
         for i in range(len(remove_fixed)):
             i_model = remove_fixed[i][0]
             fix_names = remove_fixed[i][1]
-- 
2.43.0


From 5c305fe7dc3189128003c99fa038d20b06991624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 056/134] fix: fixing the lens models of a frame does not alias
 the parameter state

---
 lenstronomy/Workflow/multi_band_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/multi_band_manager.py b/lenstronomy/Workflow/multi_band_manager.py
index f51bfa8..78263ea 100644
--- a/lenstronomy/Workflow/multi_band_manager.py
+++ b/lenstronomy/Workflow/multi_band_manager.py
@@ -64,10 +64,13 @@ class MultiBandUpdateManager(UpdateManager):
         :param frame_list_fixed: list of indexes of frames whose lens models to be fixed
         :return: updated fixed lens model parameter in the FittingSequence()
         """
+        self._lens_fixed = list(self._lens_fixed)
         for j in frame_list_fixed:
             if self._index_lens_model_list[j] is not None:
                 for i in self._index_lens_model_list[j]:
-                    self._lens_fixed[i] = self._kwargs_temp["kwargs_lens"][i]
+                    self._lens_fixed[i] = copy.deepcopy(
+                        self._kwargs_temp["kwargs_lens"][i]
+                    )
 
     def undo_frame_fixed(self, frame_list):
         """
@@ -76,6 +79,7 @@ class MultiBandUpdateManager(UpdateManager):
             parameters in the class creation
         :return: updated fixed lens model parameter in the FittingSequence()
         """
+        self._lens_fixed = list(self._lens_fixed)
         for j in frame_list:
             if self._index_lens_model_list[j] is not None:
                 for i in self._index_lens_model_list[j]:
-- 
2.43.0


From 53d6d45c47e7f5e31943ebb8317e634c10a3e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 057/134] fix: updating options of a fitting sequence leaves
 the caller's options untouched

and returns the updated options as documented.
---
 lenstronomy/Workflow/update_manager.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index caca836..0b7c78b 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -551,15 +551,11 @@ class UpdateManager(object):
         if kwargs_constraints is None:
             kwargs_constraints = {}
         if kwargs_likelihood is None:
-            kwargs_likelihood = []
-        kwargs_model_updated = self.kwargs_model.update(kwargs_model)
-        kwargs_constraints_updated = self.kwargs_constraints.update(kwargs_constraints)
-        kwargs_likelihood_updated = self.kwargs_likelihood.update(kwargs_likelihood)
-        return (
-            kwargs_model_updated,
-            kwargs_constraints_updated,
-            kwargs_likelihood_updated,
-        )
+            kwargs_likelihood = {}
+        self.kwargs_model = {**self.kwargs_model, **kwargs_model}
+        self.kwargs_constraints = {**self.kwargs_constraints, **kwargs_constraints}
+        self.kwargs_likelihood = {**self.kwargs_likelihood, **kwargs_likelihood}
+        return self.kwargs_model, self.kwargs_constraints, self.kwargs_likelihood
 
     def update_limits(
         self,
-- 
2.43.0


From 002c7741df265c5f6d7e14c9a1a77ab6f142bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 058/134] fix: a fitting list can be used again without reusing
 outdated MCMC samples

---
 lenstronomy/Workflow/fitting_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 1c73575..b20e295 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -143,6 +143,7 @@ class FittingSequence(object):
                 if fitting_type == "MCMC":
                     print("MCMC selected. Sampling with default option emcee.")
                     fitting_type = "emcee"
+                kwargs = dict(kwargs)  # do not change the fitting_list of the caller
                 if "init_samples" not in kwargs:
                     kwargs["init_samples"] = self._mcmc_init_samples
                 elif kwargs["init_samples"] is None:
-- 
2.43.0


From 3c0958ef0cdef759cb575adefc8bb89a6ffb1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 059/134] fix: a flux calibration enters the likelihood of the
 fitting sequence

The calibrated bands were stored as a separate list that the likelihood
(kwargs_data_joint) never saw; later PSF iterations and alignments were lost
for the likelihood as well.
---
 lenstronomy/Workflow/fitting_sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index b20e295..24fbccc 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -744,7 +744,8 @@ class FittingSequence(object):
             scaling_lower_limit=scaling_lower_limit,
             scaling_upper_limit=scaling_upper_limit,
         )
-        self.multi_band_list = multi_band_list
+        for i, band in enumerate(multi_band_list):
+            self.multi_band_list[i][0] = band[0]
         return 0
 
     def update_settings(
-- 
2.43.0


From edb6e8684423772970f41158a4dd0dc416c181f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 060/134] fix: the Cobaya sampler updates the best-fit state as
 the other samplers do

---
 lenstronomy/Workflow/fitting_sequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 24fbccc..b5b6dd0 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -172,6 +172,7 @@ class FittingSequence(object):
                 mh_output = [updated_info, sampler_type, best_fit_kwargs]
                 # append the products to the chain list
                 chain_list.append(mh_output)
+                self._updateManager.update_param_state(**best_fit_kwargs)
 
             elif fitting_type in [
                 "dynesty",
-- 
2.43.0


From d6b7e3135b839971ec044e74632af6b4a7780455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:32 +0000
Subject: [PATCH 061/134] fix: configuring an observation leaves the defaults
 of its instrument untouched

The options were written into the module-level band settings, so that e.g.
ZTF(coadd_years=1) changed every ZTF() created afterwards.
---
 lenstronomy/SimulationAPI/ObservationConfig/DES.py | 10 +++++-----
 lenstronomy/SimulationAPI/ObservationConfig/HST.py |  4 ++--
 .../SimulationAPI/ObservationConfig/JWST.py        | 12 ++++++------
 .../SimulationAPI/ObservationConfig/Roman.py       | 14 +++++++-------
 lenstronomy/SimulationAPI/ObservationConfig/ZTF.py |  6 +++---
 5 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/lenstronomy/SimulationAPI/ObservationConfig/DES.py b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
index 6437d68..341c61c 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/DES.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
@@ -74,15 +74,15 @@ class DES(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-6.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = g_band_obs.copy()
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = r_band_obs.copy()
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = i_band_obs.copy()
         elif band == "z":
-            self.obs = z_band_obs
+            self.obs = z_band_obs.copy()
         elif band == "Y":
-            self.obs = Y_band_obs
+            self.obs = Y_band_obs.copy()
         else:
             raise ValueError(
                 "band %s not supported! Choose 'g', 'r', 'i', 'z', or 'Y'." % band
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/HST.py b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
index 05d3857..2003675 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/HST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
@@ -52,9 +52,9 @@ class HST(object):
         """
 
         if band == "TDLMC_F160W":
-            self.obs = TDLMC_F160W_band_obs
+            self.obs = TDLMC_F160W_band_obs.copy()
         elif band == "WFC3_F160W" or band == "F160W":
-            self.obs = WFC3_F160W_band_obs
+            self.obs = WFC3_F160W_band_obs.copy()
 
         else:
             raise ValueError(
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
index fb83894..9918509 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
@@ -86,22 +86,22 @@ class JWST(object):
         """
 
         if band == "F200W":
-            self.obs = NIRCAM_F200W_band_obs
+            self.obs = NIRCAM_F200W_band_obs.copy()
             self.arm = "short"
         elif band == "F356W":
-            self.obs = NIRCAM_F356W_band_obs
+            self.obs = NIRCAM_F356W_band_obs.copy()
             self.arm = "long"
         elif band == "F115W":
-            self.obs = NIRCAM_F115W_band_obs
+            self.obs = NIRCAM_F115W_band_obs.copy()
             self.arm = "short"
         elif band == "F150W":
-            self.obs = NIRCAM_F150W_band_obs
+            self.obs = NIRCAM_F150W_band_obs.copy()
             self.arm = "short"
         elif band == "F277W":
-            self.obs = NIRCAM_F277W_band_obs
+            self.obs = NIRCAM_F277W_band_obs.copy()
             self.arm = "long"
         elif band == "F444W":
-            self.obs = NIRCAM_F444W_band_obs
+            self.obs = NIRCAM_F444W_band_obs.copy()
             self.arm = "long"
         else:
             raise ValueError("band %s not supported!" % band)
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
index 765d9d6..d1fa58f 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
@@ -78,19 +78,19 @@ class Roman(object):
         """
 
         if band == "F062":
-            self.obs = F062_band_obs
+            self.obs = F062_band_obs.copy()
         elif band == "F087":
-            self.obs = F087_band_obs
+            self.obs = F087_band_obs.copy()
         elif band == "F106":
-            self.obs = F106_band_obs
+            self.obs = F106_band_obs.copy()
         elif band == "F129":
-            self.obs = F129_band_obs
+            self.obs = F129_band_obs.copy()
         elif band == "F158":
-            self.obs = F158_band_obs
+            self.obs = F158_band_obs.copy()
         elif band == "F184":
-            self.obs = F184_band_obs
+            self.obs = F184_band_obs.copy()
         elif band == "F146":
-            self.obs = F146_band_obs
+            self.obs = F146_band_obs.copy()
         else:
             raise ValueError(
                 "band %s not supported! Choose 'F062', 'F087', 'F106', 'F129', 'F158' , 'F184' or 'F146'"
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
index 954125a..54d668c 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
@@ -70,11 +70,11 @@ class ZTF(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-3.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = g_band_obs.copy()
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = r_band_obs.copy()
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = i_band_obs.copy()
         else:
             raise ValueError("band %s not supported! Choose 'g', 'r', or 'i'." % band)
 
-- 
2.43.0


From c4b00f20904c8a16e2a497a4528a3bff0a2539f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:32 +0000
Subject: [PATCH 062/134] fix: apparent magnitudes follow the distance modulus
 5 log10(d / 10 pc)

---
 lenstronomy/Util/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/data_util.py b/lenstronomy/Util/data_util.py
index 77da0dd..628b0bf 100644
--- a/lenstronomy/Util/data_util.py
+++ b/lenstronomy/Util/data_util.py
@@ -80,7 +80,7 @@ def absolute2apparent_magnitude(absolute_magnitude, d_parsec):
     :param d_parsec: distance to object in units parsec
     :return: apparent magnitude
     """
-    m_apparent = 5.8 * (np.log10(d_parsec) - 1) + absolute_magnitude
+    m_apparent = 5.0 * (np.log10(d_parsec) - 1) + absolute_magnitude
     return m_apparent
 
 
-- 
2.43.0


From 19e5ce7498f90f72b7034db019b8d76d494dc1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:38 +0000
Subject: [PATCH 063/134] fix: magnitudes of multi-Gaussian profiles convert to
 amplitudes of all their components

The array of relative amplitudes was replaced by one number, on which the
profile cannot be evaluated.
---
 lenstronomy/SimulationAPI/mag_amp_conversion.py | 6 ++++++
 lenstronomy/SimulationAPI/sim_api.py            | 6 ++++++
 lenstronomy/Util/data_util.py                   | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/lenstronomy/SimulationAPI/mag_amp_conversion.py b/lenstronomy/SimulationAPI/mag_amp_conversion.py
index 823f781..1c90064 100644
--- a/lenstronomy/SimulationAPI/mag_amp_conversion.py
+++ b/lenstronomy/SimulationAPI/mag_amp_conversion.py
@@ -48,6 +48,9 @@ class MagAmpConversion(ModelAPI):
                     magnitude, magnitude_zero_point=self._magnitude_zero_point
                 )
                 amp = cps / cps_norm
+                if np.ndim(kwargs_new.get("amp", 0)) > 0:
+                    # relative amplitudes of a multi-component profile
+                    amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
                 kwargs_new["amp"] = amp
 
         kwargs_source = copy.deepcopy(kwargs_source_mag)
@@ -63,6 +66,9 @@ class MagAmpConversion(ModelAPI):
                     magnitude, magnitude_zero_point=self._magnitude_zero_point
                 )
                 amp = cps / cps_norm
+                if np.ndim(kwargs_new.get("amp", 0)) > 0:
+                    # relative amplitudes of a multi-component profile
+                    amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
                 kwargs_new["amp"] = amp
 
         kwargs_ps = copy.deepcopy(kwargs_ps_mag)
diff --git a/lenstronomy/SimulationAPI/sim_api.py b/lenstronomy/SimulationAPI/sim_api.py
index ba569e1..24db7a8 100644
--- a/lenstronomy/SimulationAPI/sim_api.py
+++ b/lenstronomy/SimulationAPI/sim_api.py
@@ -74,6 +74,9 @@ class SimAPI(DataAPI, ModelAPI):
                 magnitude = kwargs_mag["magnitude"]
                 cps = self.magnitude2cps(magnitude)
                 amp = cps / cps_norm
+                if np.ndim(kwargs_new.get("amp", 0)) > 0:
+                    # relative amplitudes of a multi-component profile
+                    amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
                 kwargs_new["amp"] = amp
 
         kwargs_source = copy.deepcopy(kwargs_source_mag)
@@ -87,6 +90,9 @@ class SimAPI(DataAPI, ModelAPI):
                 magnitude = kwargs_mag["magnitude"]
                 cps = self.magnitude2cps(magnitude)
                 amp = cps / cps_norm
+                if np.ndim(kwargs_new.get("amp", 0)) > 0:
+                    # relative amplitudes of a multi-component profile
+                    amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
                 kwargs_new["amp"] = amp
 
         kwargs_ps = copy.deepcopy(kwargs_ps_mag)
diff --git a/lenstronomy/Util/data_util.py b/lenstronomy/Util/data_util.py
index 628b0bf..cc5a330 100644
--- a/lenstronomy/Util/data_util.py
+++ b/lenstronomy/Util/data_util.py
@@ -127,5 +127,8 @@ def magnitude2amplitude(light_model_class, kwargs_light_mag, magnitude_zero_poin
             magnitude = kwargs_mag["magnitude"]
             cps = magnitude2cps(magnitude, magnitude_zero_point=magnitude_zero_point)
             amp = cps / cps_norm
+            if np.ndim(kwargs_new.get("amp", 0)) > 0:
+                # relative amplitudes of a multi-component profile
+                amp = amp * np.array(kwargs_new["amp"]) / np.sum(kwargs_new["amp"])
             kwargs_new["amp"] = amp
     return kwargs_light_amp
-- 
2.43.0


From bc1ef6a6df13b4c1136aaa84a902303898524b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:21 +0000
Subject: [PATCH 064/134] fix: SOURCE_POSITION image amplitudes do not modify
 the parameters passed in

---
 lenstronomy/PointSource/Types/source_position.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 4a82889..fcaa570 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -110,8 +110,7 @@ class SourcePositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         mag_pert = kwargs_ps.get("mag_pert", 1)
         mag_pert = _shrink_array(mag_pert, len(point_amp))
-        point_amp *= np.array(mag_pert)
-        return np.array(point_amp)
+        return np.array(point_amp) * np.array(mag_pert)
 
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
-- 
2.43.0


From ac981eef8a94fafee2821e3480a12af300225688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:21 +0000
Subject: [PATCH 065/134] fix: SOURCE_POSITION intrinsic amplitude uses the
 absolute magnification

---
 lenstronomy/PointSource/Types/source_position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index fcaa570..cbf83bd 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -129,5 +129,5 @@ class SourcePositions(PSBase):
             ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
-            source_amp = np.mean(np.array(point_amp) / np.array(mag))
+            source_amp = np.mean(np.array(point_amp) / np.array(np.abs(mag)))
         return np.array(source_amp)
-- 
2.43.0


From fceccc3ca5a236085fd1206920f91679b83058f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:21 +0000
Subject: [PATCH 066/134] fix: SOURCE_POSITION amplitudes pass on the lens
 equation solver settings

---
 lenstronomy/PointSource/Types/source_position.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index cbf83bd..aa6224b 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -94,13 +94,11 @@ class SourcePositions(PSBase):
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
             else:
-                if kwargs_lens_eqn_solver is None:
-                    kwargs_lens_eqn_solver = {}
                 ra_image, dec_image = self.image_position(
                     kwargs_ps,
                     kwargs_lens=kwargs_lens,
                     magnification_limit=magnification_limit,
-                    **kwargs_lens_eqn_solver
+                    kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
-- 
2.43.0


From e5e8d5e4e32214895ebc9c8d9a3845d7e33cf4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 067/134] fix: width_search_factor widens the search window of
 the lens equation solver

---
 lenstronomy/PointSource/point_source.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index dc06ee5..0a802c6 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -269,9 +269,7 @@ class PointSource(object):
         """
         x_image_list = []
         y_image_list = []
-        if width_search_factor != 1 and hasattr(
-            self._kwargs_lens_eqn_solver, "search_window"
-        ):
+        if width_search_factor != 1 and "search_window" in self._kwargs_lens_eqn_solver:
             kwargs_lens_eqn_solver = copy.deepcopy(self._kwargs_lens_eqn_solver)
             kwargs_lens_eqn_solver["search_window"] *= width_search_factor
         else:
-- 
2.43.0


From 385c8f109e06ab48b50e9ffb12df8640b773bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 068/134] fix: image amplitudes belong to the images above the
 magnification limit

---
 lenstronomy/PointSource/point_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 0a802c6..735037c 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -370,6 +370,7 @@ class PointSource(object):
                 image_amp = model.image_amplitude(
                     kwargs_ps=kwargs_ps[i],
                     kwargs_lens=kwargs_lens,
+                    magnification_limit=self._magnification_limit,
                     kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
                 )
                 if self._flux_from_point_source_list[i]:
-- 
2.43.0


From 7b78ffe614895b5eda479d90200419429f84b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 069/134] fix: linear point source response uses the redshift,
 frames and perturbations of each source

---
 lenstronomy/PointSource/point_source.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 735037c..c2c1c7f 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -422,14 +422,29 @@ class PointSource(object):
                     if with_amp:
                         mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
                     else:
-                        mag = self._lens_model.magnification(x_pos, y_pos, kwargs_lens)
-                        mag = np.abs(mag)
+                        # response of a source with unit amplitude
+                        mag = model.image_amplitude(
+                            kwargs_ps=dict(
+                                kwargs_ps[i],
+                                source_amp=1.0,
+                                point_amp=np.ones(len(x_pos)),
+                            ),
+                            kwargs_lens=kwargs_lens,
+                            magnification_limit=self._magnification_limit,
+                            kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
+                        )
                     amp.append(list(mag))
                 else:
                     if with_amp:
                         mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
                     else:
-                        mag = np.ones_like(x_pos)
+                        # response of images with unit amplitude
+                        mag = model.image_amplitude(
+                            kwargs_ps=dict(kwargs_ps[i], point_amp=np.ones(len(x_pos))),
+                            kwargs_lens=kwargs_lens,
+                            magnification_limit=self._magnification_limit,
+                            kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
+                        )
                     for j in range(len(x_pos)):
                         ra_pos.append([x_pos[j]])
                         dec_pos.append([y_pos[j]])
-- 
2.43.0


From ddfa31e45da77e8e8e4328f4b25b7069406e926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 070/134] fix: check of image positions uses the source
 redshift and lens frames of each point source

---
 lenstronomy/PointSource/point_source.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index c2c1c7f..c596baf 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -512,10 +512,20 @@ class PointSource(object):
             if model in ["LENSED_POSITION", "SOURCE_POSITION"]:
                 x_pos = x_image_list[i]
                 y_pos = y_image_list[i]
-                # TODO: ray-trace to specific source redshift
-                x_source, y_source = self._lens_model.ray_shooting(
-                    x_pos, y_pos, kwargs_lens
-                )
+                z_source = self._lens_model.z_source
+                self._lens_model.change_source_redshift(self._redshift_list[i])
+                k_list = self.k_list(i) if model == "LENSED_POSITION" else None
+                if k_list is None:
+                    x_source, y_source = self._lens_model.ray_shooting(
+                        x_pos, y_pos, kwargs_lens
+                    )
+                else:
+                    x_source, y_source = np.zeros(len(x_pos)), np.zeros(len(x_pos))
+                    for j in range(len(x_pos)):
+                        x_source[j], y_source[j] = self._lens_model.ray_shooting(
+                            x_pos[j], y_pos[j], kwargs_lens, k=k_list[j]
+                        )
+                self._lens_model.change_source_redshift(z_source)
                 dist = np.sqrt(
                     (x_source - x_source[0]) ** 2 + (y_source - y_source[0]) ** 2
                 )
-- 
2.43.0


From cc1b01502b036f9c81c8c7142c006fa0837cff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 071/134] fix: point source classes do not share one search
 window through their arguments

---
 lenstronomy/PointSource/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index c596baf..4fd261c 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -127,7 +127,7 @@ class PointSource(object):
                 )
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
-        self._kwargs_lens_eqn_solver = kwargs_lens_eqn_solver
+        self._kwargs_lens_eqn_solver = dict(kwargs_lens_eqn_solver)
         self._magnification_limit = magnification_limit
         self._save_cache = save_cache
 
-- 
2.43.0


From e68cac9d8e6806dbc290b40171370db1d2da26e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 072/134] fix: analytical lens equation solver with an
 off-centred convergence sheet

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index f0e2651..0563509 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -202,8 +202,8 @@ class LensEquationSolver(object):
                 1 - kappa
             )  # a mass sheet that compensates the convergence field
             # source position mapping
-            x_ = (x - ra0) / lambda_mst
-            y_ = (y - dec0) / lambda_mst
+            x_ = (x - kappa * ra0) / lambda_mst
+            y_ = (y - kappa * dec0) / lambda_mst
             # lens mapping
             # power-law scaling with mst
             # alpha = theta_E * (r2 / theta_E**2) ** (1 - gamma / 2.0)
-- 
2.43.0


From 76613366367fd2011f54b273f9b2d3e0dd664d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 073/134] fix: lens equation solver leaves the static mode when
 no candidate is found

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index 0563509..437044b 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -345,6 +345,7 @@ class LensEquationSolver(object):
                 "coordinates %s and %s " % (len(x_mins), x_mins, y_mins)
             )
         if len(x_mins) < 1:
+            self.lensModel.set_dynamic()
             return x_mins, y_mins
         if initial_guess_cut:
             mag = np.abs(self.lensModel.magnification(x_mins, y_mins, kwargs_lens))
-- 
2.43.0


From d964a0eddad240e55045fedd9cc3c50f383867d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 074/134] fix: non-linear lens equation solver meets the
 requested precision

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index 437044b..7874f26 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -503,7 +503,7 @@ class LensEquationSolver(object):
                 tol=precision_limit**2,
                 method="Nelder-Mead",
             )
-            delta = self._root(result.x, kwargs_lens, source_x, source_y)
+            delta = np.sqrt(self._root(result.x, kwargs_lens, source_x, source_y))
             x_guess, y_guess = result.x[0], result.x[1]
 
         else:
-- 
2.43.0


From a3882c22a272d4cc5d118bc590834988a90a09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:40 +0000
Subject: [PATCH 075/134] fix: point sources and likelihoods leave the source
 redshift of the lens model unchanged

---
 lenstronomy/PointSource/Types/lensed_position.py          | 8 ++++++++
 lenstronomy/PointSource/Types/source_position.py          | 6 ++++++
 lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py | 2 ++
 lenstronomy/Sampling/Likelihoods/position_likelihood.py   | 3 +++
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 ++
 5 files changed, 21 insertions(+)

diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 0561e44..356da5f 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -51,6 +51,7 @@ class LensedPositions(PSBase):
                 kwargs_lens_eqn_solver = {}
             ra_source, dec_source = self.source_position(kwargs_ps, kwargs_lens)
             # TODO: this solver does not distinguish between different frames/bands with partial lens models
+            z_source = self._lens_model.z_source
             self._solver.change_source_redshift(self._redshift)
             ra_image, dec_image = self._solver.image_position_from_source(
                 ra_source,
@@ -59,6 +60,7 @@ class LensedPositions(PSBase):
                 magnification_limit=magnification_limit,
                 **kwargs_lens_eqn_solver
             )
+            self._lens_model.change_source_redshift(z_source)
         else:
             ra_image = kwargs_ps["ra_image"]
             dec_image = kwargs_ps["dec_image"]
@@ -74,6 +76,7 @@ class LensedPositions(PSBase):
         """
         ra_image = kwargs_ps["ra_image"]
         dec_image = kwargs_ps["dec_image"]
+        z_source = self._lens_model.z_source
         self._lens_model.change_source_redshift(self._redshift)
 
         if self.k_list is None:
@@ -88,6 +91,7 @@ class LensedPositions(PSBase):
                 )
                 x_source.append(x)
                 y_source.append(y)
+        self._lens_model.change_source_redshift(z_source)
         x_source = np.mean(x_source)
         y_source = np.mean(y_source)
         return np.array(x_source), np.array(y_source)
@@ -116,6 +120,7 @@ class LensedPositions(PSBase):
             details
         :return: array of image amplitudes
         """
+        z_source = self._lens_model.z_source
         self._lens_model.change_source_redshift(self._redshift)
         if self._fixed_magnification:
             if x_pos is not None and y_pos is not None:
@@ -143,6 +148,7 @@ class LensedPositions(PSBase):
             point_amp = kwargs_ps["point_amp"]
             if x_pos is not None:
                 point_amp = _expand_to_array(point_amp, len(x_pos))
+        self._lens_model.change_source_redshift(z_source)
         return np.array(point_amp)
 
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
@@ -158,6 +164,7 @@ class LensedPositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
+            z_source = self._lens_model.z_source
             self._lens_model.change_source_redshift(self._redshift)
             ra_image, dec_image = np.array(kwargs_ps["ra_image"]), np.array(
                 kwargs_ps["dec_image"]
@@ -172,6 +179,7 @@ class LensedPositions(PSBase):
                             ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
                         )
                     )
+            self._lens_model.change_source_redshift(z_source)
             point_amp = kwargs_ps["point_amp"]
             source_amp = np.mean(np.array(point_amp) / np.array(np.abs(mag)))
         return np.array(source_amp)
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index aa6224b..4880bc7 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -45,6 +45,7 @@ class SourcePositions(PSBase):
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
         ra_source, dec_source = self.source_position(kwargs_ps)
+        z_source = self._lens_model.z_source
         self._solver.change_source_redshift(self._redshift)
         ra_image, dec_image = self._solver.image_position_from_source(
             ra_source,
@@ -53,6 +54,7 @@ class SourcePositions(PSBase):
             magnification_limit=magnification_limit,
             **kwargs_lens_eqn_solver
         )
+        self._lens_model.change_source_redshift(z_source)
         return ra_image, dec_image
 
     def source_position(self, kwargs_ps, **kwargs):
@@ -90,6 +92,7 @@ class SourcePositions(PSBase):
         :return: array of image amplitudes
         """
         if self._fixed_magnification:
+            z_source = self._lens_model.z_source
             self._lens_model.change_source_redshift(self._redshift)
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
@@ -101,6 +104,7 @@ class SourcePositions(PSBase):
                     kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            self._lens_model.change_source_redshift(z_source)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
         else:
             point_amp = kwargs_ps["point_amp"]
@@ -123,9 +127,11 @@ class SourcePositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
+            z_source = self._lens_model.z_source
             self._lens_model.change_source_redshift(self._redshift)
             ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            self._lens_model.change_source_redshift(z_source)
             point_amp = kwargs_ps["point_amp"]
             source_amp = np.mean(np.array(point_amp) / np.array(np.abs(mag)))
         return np.array(source_amp)
diff --git a/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py b/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
index 81d4234..5e231f2 100644
--- a/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py
@@ -76,6 +76,7 @@ class FluxRatioLikelihood(object):
         for k in range(len(ra_image_list)):
             if self._flux_ratio_measurement_bool[k] is True:
                 x_pos, y_pos = ra_image_list[k], dec_image_list[k]
+                z_source = self._lens_model_class.z_source
                 self._lens_model_class.change_source_redshift(
                     z_source=self._point_source_redshift_list[k]
                 )
@@ -95,6 +96,7 @@ class FluxRatioLikelihood(object):
                         polar_grid=self._polar_grid,
                         aspect_ratio=self._aspect_ratio,
                     )
+                self._lens_model_class.change_source_redshift(z_source=z_source)
                 if len(mag) - 1 != len(self._flux_ratios[k]):
                     return -(10**15)
                 mag_ratio = mag[1:] / mag[0]
diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index 2588081..2eba96a 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -276,6 +276,7 @@ class PositionLikelihood(object):
             ):
                 x_image = kwargs_ps[k]["ra_image"]
                 y_image = kwargs_ps[k]["dec_image"]
+                z_source = self._lensModel.z_source
                 self._lensModel.change_source_redshift(redshift_list[k])
                 # calculating the individual source positions from the image positions
                 k_list = self._pointSource.k_list(k)
@@ -308,9 +309,11 @@ class PositionLikelihood(object):
                     try:
                         Sigma_inv = inv(Sigma_beta)
                     except:
+                        self._lensModel.change_source_redshift(z_source)
                         return -(10**15)
                     chi2 = delta.T.dot(Sigma_inv.dot(delta))
                     logL -= chi2 / 2
+                self._lensModel.change_source_redshift(z_source)
         return logL
 
     @property
diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 318828a..264b1f9 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -142,6 +142,7 @@ class TimeDelayLikelihood(object):
             mask = np.array(self._measurement_bool_list[i])
             if np.any(mask):
                 x_pos_, y_pos_ = x_pos[i], y_pos[i]
+                z_source = self._lensModel.z_source
                 self._lensModel.change_source_redshift(
                     z_source=self._pointSource._redshift_list[i]
                 )
@@ -156,6 +157,7 @@ class TimeDelayLikelihood(object):
                     D_dt_model = kwargs_cosmo["D_dt"]
                     Ddt_scaled = self._lensModel.ddt_scaling * D_dt_model
                     delay_days = const.delay_arcsec2days(delay_arcsec, Ddt_scaled)
+                self._lensModel.change_source_redshift(z_source=z_source)
                 delay_days *= lambda_mst
                 if self._bimodal_measurement:
                     logL1 = self._log_delay_masked(
-- 
2.43.0


From 52d3c0750de6286a6e21eca01a9eeba008f8c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:44 +0000
Subject: [PATCH 076/134] fix: intrinsic amplitudes use the solver settings and
 magnification limit of the point source

---
 .../PointSource/Types/lensed_position.py      |  2 +-
 .../PointSource/Types/source_position.py      | 21 +++++++++++++++++--
 lenstronomy/PointSource/point_source.py       |  5 ++++-
 .../PointSource/point_source_cached.py        | 21 +++++++++++++++++--
 4 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 356da5f..fb214f2 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -151,7 +151,7 @@ class LensedPositions(PSBase):
         self._lens_model.change_source_redshift(z_source)
         return np.array(point_amp)
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(self, kwargs_ps, kwargs_lens=None, **kwargs):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 4880bc7..f3296b5 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -114,7 +114,13 @@ class SourcePositions(PSBase):
         mag_pert = _shrink_array(mag_pert, len(point_amp))
         return np.array(point_amp) * np.array(mag_pert)
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(
+        self,
+        kwargs_ps,
+        kwargs_lens=None,
+        magnification_limit=None,
+        kwargs_lens_eqn_solver=None,
+    ):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
@@ -122,6 +128,12 @@ class SourcePositions(PSBase):
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), used when
             brightness are defined in magnified on-sky positions
+        :param magnification_limit: float >0 or None, if float is set, only those images
+            will be computed that exceed the lensing magnification (absolute value)
+            limit
+        :param kwargs_lens_eqn_solver: keyword arguments specifying the numerical
+            settings for the lens equation solver see LensEquationSolver() class for
+            details
         :return: brightness amplitude (as numpy array)
         """
         if self._fixed_magnification:
@@ -129,7 +141,12 @@ class SourcePositions(PSBase):
         else:
             z_source = self._lens_model.z_source
             self._lens_model.change_source_redshift(self._redshift)
-            ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
+            ra_image, dec_image = self.image_position(
+                kwargs_ps,
+                kwargs_lens,
+                magnification_limit=magnification_limit,
+                kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+            )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             self._lens_model.change_source_redshift(z_source)
             point_amp = kwargs_ps["point_amp"]
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 4fd261c..8b819c1 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -390,7 +390,10 @@ class PointSource(object):
         amp_list = []
         for i, model in enumerate(self._point_source_list):
             source_amp = model.source_amplitude(
-                kwargs_ps=kwargs_ps[i], kwargs_lens=kwargs_lens
+                kwargs_ps=kwargs_ps[i],
+                kwargs_lens=kwargs_lens,
+                magnification_limit=self._magnification_limit,
+                kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
             )
             if self._flux_from_point_source_list[i]:
                 amp_list.append(source_amp)
diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index 52a0e42..58c528e 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -133,12 +133,29 @@ class PointSourceCached(object):
             kwargs_ps, kwargs_lens=kwargs_lens, x_pos=x_pos, y_pos=y_pos
         )
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(
+        self,
+        kwargs_ps,
+        kwargs_lens=None,
+        magnification_limit=None,
+        kwargs_lens_eqn_solver=None,
+    ):
         """Intrinsic brightness amplitude of point source.
 
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), only used when
             positions are defined in image plane and have to be ray-traced back
+        :param magnification_limit: float >0 or None, if float is set, only those images
+            will be computed that exceed the lensing magnification (absolute value)
+            limit
+        :param kwargs_lens_eqn_solver: keyword arguments specifying the numerical
+            settings for the lens equation solver see LensEquationSolver() class for
+            details
         :return: brightness amplitude (as numpy array)
         """
-        return self._model.source_amplitude(kwargs_ps, kwargs_lens=kwargs_lens)
+        return self._model.source_amplitude(
+            kwargs_ps,
+            kwargs_lens=kwargs_lens,
+            magnification_limit=magnification_limit,
+            kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+        )
-- 
2.43.0


From 6fa63fd87745437f1216489a461540a19da9f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 077/134] fix: constant anisotropy in cylindrical alignment
 agrees with its derivative and the logistic form

---
 lenstronomy/GalKin/anisotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/GalKin/anisotropy.py b/lenstronomy/GalKin/anisotropy.py
index 7480676..e359e05 100644
--- a/lenstronomy/GalKin/anisotropy.py
+++ b/lenstronomy/GalKin/anisotropy.py
@@ -118,7 +118,7 @@ class Anisotropy(object):
                 def beta_fun(r, theta):
                     # angular variation
                     ratio = np.sqrt(1 - beta_const)
-                    beta = 1 - ratio ** (2 * np.cos(2 * theta))
+                    beta = 1 - ratio ** (-2 * np.cos(2 * theta))
                     beta_dtheta = (
                         -4
                         * np.log(ratio)
-- 
2.43.0


From 2fd3a09a6fdf03107f2855f9dd04edb70602a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 078/134] fix: inner hole of a rotated frame aperture is
 rotated with the frame

---
 lenstronomy/GalKin/aperture_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 5c508a5..f70c801 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -266,8 +266,9 @@ class Frame(ApertureBase):
             self._angle,
         )
         bins = np.zeros_like(x_grid, dtype=int)
-        mask_inner = (np.abs(x_grid - center_ra) < width_inner / 2) & (
-            np.abs(y_grid - center_dec) < width_inner / 2
+        x_frame, y_frame = _rotate(x_grid - center_ra, y_grid - center_dec, -angle)
+        mask_inner = (np.abs(x_frame) < width_inner / 2) & (
+            np.abs(y_frame) < width_inner / 2
         )
         bins[mask_inner] = -1
 
-- 
2.43.0


From 0b5b2a50a68e9c4dcfb055b3e283dd20da5d44eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 079/134] fix: bins of off-centred shell apertures are around
 their centre

---
 lenstronomy/GalKin/aperture_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index f70c801..9b3b109 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -346,7 +346,7 @@ class Shell(ApertureBase):
             self._center_ra,
             self._center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.zeros_like(x_grid, dtype=int)
         bins[r_grid < self._r_in] = -1
         bins[r_grid > self._r_out] = -1
@@ -516,7 +516,7 @@ class IFUShells(ApertureBase):
             center_ra,
             center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.ones_like(x_grid, dtype=int) * -1
         for i in range(len(r_bins) - 1):
             mask = (r_grid >= r_bins[i]) & (r_grid < r_bins[i + 1])
-- 
2.43.0


From c84b1cb1ed3caf75dce4815d03ff5b89e752411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 080/134] fix: IFU grids with decreasing coordinates select
 positions

---
 lenstronomy/GalKin/aperture_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 9b3b109..07faf89 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -472,8 +472,8 @@ def grid_ifu_select(ra, dec, x_grid, y_grid):
     :param y_grid: array of y_grid bins
     :return: boolean, True if within the grid range, False otherwise
     """
-    x_pixel_size = x_grid[0, 1] - x_grid[0, 0]
-    y_pixel_size = y_grid[1, 0] - y_grid[0, 0]
+    x_pixel_size = np.abs(x_grid[0, 1] - x_grid[0, 0])
+    y_pixel_size = np.abs(y_grid[1, 0] - y_grid[0, 0])
 
     for i in range(x_grid.shape[0]):
         for j in range(x_grid.shape[1]):
-- 
2.43.0


From b334c50692808457d2a4c1c8eaab3e12b69b2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 081/134] fix: rotated IFU apertures select positions in their
 rotated pixels

---
 lenstronomy/GalKin/aperture_types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 07faf89..e8bd92d 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -441,7 +441,9 @@ class IFUGrid(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, index of shell
         """
-        return grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        ra, dec = _rotate(ra, dec, -self._angle)
+        x_grid, y_grid = _rotate(self._x_grid, self._y_grid, -self._angle)
+        return grid_ifu_select(ra, dec, x_grid, y_grid)
 
     @property
     def num_segments(self):
@@ -603,7 +605,9 @@ class IFUBinned(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, and bin id
         """
-        in_grid, grid_loc = grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        ra, dec = _rotate(ra, dec, -self._angle)
+        x_grid, y_grid = _rotate(self._x_grid, self._y_grid, -self._angle)
+        in_grid, grid_loc = grid_ifu_select(ra, dec, x_grid, y_grid)
         if in_grid:
             bin_id = self.bins[grid_loc]
             if bin_id > -1:
-- 
2.43.0


From 1fd8e4185ba0dfbee8ae2b449f06762f20e895fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 082/134] fix: dispersion maps on rotated, shifted or
 decreasing IFU grids are computed at their pixels

---
 lenstronomy/GalKin/galkin.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 9352d0c..5ea4381 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -1,5 +1,6 @@
 from lenstronomy.GalKin.observation import GalkinObservation
 from lenstronomy.GalKin.galkin_model import GalkinModel
+from lenstronomy.GalKin.aperture_types import _rotate, make_supersampled_grid
 
 import numpy as np
 from scipy.signal import convolve2d
@@ -175,8 +176,9 @@ class Galkin(GalkinModel, GalkinObservation):
 
         :return: delta_x, delta_y
         """
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
+        x_grid, y_grid = _rotate(
+            self._aperture.x_grid, self._aperture.y_grid, -self._aperture._angle
+        )
         delta_x = x_grid[0, 1] - x_grid[0, 0]
         delta_y = y_grid[1, 0] - y_grid[0, 0]
 
@@ -192,23 +194,12 @@ class Galkin(GalkinModel, GalkinObservation):
         """
         mass_center_x, mass_center_y = self._extract_center(kwargs_mass)
 
-        delta_x, delta_y = self._delta_pix_xy()
-        assert np.abs(delta_x) == np.abs(delta_y)
-
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
-
-        new_delta_x = delta_x / supersampling_factor
-        new_delta_y = delta_y / supersampling_factor
-        x_start = x_grid[0, 0] - delta_x / 2.0 * (1 - 1 / supersampling_factor)
-        x_end = x_grid[0, -1] + delta_x / 2.0 * (1 - 1 / supersampling_factor)
-        y_start = y_grid[0, 0] - delta_y / 2.0 * (1 - 1 / supersampling_factor)
-        y_end = y_grid[-1, 0] + delta_y / 2.0 * (1 - 1 / supersampling_factor)
-
-        xs = np.arange(x_start, x_end * (1 + 1e-6), new_delta_x)
-        ys = np.arange(y_start, y_end * (1 + 1e-6), new_delta_y)
-
-        x_grid_supersampled, y_grid_supersmapled = np.meshgrid(xs, ys)
+        x_grid_supersampled, y_grid_supersmapled = make_supersampled_grid(
+            self._aperture.x_grid,
+            self._aperture.y_grid,
+            supersampling_factor,
+            angle=self._aperture._angle,
+        )
 
         log10_radial_distance_from_center = np.log10(
             np.sqrt(
-- 
2.43.0


From 6172078e10459034913cf583896ff3bef484d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 083/134] fix: dispersion maps on non-square IFU grids

---
 lenstronomy/GalKin/galkin.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 5ea4381..208f83b 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -286,9 +286,6 @@ class Galkin(GalkinModel, GalkinObservation):
             log10_radial_distance_from_center,
         ) = self._get_grid(kwargs_mass, supersampling_factor=supersampling_factor)
 
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
-
         mass_center_x, mass_center_y = self._extract_center(kwargs_mass)
         R_max = np.sqrt(
             (x_grid_supersmapled - mass_center_x) ** 2
@@ -354,16 +351,17 @@ class Galkin(GalkinModel, GalkinObservation):
                 )
                 IR_integrated[n] = np.sum(IR_convolved[supersampled_voronoi_bins == n])
         else:
+            num_y, num_x = self._aperture.x_grid.shape
             sigma_IR_integrated = (
                 sigma2_IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    num_y, supersampling_factor, num_x, supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
             )
             IR_integrated = (
                 IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    num_y, supersampling_factor, num_x, supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
-- 
2.43.0


From 518204d7376d2668f965be93482643600cd575b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 084/134] fix: dispersion maps on IFU grids do not reuse the
 interpolation of earlier parameters

---
 lenstronomy/GalKin/galkin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 208f83b..73b8eb2 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -368,6 +368,7 @@ class Galkin(GalkinModel, GalkinObservation):
             )
 
         sigma2_grid = sigma_IR_integrated / IR_integrated
+        self.numerics.delete_cache()
 
         # apply unit conversion from arc seconds and deflections to physical velocity
         # dispersion in (km/s)
-- 
2.43.0


From a97e2f276089861c95869ba031ad45d785c73bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 085/134] fix: analytic kinematics does not store the
 normalisation in the caller's parameters

---
 lenstronomy/GalKin/analytic_kinematics.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index ad46a12..91d8c6b 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -185,13 +185,11 @@ class AnalyticKinematics(Anisotropy):
         """
         a = self._get_hernquist_scale_radius(kwargs_light)
 
-        if "rho0_r0_gamma" not in kwargs_mass:
-            kwargs_mass["rho0_r0_gamma"] = self._rho0_r0_gamma(
-                kwargs_mass["theta_E"], kwargs_mass["gamma"]
-            )
-
         gamma = kwargs_mass["gamma"]
-        rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        if "rho0_r0_gamma" in kwargs_mass:
+            rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        else:
+            rho0_r0_gamma = self._rho0_r0_gamma(kwargs_mass["theta_E"], gamma)
         r_ani = kwargs_anisotropy["r_ani"]
 
         return a, gamma, rho0_r0_gamma, r_ani
-- 
2.43.0


From 8452b04d99e30d388e2eb1513a5ff77f4223b7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 086/134] fix: analytic kinematics forgets the light parameters
 when its cache is deleted

---
 lenstronomy/GalKin/analytic_kinematics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index 91d8c6b..91954af 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -362,3 +362,4 @@ class AnalyticKinematics(Anisotropy):
         """
         if hasattr(self, "_interp_sigma_r2"):
             del self._interp_sigma_r2
+        self.light_profile.delete_cache()
-- 
2.43.0


From 1c5179de6dd984b9b388c1326df55a42226d9059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 087/134] fix: dispersions of off-centred IFU shells are
 computed around their centre

---
 lenstronomy/GalKin/galkin_shells.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/galkin_shells.py b/lenstronomy/GalKin/galkin_shells.py
index dbafd61..4cf52dd 100644
--- a/lenstronomy/GalKin/galkin_shells.py
+++ b/lenstronomy/GalKin/galkin_shells.py
@@ -49,7 +49,10 @@ class GalkinShells(Galkin):
         x_grid, y_grid = util.make_grid(
             num_pix=self._num_pix, delta_pix=self._delta_pix
         )
-        self._r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        # grid around the center of the shells, with the galaxy at the origin
+        self._x_grid = x_grid + self._aperture._center_ra
+        self._y_grid = y_grid + self._aperture._center_dec
+        self._r_grid = np.sqrt(self._x_grid**2 + self._y_grid**2)
 
     def dispersion_map(self, kwargs_mass, kwargs_light, kwargs_anisotropy, **kwargs):
         """
@@ -78,7 +81,12 @@ class GalkinShells(Galkin):
         r_min = self._r_bins[0]
         for r_max in self._r_bins[1:]:
             mask = mask_util.mask_shell(
-                self._r_grid, 0, center_x=0, center_y=0, r_in=r_min, r_out=r_max
+                self._x_grid,
+                self._y_grid,
+                center_x=self._aperture._center_ra,
+                center_y=self._aperture._center_dec,
+                r_in=r_min,
+                r_out=r_max,
             )
             vel_disp = np.sum(I_R_sigma2_conv * mask) / np.sum(
                 I_R_conv * mask
-- 
2.43.0


From 687096a702a1216e698f034e7b42cd7268e554c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 088/134] fix: convolution of IFU shells does not shift the
 image by half a pixel

---
 lenstronomy/GalKin/galkin_shells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/GalKin/galkin_shells.py b/lenstronomy/GalKin/galkin_shells.py
index 4cf52dd..e96183e 100644
--- a/lenstronomy/GalKin/galkin_shells.py
+++ b/lenstronomy/GalKin/galkin_shells.py
@@ -69,7 +69,7 @@ class GalkinShells(Galkin):
         ir_map = util.array2image(IR)
         ir_sigma2_map = util.array2image(I_R_sigma2)
         kernel = self.convolution_kernel(
-            delta_pix=self._delta_pix, num_pix=self._num_pix
+            delta_pix=self._delta_pix, num_pix=self._num_pix + 1
         )
         I_R_sigma2_conv = signal.fftconvolve(ir_sigma2_map, kernel, mode="same")
         I_R_sigma2_conv = util.image2array(I_R_sigma2_conv)
-- 
2.43.0


From f3c5c547066d4f5e1f0d074fa59c07ccebc2cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 089/134] fix: settings of the multi-Gaussian expansions are
 used in the kinematics

---
 lenstronomy/Analysis/kinematics_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index a598bd4..ebc7653 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -421,6 +421,7 @@ class KinematicsAPI(object):
             theta_E=theta_E,
             model_kinematics_bool=self._lens_model_kinematics_bool,
             gamma=gamma,
+            kwargs_mge=self._kwargs_mge_mass,
             analytic_kinematics=self._analytic_kinematics,
         )
         light_profile_list, kwargs_light = self.kinematic_light_profile(
@@ -429,6 +430,7 @@ class KinematicsAPI(object):
             MGE_fit=self._MGE_light,
             model_kinematics_bool=self._light_model_kinematics_bool,
             Hernquist_approx=self._Hernquist_approx,
+            kwargs_mge=self._kwargs_mge_light,
             analytic_kinematics=self._analytic_kinematics,
         )
 
-- 
2.43.0


From f2ce6d20babf1a0928bfa0fcd8dcb3e89b02f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 090/134] fix: multi-Gaussian expansion of the light uses the
 parameters of the selected profiles

---
 lenstronomy/Analysis/kinematics_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index ebc7653..c15955d 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -791,6 +791,11 @@ class KinematicsAPI(object):
                 kwargs_light.append(kwargs_lens_light_i)
 
         if MGE_fit is True:
+            kwargs_lens_light = [
+                kwargs
+                for kwargs, use in zip(kwargs_lens_light, model_kinematics_bool)
+                if use is True
+            ]
             MGE_light_fitter = MGELight(light_profile_list, kwargs_mge)
             amps, sigmas = MGE_light_fitter.mge_fit(kwargs_lens_light, r_eff)
             kwargs_light = [{"amp": amps, "sigma": sigmas}]
-- 
2.43.0


From d1353c8a0f48f2b5da5798753d5f5b75a8654a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:47 +0000
Subject: [PATCH 091/134] fix: centre of the kinematic mass model is that of
 the selected lens models

---
 lenstronomy/Analysis/kinematics_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index c15955d..33980d1 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -601,7 +601,12 @@ class KinematicsAPI(object):
             else:
                 mass_profile_list = ["MULTI_GAUSSIAN_ELLIPSE_KAPPA"]
                 kwargs_profile = self._copy_ellip(kwargs_profile, kwargs_lens_mge)
-        kwargs_profile = self._copy_centers(kwargs_profile, kwargs_lens)
+        kwargs_kinematics = [
+            kwargs_lens[i]
+            for i, lens_model in enumerate(self._lens_model_list)
+            if model_kinematics_bool[i] is True
+        ]
+        kwargs_profile = self._copy_centers(kwargs_profile, kwargs_kinematics)
         return mass_profile_list, kwargs_profile
 
     def kinematic_light_profile(
-- 
2.43.0


From 368932e053d77e64a37713947da9e31205cb686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 092/134] fix: bimodal time-delay likelihood became -inf when
 both modes are unlikely

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 264b1f9..28a32d6 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -166,7 +166,7 @@ class TimeDelayLikelihood(object):
                     logL2 = self._log_delay_masked(
                         delay_days=delay_days, mask=mask, i=1
                     )
-                    logL_sum = np.log(np.exp(logL1) + np.exp(logL2))
+                    logL_sum = np.logaddexp(logL1, logL2)
                     logL += logL_sum
                 else:
                     logL += self._log_delay_masked(
-- 
2.43.0


From d7070776119ce54509eacb218ce41bfd53273316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 093/134] fix: number of time-delay data counted point sources
 instead of delays

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 28a32d6..f96a321 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -239,4 +239,4 @@ class TimeDelayLikelihood(object):
 
         :return: number of time delay measurements
         """
-        return len(self._delays_measured)
+        return int(np.sum([np.sum(mask) for mask in self._measurement_bool_list]))
-- 
2.43.0


From 7a0c2fd79a442ecfd8110ff96299790a248f320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 094/134] fix: time-delay likelihood changed the caller's
 time_delay_measurement_bool_list

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index f96a321..ae70473 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -90,6 +90,7 @@ class TimeDelayLikelihood(object):
                 raise ValueError(
                     "time_delay_measurement_bool_list must have the same length as the number of point sources."
                 )
+            time_delay_measurement_bool_list = list(time_delay_measurement_bool_list)
             for i in range(self._num_point_sources):
                 if isinstance(
                     time_delay_measurement_bool_list[i], (bool, np.bool_, int)
-- 
2.43.0


From 4dc0b77f66f17e005dc6d9f74932535b53df2f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 095/134] fix: time-delay likelihood solved for the images with
 the previous cosmology

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index ae70473..53c3eb9 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -128,15 +128,15 @@ class TimeDelayLikelihood(object):
         :type lambda_mst: float or int
         :return: log likelihood of the model given the time delay data.
         """
-        x_pos, y_pos = self._pointSource.image_position(
-            kwargs_ps=kwargs_ps, kwargs_lens=kwargs_lens, original_position=True
-        )
         if self._lensModel.cosmology_sampling:
             cosmo = get_astropy_cosmology(
                 cosmology_model=self._lensModel.cosmology_model,
                 param_kwargs=kwargs_cosmo,
             )
             self._lensModel.update_cosmology(cosmo)
+        x_pos, y_pos = self._pointSource.image_position(
+            kwargs_ps=kwargs_ps, kwargs_lens=kwargs_lens, original_position=True
+        )
 
         logL = 0
         for i in range(self._num_point_sources):
-- 
2.43.0


From 106fe45a84175d9ed839d1612e18328e802ef858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 096/134] fix: source-plane covariance transposed the Jacobian
 (wrong for multi-plane rotation)

---
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index 2eba96a..ff27283 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -338,5 +338,5 @@ def image2source_covariance(A, Sigma_theta):
     A: Hessian lensing matrix
     Sigma_theta: image plane covariance matrix of uncertainties
     """
-    ATSigma = np.matmul(A.T, Sigma_theta)
-    return np.matmul(ATSigma, A)
+    ASigma = np.matmul(A, Sigma_theta)
+    return np.matmul(ASigma, A.T)
-- 
2.43.0


From 58db7ab128b605fb5f2b44506c7d9ce63407b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 097/134] fix: kinematic likelihood read the lens light profile
 at the index of the lens model

---
 .../Sampling/Likelihoods/kinematic_2D_likelihood.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
index 2073d6a..27f0683 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
@@ -158,8 +158,8 @@ class KinLikelihood(object):
         q_mass = kwargs_lens[self._idx_lens]["q"]
         # orientation_light, q_light = param_util.ellipticity2phi_q(kwargs_lens_light[self._idx_lens]['e1'],
         #                                                         kwargs_lens_light[self._idx_lens]['e2'])
-        orientation_light = kwargs_lens_light[self._idx_lens]["phi"]
-        q_light = kwargs_lens_light[self._idx_lens]["q"]
+        orientation_light = kwargs_lens_light[self._idx_lens_light]["phi"]
+        q_light = kwargs_lens_light[self._idx_lens_light]["q"]
 
         same_orientation = True  # confirm that angles are aligned
         if np.abs(orientation_mass - orientation_light) > 0.05:
@@ -177,8 +177,8 @@ class KinLikelihood(object):
                     q_mass,
                     q_light,
                     theta_e_glee,
-                    kwargs_lens_light[self._idx_lens]["n_sersic"],
-                    kwargs_lens_light[self._idx_lens]["R_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["n_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["R_sersic"],
                     8.0e-2,
                     gamma_glee,
                     kwargs_special["b_ani"],
-- 
2.43.0


From 96d6afa2d4194c508f0a1188ba80503c3f14483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 098/134] fix: binned kinematic image truncated to the integer
 type of the bin mask

---
 lenstronomy/Data/kinematic_bin_2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/kinematic_bin_2D.py b/lenstronomy/Data/kinematic_bin_2D.py
index 33117f0..ba55d51 100644
--- a/lenstronomy/Data/kinematic_bin_2D.py
+++ b/lenstronomy/Data/kinematic_bin_2D.py
@@ -63,7 +63,7 @@ class KinBin(object):
         :param data: data value in each bin
         :param bin_mask: mask indicating which pixels belong to which bin
         """
-        binned_image = np.zeros_like(bin_mask)
+        binned_image = np.zeros(np.shape(bin_mask))
         for idx, value in enumerate(data):
             binned_image[bin_mask == idx] = value
         return binned_image
-- 
2.43.0


From ea0950512327f264fe8dd5e5cf1c079a74b6bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 099/134] fix: shift of the kinematic data frame ignored in the
 alignment of the model map

---
 lenstronomy/Data/kinematic_bin_2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Data/kinematic_bin_2D.py b/lenstronomy/Data/kinematic_bin_2D.py
index ba55d51..ee710cc 100644
--- a/lenstronomy/Data/kinematic_bin_2D.py
+++ b/lenstronomy/Data/kinematic_bin_2D.py
@@ -53,8 +53,8 @@ class KinBin(object):
         self.covariance = bin_cov
         self.bin_mask = bin_mask
         self._pix2a = transform_pix2angle
-        self._ra_at_xy_0 = ra_at_xy_0
-        self._dec_at_xy_0 = dec_at_xy_0
+        self._ra_at_xy_0 = ra_at_xy_0 + ra_shift
+        self._dec_at_xy_0 = dec_at_xy_0 + dec_shift
 
     @staticmethod
     def binned_image(data, bin_mask):
-- 
2.43.0


From 9bf353a0443075caee1b7300414caaa93db60896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 100/134] fix: verbosity was passed as the orientation flag of
 the bounds check

---
 lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py b/lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py
index b0c651c..fa8ccb6 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_NN_call.py
@@ -32,7 +32,7 @@ class KinematicNN:
         :param input_p: vector of input parameters
         :return: the velocity map associated with input_p
         """
-        self.within_bounds = self.check_bounds(input_p, verbose)
+        self.within_bounds = self.check_bounds(input_p, verbose=verbose)
         return self.generator.generate_map(input_p)
 
     def plot_map(self, ax, input_p):
-- 
2.43.0


From d76ee2756b5a1df9ecea38de108d85d3f910998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 101/134] fix: point source cache stayed on after an evaluation
 excluded by the custom likelihood

---
 lenstronomy/Sampling/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/likelihood.py b/lenstronomy/Sampling/likelihood.py
index f498b40..9717b6e 100644
--- a/lenstronomy/Sampling/likelihood.py
+++ b/lenstronomy/Sampling/likelihood.py
@@ -438,7 +438,7 @@ class Likelihood(object):
                 if verbose is True:
                     print("tracer logL = %s" % logL_tracer)
                 logL += logL_tracer
-            self._reset_point_source_cache(bool_input=False)
+        self._reset_point_source_cache(bool_input=False)
         return logL  # , None
 
     @staticmethod
-- 
2.43.0


From 979fdc46d1751204e732db33f520cc91a1b13e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 102/134] fix: flux-ratio likelihood evaluated with the
 cosmology of the previous call

---
 lenstronomy/Sampling/likelihood.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lenstronomy/Sampling/likelihood.py b/lenstronomy/Sampling/likelihood.py
index 9717b6e..108f7d9 100644
--- a/lenstronomy/Sampling/likelihood.py
+++ b/lenstronomy/Sampling/likelihood.py
@@ -8,6 +8,7 @@ from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLike
 from lenstronomy.Sampling.Likelihoods.prior_likelihood import PriorLikelihood
 from lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood import KinLikelihood
 import lenstronomy.Util.class_creator as class_creator
+from lenstronomy.Util.cosmo_util import get_astropy_cosmology
 import numpy as np
 
 __all__ = ["Likelihood"]
@@ -293,6 +294,7 @@ class Likelihood(object):
             _,
         ) = class_creator.create_class_instances(all_models=True, **kwargs_model)
         self.PointSource = point_source_class
+        self._lens_model_class = lens_model_class
 
         if self._time_delay_likelihood is True:
             self.time_delay_likelihood = TimeDelayLikelihood(
@@ -573,4 +575,10 @@ class Likelihood(object):
                 kinematic_data=self.kinematic_data,
                 kwargs_tracer=self._kwargs_tracer,
             )
+        if self._lens_model_class.cosmology_sampling:
+            cosmo = get_astropy_cosmology(
+                cosmology_model=self._lens_model_class.cosmology_model,
+                param_kwargs=kwargs_special,
+            )
+            self._lens_model_class.update_cosmology(cosmo)
         # TODO remove redundancies with Param() calls updates
-- 
2.43.0


From d88ade80719191f780b952913f8eadba852b6ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:52 +0000
Subject: [PATCH 103/134] fix: tracer likelihood did not select the extinction
 models of its band

---
 lenstronomy/Sampling/Likelihoods/tracer_likelihood.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
index 9932e05..69af61a 100644
--- a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
@@ -22,6 +22,7 @@ class TracerLikelihood(object):
          evaluated in the likelihood
         """
         self._tracer_light_model_band = kwargs_model.get("tracer_source_band", 0)
+        self._index_optical_depth = kwargs_model.get("index_optical_depth_model_list")
         self.image_model = class_creator.create_im_sim(
             kwargs_model=kwargs_model, linear_solver=linear_solver, **kwargs_imaging
         )
@@ -64,6 +65,11 @@ class TracerLikelihood(object):
             kwargs_ps=kwargs_ps,
         )
 
+        if self._index_optical_depth is not None and kwargs_extinction is not None:
+            kwargs_extinction = [
+                kwargs_extinction[k]
+                for k in self._index_optical_depth[self._tracer_light_model_band]
+            ]
         logL = self.tracerModel.likelihood_data_given_model(
             kwargs_tracer_source=kwargs_tracer_source,
             kwargs_lens=kwargs_lens,
-- 
2.43.0


From 887114d0c3425bd58a3f0f00a2d9f8ebf1748a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:59 +0000
Subject: [PATCH 104/134] fix: kinematic likelihood raised with more than one
 lens light profile

---
 lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
index 27f0683..bc96072 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
@@ -62,8 +62,8 @@ class KinLikelihood(object):
 
         self.kin_x_grid, self.kin_y_grid = self.kin_class.kin_grid()
 
-        self.lens_light_bool_list = list(
-            np.zeros_like(self.lens_light_model_class.profile_type_list, dtype=bool)
+        self.lens_light_bool_list = [False] * len(
+            self.lens_light_model_class.profile_type_list
         )
         self.lens_light_bool_list[self._idx_lens_light] = True
 
-- 
2.43.0


From e3da1e87759822abbd9a370f8e99baf5b5c6b130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:00 +0000
Subject: [PATCH 105/134] fix: radially interpolated lens models (and
 GreenBoschNFW) returned the result of the first parameters they were called
 with

---
 .../LensModel/Profiles/radial_interpolated.py | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/radial_interpolated.py b/lenstronomy/LensModel/Profiles/radial_interpolated.py
index af2f4d8..9b8218b 100644
--- a/lenstronomy/LensModel/Profiles/radial_interpolated.py
+++ b/lenstronomy/LensModel/Profiles/radial_interpolated.py
@@ -18,6 +18,7 @@ class RadialInterpolate(LensProfileBase):
     ]
     lower_limit_default = {}
     upper_limit_default = {}
+    _inputs = None  # bins and convergence values of the pre-computed interpolations
 
     def function(
         self,
@@ -43,6 +44,7 @@ class RadialInterpolate(LensProfileBase):
         :type center_y: float
         :return: lensing potential
         """
+        self._check_cache(r_bin, kappa_r)
         r, phi = param_util.cart2polar(x, y, center_x=center_x, center_y=center_y)
         # -\int alpha(r) dr  from 0 to r
         pot = self._potential_r(r, r_bin, kappa_r)
@@ -100,12 +102,13 @@ class RadialInterpolate(LensProfileBase):
         :type center_y: float
         :return: f_xx, f_xy, f_yx, f_yy at interpolated positions (x, y)
         """
+        self._check_cache(r_bin, kappa_r)
         r, phi = param_util.cart2polar(x, y, center_x=center_x, center_y=center_y)
         r = np.maximum(r, 10 ** (-10))
         kappa = self._kappa_r_interp(r, r_bin, kappa_r)
         # shear in the spherical case is the average convergence enclosed minus the convergence at the radius
         # source: Kaiser 1995
-        gamma = 1 * (self._mass_enclosed(r, r_bin, kappa) / (np.pi * r**2) - kappa)
+        gamma = 1 * (self._mass_enclosed(r, r_bin, kappa_r) / (np.pi * r**2) - kappa)
         # turn in to vector for gamma and cartesian derivatives
         gamma1 = -np.cos(2.0 * phi) * gamma
         gamma2 = -np.sin(2.0 * phi) * gamma
@@ -125,8 +128,27 @@ class RadialInterpolate(LensProfileBase):
         :type kappa_r: array of same size as r_bin
         :return: radial deflection angle
         """
+        self._check_cache(r_bin, kappa_r)
         return self._mass_enclosed_over_r(r, r_bin, kappa_r) / np.pi
 
+    def _check_cache(self, r_bin, kappa_r):
+        """Deletes the pre-computed interpolations if they belong to different bins or
+        convergence values.
+
+        :param r_bin: radial bins for which convergence values are provided (or None to
+            use the pre-computed interpolation)
+        :param kappa_r: convergence values corresponding to the r_bin radii
+        :return: None
+        """
+        if r_bin is None or kappa_r is None:
+            return
+        if self._inputs is None or not (
+            np.array_equal(self._inputs[0], r_bin)
+            and np.array_equal(self._inputs[1], kappa_r)
+        ):
+            self.set_dynamic()
+            self._inputs = (np.array(r_bin), np.array(kappa_r))
+
     def _kappa_r_interp(self, r, r_bin, kappa_r):
         """Calls interpolated kappa(r)
 
@@ -245,6 +267,9 @@ class RadialInterpolate(LensProfileBase):
 
         :return: no return, deletes pre-computed variables for certain lens models
         """
+        self._inputs = None
+        if hasattr(self, "_interp_m_enclosed"):
+            del self._interp_m_enclosed
         if hasattr(self, "_interp_m_enclosed_over_r"):
             del self._interp_m_enclosed_over_r
         if hasattr(self, "_interp_kappa"):
-- 
2.43.0


From 2f9aff9214c20c4d308c41871f122b5fe64d81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:00 +0000
Subject: [PATCH 106/134] fix: interpolated lens model ignored the grids and
 maps passed in when different from the first ones

---
 lenstronomy/LensModel/Profiles/interpol.py | 60 +++++++++++++---------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/interpol.py b/lenstronomy/LensModel/Profiles/interpol.py
index e00e295..95b425f 100644
--- a/lenstronomy/LensModel/Profiles/interpol.py
+++ b/lenstronomy/LensModel/Profiles/interpol.py
@@ -46,6 +46,8 @@ class Interpol(LensProfileBase):
         if kwargs_spline is None:
             kwargs_spline = {"kx": 1, "ky": 1, "s": 0}
         self._kwargs_spline = kwargs_spline
+        # grids and maps of the current interpolations
+        self._interp_inputs = {}
         super(Interpol, self).__init__()
 
     def function(
@@ -190,7 +192,7 @@ class Interpol(LensProfileBase):
             grid_interp_y
         :return: f_xx, f_xy, f_yx, f_yy at interpolated positions (x, y)
         """
-        if not (hasattr(self, "_f_xx_interp")) and (
+        if (not hasattr(self, "_f_xx_interp") or grid_interp_x is not None) and (
             f_xx is None or f_yy is None or f_xy is None
         ):
             diff = 0.000001
@@ -283,49 +285,57 @@ class Interpol(LensProfileBase):
                     )
         return f_xx_out, f_xy_out, f_xy_out, f_yy_out
 
+    def _update_interp(self, name, x_grid, y_grid, f):
+        """Computes the interpolation if not yet existing or if it belongs to a
+        different grid or map.
+
+        :param name: name of the interpolation
+        :param x_grid: x-direction of the interpolation grid
+        :param y_grid: y-direction of the interpolation grid
+        :param f: map to be interpolated (or None to use the existing interpolation)
+        :return: None, interpolation stored in class
+        """
+        inputs = (x_grid, y_grid, f)
+        if hasattr(self, name):
+            if f is None:
+                return
+            previous = self._interp_inputs.get(name)
+            if previous is not None and all(
+                a is b or np.array_equal(a, b) for a, b in zip(inputs, previous)
+            ):
+                return
+        interp = scipy.interpolate.RectBivariateSpline(
+            y_grid, x_grid, f, **self._kwargs_spline
+        )
+        setattr(self, name, interp)
+        self._interp_inputs[name] = inputs
+
     def f_interp(self, x, y, x_grid=None, y_grid=None, f_=None, grid=False):
-        if not hasattr(self, "_f_interp"):
-            self._f_interp = scipy.interpolate.RectBivariateSpline(
-                y_grid, x_grid, f_, **self._kwargs_spline
-            )
+        self._update_interp("_f_interp", x_grid, y_grid, f_)
         return self._f_interp(y, x, grid=grid)
 
     def f_x_interp(self, x, y, x_grid=None, y_grid=None, f_x=None, grid=False):
-        if not hasattr(self, "_f_x_interp"):
-            self._f_x_interp = scipy.interpolate.RectBivariateSpline(
-                y_grid, x_grid, f_x, **self._kwargs_spline
-            )
+        self._update_interp("_f_x_interp", x_grid, y_grid, f_x)
         return self._f_x_interp(y, x, grid=grid)
 
     def f_y_interp(self, x, y, x_grid=None, y_grid=None, f_y=None, grid=False):
-        if not hasattr(self, "_f_y_interp"):
-            self._f_y_interp = scipy.interpolate.RectBivariateSpline(
-                y_grid, x_grid, f_y, **self._kwargs_spline
-            )
+        self._update_interp("_f_y_interp", x_grid, y_grid, f_y)
         return self._f_y_interp(y, x, grid=grid)
 
     def f_xx_interp(self, x, y, x_grid=None, y_grid=None, f_xx=None, grid=False):
-        if not hasattr(self, "_f_xx_interp"):
-            self._f_xx_interp = scipy.interpolate.RectBivariateSpline(
-                y_grid, x_grid, f_xx, **self._kwargs_spline
-            )
+        self._update_interp("_f_xx_interp", x_grid, y_grid, f_xx)
         return self._f_xx_interp(y, x, grid=grid)
 
     def f_xy_interp(self, x, y, x_grid=None, y_grid=None, f_xy=None, grid=False):
-        if not hasattr(self, "_f_xy_interp"):
-            self._f_xy_interp = scipy.interpolate.RectBivariateSpline(
-                y_grid, x_grid, f_xy, **self._kwargs_spline
-            )
+        self._update_interp("_f_xy_interp", x_grid, y_grid, f_xy)
         return self._f_xy_interp(y, x, grid=grid)
 
     def f_yy_interp(self, x, y, x_grid=None, y_grid=None, f_yy=None, grid=False):
-        if not hasattr(self, "_f_yy_interp"):
-            self._f_yy_interp = scipy.interpolate.RectBivariateSpline(
-                y_grid, x_grid, f_yy, **self._kwargs_spline
-            )
+        self._update_interp("_f_yy_interp", x_grid, y_grid, f_yy)
         return self._f_yy_interp(y, x, grid=grid)
 
     def do_interp(self, x_grid, y_grid, f_, f_x, f_y, f_xx=None, f_yy=None, f_xy=None):
+        self._interp_inputs = {}
         self._f_interp = scipy.interpolate.RectBivariateSpline(
             x_grid, y_grid, f_, **self._kwargs_spline
         )
-- 
2.43.0


From 7ba6578591b4b73ba516e975754319d924c9f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:00 +0000
Subject: [PATCH 107/134] fix: interpolated light profile ignored the image
 passed in when different from the first one

---
 lenstronomy/LightModel/Profiles/interpolation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LightModel/Profiles/interpolation.py b/lenstronomy/LightModel/Profiles/interpolation.py
index d1c6414..7f31f48 100644
--- a/lenstronomy/LightModel/Profiles/interpolation.py
+++ b/lenstronomy/LightModel/Profiles/interpolation.py
@@ -59,10 +59,15 @@ class Interpol(object):
         return amp * self.image_interp(x_, y_, image)
 
     def image_interp(self, x, y, image):
-        if not hasattr(self, "_image_interp"):
+        if not hasattr(self, "_image_interp") or not (
+            image is None
+            or image is self._image
+            or np.array_equal(image, self._image)
+        ):
             # Setup the interpolator.
             # Note that 'x' and 'y' in this block only refer to first and second
             # image array axes. Outside this block it is more complicated.
+            self._image = image
             nx, ny = np.shape(image)
             image_bounds = np.zeros((nx + 2, ny + 2))
             nx0, ny0 = nx + 2, ny + 2
@@ -117,3 +122,4 @@ class Interpol(object):
         """Delete the cached interpolated image."""
         if hasattr(self, "_image_interp"):
             del self._image_interp
+            del self._image
-- 
2.43.0


From aaf5634f9e81048f716d46353e014843a8ece85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:09 +0000
Subject: [PATCH 108/134] fix: noise description overwrote the exposure map
 passed in

---
 lenstronomy/Data/image_noise.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lenstronomy/Data/image_noise.py b/lenstronomy/Data/image_noise.py
index a0ef6a8..1cc5a91 100644
--- a/lenstronomy/Data/image_noise.py
+++ b/lenstronomy/Data/image_noise.py
@@ -38,11 +38,7 @@ class ImageNoise(object):
         """
         if exposure_time is not None:
             # make sure no negative exposure values are present no dividing by zero
-            if isinstance(exposure_time, int) or isinstance(exposure_time, float):
-                if exposure_time <= 10 ** (-10):
-                    exposure_time = 10 ** (-10)
-            else:
-                exposure_time[exposure_time <= 10 ** (-10)] = 10 ** (-10)
+            exposure_time = np.maximum(exposure_time, 10 ** (-10))
         self._exp_map = exposure_time
         self._background_rms = background_rms
         self._noise_map = noise_map
-- 
2.43.0


From 69d8708c8dcafc505aaa71a89a84f38988517014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:09 +0000
Subject: [PATCH 109/134] fix: second set_static() of a multi-plane model did
 not convert observed positions

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 8fff0f8..a878158 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -683,6 +683,7 @@ class MultiPlane(object):
         :return: lens model keyword argument list with positional parameters all in flat sky coordinates
         """
 
+        self.set_dynamic()
         if not self.ignore_observed_positions:
             kwargs = self.observed2flat_convention(kwargs)
         self.ignore_observed_positions = True
-- 
2.43.0


From 27e0cb83e23f2c1875dad1507d78ca130cbd86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:09 +0000
Subject: [PATCH 110/134] fix: rebin_image() with bin size one overwrote the
 mask passed in

---
 lenstronomy/Util/image_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/image_util.py b/lenstronomy/Util/image_util.py
index 56387ec..6509b9f 100644
--- a/lenstronomy/Util/image_util.py
+++ b/lenstronomy/Util/image_util.py
@@ -257,7 +257,7 @@ def rebin_image(bin_size, image, wht_map, sigma_bkg, ra_coords, dec_coords, idex
     ra_coords_resized = re_size(ra_coords[0:num_pix_precut, 0:num_pix_precut], factor)
     dec_coords_resized = re_size(dec_coords[0:num_pix_precut, 0:num_pix_precut], factor)
     idex_mask_resized = re_size(idex_mask[0:num_pix_precut, 0:num_pix_precut], factor)
-    idex_mask_resized[idex_mask_resized > 0] = 1
+    idex_mask_resized = np.where(idex_mask_resized > 0, 1, idex_mask_resized)
     return (
         image_resized,
         wht_map_resized,
-- 
2.43.0


From 552a156528346379aaad79a855e6d717c5c00603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:21 +0000
Subject: [PATCH 111/134] fix: light model wrote into the profile settings
 passed in

---
 lenstronomy/LightModel/light_model_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/light_model_base.py b/lenstronomy/LightModel/light_model_base.py
index 00d392b..01cc8c4 100644
--- a/lenstronomy/LightModel/light_model_base.py
+++ b/lenstronomy/LightModel/light_model_base.py
@@ -62,8 +62,7 @@ class LightModelBase(object):
             profile_kwargs_list = [{} for _ in range(len(light_model_list))]
 
         for profile_type, profile_kwargs in zip(light_model_list, profile_kwargs_list):
-            if profile_kwargs is None:
-                profile_kwargs = {}
+            profile_kwargs = {} if profile_kwargs is None else dict(profile_kwargs)
             if profile_type == "GAUSSIAN":
                 from lenstronomy.LightModel.Profiles.gaussian import Gaussian
 
-- 
2.43.0


From 459f6b250a5e45dc35290aa2918daf1f2cee85c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 112/134] fix: second set_static() of the chameleon lens models
 kept the normalisation of the first

---
 lenstronomy/LensModel/Profiles/chameleon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/Profiles/chameleon.py b/lenstronomy/LensModel/Profiles/chameleon.py
index 3b732e0..e640d60 100644
--- a/lenstronomy/LensModel/Profiles/chameleon.py
+++ b/lenstronomy/LensModel/Profiles/chameleon.py
@@ -225,6 +225,7 @@ class Chameleon(LensProfileBase):
         :param center_y:
         :return:
         """
+        self.set_dynamic()
         self._static = True
         (
             self._theta_convert_static,
-- 
2.43.0


From 5f089f4f73e4eac101b74d08c33d6b3e36c6ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:31 +0000
Subject: [PATCH 113/134] fix: point_source_list() returned the positions of an
 earlier evaluation with different parameters

---
 lenstronomy/PointSource/point_source_cached.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index 58c528e..b1df311 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -28,6 +28,9 @@ class PointSourceCached(object):
             del self._y_source
 
     def set_save_cache(self, save_bool):
+        if save_bool and not self._save_cache:
+            # values of evaluations without caching must not be used
+            self.delete_lens_model_cache()
         self._save_cache = save_bool
 
     def update_lens_model(self, lens_model_class):
-- 
2.43.0


From 7665bf05b7069fec1735e25d0d0da9fc8458f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:30 +0000
Subject: [PATCH 114/134] fix: CNFW convergence kernel no longer overwrites its
 radii

_F replaced radii equal to Rs in the caller's array, which cnfw_gamma used afterwards:
the Hessian at R=Rs differed between an array and a single position.
---
 lenstronomy/LensModel/Profiles/cnfw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/cnfw.py b/lenstronomy/LensModel/Profiles/cnfw.py
index a866882..8c9a972 100644
--- a/lenstronomy/LensModel/Profiles/cnfw.py
+++ b/lenstronomy/LensModel/Profiles/cnfw.py
@@ -295,7 +295,7 @@ class CNFW(LensProfileBase):
         prefac = (b - 1) ** -2
 
         if isinstance(X, np.ndarray):
-            X[np.where(X == 1)] = 1 - c
+            X = np.where(X == 1, 1 - c, X)
 
             output = np.empty_like(X)
 
-- 
2.43.0


From 937f9805d50b3aef6e9a55c4af583d779df9ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:30 +0000
Subject: [PATCH 115/134] fix: CurvedArcConst returned NaN below the arc for
 arrays

A single position more than one curvature radius away on either side has no deflection;
the array branch only tested one side.
---
 lenstronomy/LensModel/Profiles/curved_arc_const.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/curved_arc_const.py b/lenstronomy/LensModel/Profiles/curved_arc_const.py
index 3a22d3e..6bc49e5 100644
--- a/lenstronomy/LensModel/Profiles/curved_arc_const.py
+++ b/lenstronomy/LensModel/Profiles/curved_arc_const.py
@@ -238,10 +238,11 @@ class CurvedArcConst(LensProfileBase):
 
         else:
             f__x, f__y = np.zeros_like(x__), np.zeros_like(y__)
-            _y__ = y__[y__ <= r]
+            inside = np.abs(y__) <= r
+            _y__ = y__[inside]
             _f__x, _f__y = self._deflection(_y__, r, tangential_stretch)
-            f__x[y__ <= r] = _f__x
-            f__y[y__ <= r] = _f__y
+            f__x[inside] = _f__x
+            f__y[inside] = _f__y
 
         # rotate back
         f_x, f_y = util.rotate(f__x, f__y, -direction)
-- 
2.43.0


From 92511a1649357db4d4ed3df98d994da487d1ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:30 +0000
Subject: [PATCH 116/134] fix: NFW potential and shear agree between arrays and
 single positions near the centre

The potential was softened at 0.001 Rs for a single position and 1e-6 Rs for arrays, and
the array branch overwrote the radii of the calling function.
---
 lenstronomy/LensModel/Profiles/nfw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw.py b/lenstronomy/LensModel/Profiles/nfw.py
index 8cfd31d..038bd62 100644
--- a/lenstronomy/LensModel/Profiles/nfw.py
+++ b/lenstronomy/LensModel/Profiles/nfw.py
@@ -432,7 +432,7 @@ class NFW(LensProfileBase):
 
         else:
             a = np.empty_like(X)
-            X[X <= c] = c
+            X = np.maximum(X, c)
             x = X[X < 1]
             a[X < 1] = np.log(x / 2.0) + 1 / np.sqrt(1 - x**2) * np.arccosh(1.0 / x)
             a[X == 1] = 1 + np.log(1.0 / 2.0)
@@ -475,13 +475,13 @@ class NFW(LensProfileBase):
         c = 0.000001
         if isinstance(X, int) or isinstance(X, float):
             if X < 1:
-                x = max(0.001, X)
+                x = max(c, X)
                 a = np.log(x / 2.0) ** 2 - np.arccosh(1.0 / x) ** 2
             else:  # X >= 1:
                 a = np.log(X / 2.0) ** 2 + np.arccos(1.0 / X) ** 2
         else:
             a = np.empty_like(X)
-            X[X <= c] = 0.000001
+            X = np.maximum(X, c)
             x = X[X < 1]
             a[X < 1] = np.log(x / 2.0) ** 2 - np.arccosh(1.0 / x) ** 2
             x = X[X >= 1]
-- 
2.43.0


From c27e74d7fbe0eb02285ae4775136d358b1ef5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:30 +0000
Subject: [PATCH 117/134] fix: SIS_TRUNCATED potential at the truncation radii
 for arrays

Positions at exactly one or two truncation radii had a vanishing potential in arrays.
---
 lenstronomy/LensModel/Profiles/sis_truncate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/sis_truncate.py b/lenstronomy/LensModel/Profiles/sis_truncate.py
index 8be8892..55dd469 100644
--- a/lenstronomy/LensModel/Profiles/sis_truncate.py
+++ b/lenstronomy/LensModel/Profiles/sis_truncate.py
@@ -64,12 +64,12 @@ class SIS_truncate(LensProfileBase):
         else:
             f_ = np.zeros_like(r)
             f_[r < r_trunc] = theta_E * r[r < r_trunc]
-            r_ = r[(r < 2 * r_trunc) & (r > r_trunc)]
-            f_[(r < 2 * r_trunc) & (r > r_trunc)] = (
+            r_ = r[(r < 2 * r_trunc) & (r >= r_trunc)]
+            f_[(r < 2 * r_trunc) & (r >= r_trunc)] = (
                 theta_E * r_trunc
                 + 1.0 / 2 * theta_E * (3 - r_ / r_trunc) * (r_ - r_trunc)
             )
-            f_[r > 2 * r_trunc] = 3.0 / 2 * theta_E * r_trunc
+            f_[r >= 2 * r_trunc] = 3.0 / 2 * theta_E * r_trunc
         return f_
 
     def derivatives(self, x, y, theta_E, r_trunc, center_x=0, center_y=0):
@@ -165,8 +165,8 @@ class SIS_truncate(LensProfileBase):
         else:
             a = np.zeros_like(r)
             a[r < r_trunc] = 0
-            a[(r < 2 * r_trunc) & (r > r_trunc)] = -theta_E / r_trunc
-            a[r > 2 * r_trunc] = 0
+            a[(r < 2 * r_trunc) & (r >= r_trunc)] = -theta_E / r_trunc
+            a[r >= 2 * r_trunc] = 0
         return a
 
     def _dr_dx(self, x, y):
-- 
2.43.0


From a2ccb425d19bfa28dbc301a2c9cdb6d8a2b26fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:03 +0000
Subject: [PATCH 118/134] fix: SIS Hessian of a single position within 0.01 of
 the centre

The cube of the radius was limited to 1e-6 for a single position, so that its Hessian
vanished within 0.01 of the centre while arrays returned the correct value.
---
 lenstronomy/LensModel/Profiles/sis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/sis.py b/lenstronomy/LensModel/Profiles/sis.py
index 6ab7db7..7f78cc9 100644
--- a/lenstronomy/LensModel/Profiles/sis.py
+++ b/lenstronomy/LensModel/Profiles/sis.py
@@ -32,7 +32,7 @@ class SIS(LensProfileBase):
         y_shift = y - center_y
         R = np.sqrt(x_shift * x_shift + y_shift * y_shift)
         if isinstance(R, int) or isinstance(R, float):
-            a = theta_E / max(0.000001, R)
+            a = theta_E / R if R > 0 else 0
         else:
             a = np.empty_like(R)
             r = R[R > 0]  # in the SIS regime
@@ -49,7 +49,7 @@ class SIS(LensProfileBase):
         y_shift = y - center_y
         R = (x_shift * x_shift + y_shift * y_shift) ** (3.0 / 2)
         if isinstance(R, int) or isinstance(R, float):
-            prefac = theta_E / max(0.000001, R)
+            prefac = theta_E / R if R > 0 else 0
         else:
             prefac = np.empty_like(R)
             r = R[R > 0]  # in the SIS regime
-- 
2.43.0


From f81575fa1a7f88e3686ef25512e952328bb03850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:03 +0000
Subject: [PATCH 119/134] fix: SPP Hessian of a single position near the centre
 agrees with arrays

---
 lenstronomy/LensModel/Profiles/spp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/spp.py b/lenstronomy/LensModel/Profiles/spp.py
index 4ad13c9..024edaa 100644
--- a/lenstronomy/LensModel/Profiles/spp.py
+++ b/lenstronomy/LensModel/Profiles/spp.py
@@ -115,7 +115,7 @@ class SPP(LensProfileBase):
 
         P2 = xt1**2 + xt2**2
         if isinstance(P2, int) or isinstance(P2, float):
-            a = max(0.000001, P2)
+            a = P2 if P2 > 0 else 0.000001
         else:
             a = np.empty_like(P2)
             p2 = P2[P2 > 0]  # in the SIS regime
-- 
2.43.0


From 841d410aa2930c581b446dbc691c43ca82cbf547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:03 +0000
Subject: [PATCH 120/134] fix: LINEAR light profile can be evaluated at a
 single position

---
 lenstronomy/LightModel/Profiles/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index bfd760c..d783565 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -41,7 +41,7 @@ class Linear(object):
         """
         dis = np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)
         f = amp * (k / amp * dis + 1)
-        f[f < 0] = 0
+        f = np.maximum(f, 0)
         return f
 
     def total_flux(self, amp, k, center_x=0, center_y=0):
-- 
2.43.0


From dc9a99925f17936fdf6cc53f2beb10466da9feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:03 +0000
Subject: [PATCH 121/134] fix: SPEP of a single position near the centre agrees
 with arrays

---
 lenstronomy/LensModel/Profiles/spep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/spep.py b/lenstronomy/LensModel/Profiles/spep.py
index faef6df..3ff03e5 100644
--- a/lenstronomy/LensModel/Profiles/spep.py
+++ b/lenstronomy/LensModel/Profiles/spep.py
@@ -125,7 +125,7 @@ class SPEP(LensProfileBase):
         xt2difq2 = xt2 / (q * q)
         P2 = xt1 * xt1 + xt2 * xt2difq2
         if isinstance(P2, int) or isinstance(P2, float):
-            a = max(0.000001, P2)
+            a = P2 if P2 > 0 else 0.000001
         else:
             a = np.empty_like(P2)
             p2 = P2[P2 > 0]  # in the SIS regime
@@ -180,7 +180,7 @@ class SPEP(LensProfileBase):
         P2 = xt1**2 + xt2**2 / q**2
 
         if isinstance(P2, int) or isinstance(P2, float):
-            a = max(0.000001, P2)
+            a = P2 if P2 > 0 else 0.000001
         else:
             a = np.empty_like(P2)
             p2 = P2[P2 > 0]  # in the SIS regime
-- 
2.43.0


From df5d9be142c424d9f3eb5865cb9917f4e11d9e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:03 +0000
Subject: [PATCH 122/134] fix: SHAPELETS_CART ignored its centre at a single
 position

---
 lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
index 5bedbd9..d3d9fa5 100644
--- a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
+++ b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
@@ -28,6 +28,7 @@ class CartShapelets(LensProfileBase):
         n_order = self._get_num_n(len(coeffs))
         n = len(np.atleast_1d(x))
         if n <= 1:
+            x, y = x - center_x, y - center_y
             f_ = self._shapeletOutput(x, y, beta, shapelets, precalc=False)
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order, center_x, center_y)
@@ -42,6 +43,7 @@ class CartShapelets(LensProfileBase):
         dy_shapelets = self._dy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
+            x, y = x - center_x, y - center_y
             f_x = self._shapeletOutput(x, y, beta, dx_shapelets, precalc=False)
             f_y = self._shapeletOutput(x, y, beta, dy_shapelets, precalc=False)
         else:
@@ -60,6 +62,7 @@ class CartShapelets(LensProfileBase):
         dxy_shapelets = self._dxy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
+            x, y = x - center_x, y - center_y
             f_xx = self._shapeletOutput(x, y, beta, dxx_shapelets, precalc=False)
             f_yy = self._shapeletOutput(x, y, beta, dyy_shapelets, precalc=False)
             f_xy = self._shapeletOutput(x, y, beta, dxy_shapelets, precalc=False)
-- 
2.43.0


From 99bb0f85b987c4908c77511c7acbe1d0181dd491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:47 +0000
Subject: [PATCH 123/134] fix: Hessian of line-of-sight flexion models includes
 the rotation omega_os

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index 559e6aa..11d7627 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -511,8 +511,8 @@ class SinglePlaneLOSFlexion(SinglePlane):
 
         # LOS contribution in the absence of the main lens
         f_xx += kappa_os + gamma1_os
-        f_xy += gamma2_os
-        f_yx += gamma2_os
+        f_xy += gamma2_os - kwargs_los_flexion["omega_os"]
+        f_yx += gamma2_os + kwargs_los_flexion["omega_os"]
         f_yy += kappa_os - gamma1_os
 
         return f_xx.real, f_xy.real, f_yx.real, f_yy.real
-- 
2.43.0


From 49e0944a600f95cddaddc65a55709d8cbc30f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:56 +0000
Subject: [PATCH 124/134] fix: inverse of the first-generation starlet
 transform with fast=False

---
 lenstronomy/LightModel/Profiles/starlets_util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/starlets_util.py b/lenstronomy/LightModel/Profiles/starlets_util.py
index d75fcb2..e296a37 100644
--- a/lenstronomy/LightModel/Profiles/starlets_util.py
+++ b/lenstronomy/LightModel/Profiles/starlets_util.py
@@ -102,10 +102,14 @@ def inverse_transform(wave, fast=True, second_gen=False):
         newh[0, np.linspace(0, np.size(newh) - 1, len(h), dtype=int)] = h
         H = np.dot(newh.T, newh)
 
-        ###### Line convolution
-        cnew = ndimage.convolve1d(cJ, newh[0, :], axis=0, mode=mode)
-        ###### Column convolution
-        cnew = ndimage.convolve1d(cnew, newh[0, :], axis=1, mode=mode)
+        if second_gen:
+            ###### Line convolution
+            cnew = ndimage.convolve1d(cJ, newh[0, :], axis=0, mode=mode)
+            ###### Column convolution
+            cnew = ndimage.convolve1d(cnew, newh[0, :], axis=1, mode=mode)
+        else:
+            # first generation: cj = cj+1 + wj+1 (no smoothing in the synthesis)
+            cnew = cJ
 
         cJ = cnew + wave[lvl - 1 - i, :, :]
 
-- 
2.43.0


From fd95394918503bdc153417629dc9f5cdb2a90f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:56 +0000
Subject: [PATCH 125/134] fix: total flux of the LINEAR light profile is the
 volume of the cone

---
 lenstronomy/LightModel/Profiles/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index d783565..deb3549 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -53,7 +53,8 @@ class Linear(object):
         :param center_y: center of profile
         :return: total flux
         """
-        return 1 / 3 * (np.pi * (k / abs(amp)) ** 2 * k)
+        # cone of height amp and base radius amp / |k|
+        return 1 / 3 * np.pi * (amp / k) ** 2 * amp
 
 
 @export
-- 
2.43.0


From 204d2e28b5399ad38fec26801f2a14634678f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:03 +0000
Subject: [PATCH 126/134] fix: TNFWC with a core or truncation radius equal to
 another scale of the profile

---
 lenstronomy/LensModel/Profiles/nfw_core_truncated.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw_core_truncated.py b/lenstronomy/LensModel/Profiles/nfw_core_truncated.py
index 60af6f3..0956c45 100644
--- a/lenstronomy/LensModel/Profiles/nfw_core_truncated.py
+++ b/lenstronomy/LensModel/Profiles/nfw_core_truncated.py
@@ -244,6 +244,8 @@ class TNFWC(LensProfileBase):
         :param t: truncation radius divided by the scale radius
         :return: solution to the projection integral
         """
+        if t == 1:
+            t += 1e-3
         prefactor = t**2 / (t**2 - 1)
         return prefactor * (self._u1(x, b, 1.0) - self._u1(x, b, t))
 
@@ -257,7 +259,7 @@ class TNFWC(LensProfileBase):
         :param t: truncation radius divided by the scale radius
         :return: solution of the integral over projected mass
         """
-        if b == t:
+        if t == 1:
             t += 1e-3
         prefactor = t**2 / (t**2 - 1)
         return prefactor * (
@@ -278,6 +280,8 @@ class TNFWC(LensProfileBase):
         t2x2 = t**2 + x**2
         b2x2 = b**2 + x**2
         b2mt2 = b**2 - t**2
+        if b == t:
+            return 1.0 / t2x2
         if t > b:
             func = np.arccosh
             b2mt2 *= -1
-- 
2.43.0


From 37943167dbb3d4c539fea5b251659e263ff20b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:51 +0000
Subject: [PATCH 127/134] fix: curved arc over a finite area estimated its
 curvature around the origin instead of the position

---
 lenstronomy/LensModel/lens_model_extensions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index ff8d213..521f9a3 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -901,6 +901,7 @@ class LensModelExtensions(object):
 
         # make circle of points around position of interest
         x_c, y_c = util.points_on_circle(radius=dr, num_points=20, connect_ends=False)
+        x_c, y_c = x_c + x, y_c + y
 
         c_x_list, c_y_list = [], []
         # loop through curved arc estimate and compute curvature centroid
-- 
2.43.0


From 173a1022c21ddcac66812a1ca9d0c320d76c42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:51 +0000
Subject: [PATCH 128/134] fix: azimuthal average of a non-square image is about
 its centre

---
 lenstronomy/Util/analysis_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/analysis_util.py b/lenstronomy/Util/analysis_util.py
index 204a2ea..34c97c3 100644
--- a/lenstronomy/Util/analysis_util.py
+++ b/lenstronomy/Util/analysis_util.py
@@ -70,7 +70,7 @@ def azimuthal_average(image, center=None):
     y, x = np.indices(image.shape)
 
     if not center:
-        center = np.array([(x.max() - x.min()) / 2.0, (x.max() - x.min()) / 2.0])
+        center = np.array([(x.max() - x.min()) / 2.0, (y.max() - y.min()) / 2.0])
 
     r = np.hypot(x - center[0], y - center[1])
 
-- 
2.43.0


From 64533e60d7611ea08381470d4d85519f04e56640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:38 +0000
Subject: [PATCH 129/134] fix: MST invariant differential is taken on the
 circle around the given centre

---
 lenstronomy/Analysis/lens_profile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index 1bbfd22..b2b4aa5 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -261,6 +261,7 @@ class LensProfileAnalysis(object):
             kwargs_lens, center_x, center_y
         )
         x, y = util.points_on_circle(radius, num_points)
+        x, y = center_x + x, center_y + y
         ext = LensModelExtensions(lensModel=self._lens_model)
         (
             lambda_rad,
-- 
2.43.0


From 77c121c677eedfa909fef455493c215064f20b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:52 +0000
Subject: [PATCH 130/134] fix: MST invariant differential of selected
 components

---
 lenstronomy/Analysis/lens_profile.py           |  7 ++++++-
 lenstronomy/LensModel/lens_model_extensions.py | 16 +++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index b2b4aa5..4050cec 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -276,7 +276,12 @@ class LensProfileAnalysis(object):
             dphi_rad_drad,
             dphi_rad_dtan,
         ) = ext.radial_tangential_differentials(
-            x, y, kwargs_lens, center_x=center_x, center_y=center_y
+            x,
+            y,
+            kwargs_lens,
+            center_x=center_x,
+            center_y=center_y,
+            k=model_list_bool,
         )
         xi = np.mean(dlambda_rad_drad / lambda_rad)
         return xi
diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index 521f9a3..6c65fec 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -523,15 +523,18 @@ class LensModelExtensions(object):
             dec_caustic_list.append(dec_caustics)
         return ra_crit_list, dec_crit_list, ra_caustic_list, dec_caustic_list
 
-    def hessian_eigenvectors(self, x, y, kwargs_lens, diff=None):
+    def hessian_eigenvectors(self, x, y, kwargs_lens, diff=None, k=None):
         """Computes magnification eigenvectors at position (x, y)
 
         :param x: x-position
         :param y: y-position
         :param kwargs_lens: lens model keyword arguments
+        :param k: only evaluate the k-th lens model (None, int, or list)
         :return: radial stretch, tangential stretch
         """
-        f_xx, f_xy, f_yx, f_yy = self._lensModel.hessian(x, y, kwargs_lens, diff=diff)
+        f_xx, f_xy, f_yx, f_yy = self._lensModel.hessian(
+            x, y, kwargs_lens, k=k, diff=diff
+        )
         if isinstance(x, int) or isinstance(x, float):
             A = np.array([[1 - f_xx, f_xy], [f_yx, 1 - f_yy]])
             w, v = np.linalg.eig(A)
@@ -562,6 +565,7 @@ class LensModelExtensions(object):
         ra_0=0,
         dec_0=0,
         coordinate_frame_definitions=False,
+        k=None,
     ):
         """Computes the radial and tangential stretches at a given position.
 
@@ -569,10 +573,11 @@ class LensModelExtensions(object):
         :param y: y-position
         :param kwargs_lens: lens model keyword arguments
         :param diff: float or None, finite average differential scale
+        :param k: only evaluate the k-th lens model (None, int, or list)
         :return: radial stretch, tangential stretch
         """
         w1, w2, v11, v12, v21, v22 = self.hessian_eigenvectors(
-            x, y, kwargs_lens, diff=diff
+            x, y, kwargs_lens, diff=diff, k=k
         )
         v_x, v_y = x - ra_0, y - dec_0
 
@@ -646,6 +651,7 @@ class LensModelExtensions(object):
         center_y=0,
         smoothing_3rd=0.001,
         smoothing_2nd=None,
+        k=None,
     ):
         """Computes the differentials in stretches and directions.
 
@@ -660,6 +666,7 @@ class LensModelExtensions(object):
             angle
         :param smoothing_2nd: float or None, finite average differential scale of
             Hessian
+        :param k: only evaluate the k-th lens model (None, int, or list)
         :return:
         """
         (
@@ -677,6 +684,7 @@ class LensModelExtensions(object):
             ra_0=center_x,
             dec_0=center_y,
             coordinate_frame_definitions=True,
+            k=k,
         )
         x0 = x - center_x
         y0 = y - center_y
@@ -705,6 +713,7 @@ class LensModelExtensions(object):
             ra_0=center_x,
             dec_0=center_y,
             coordinate_frame_definitions=True,
+            k=k,
         )
         dx_rad = x + smoothing_3rd * v1_rad
         dy_rad = y + smoothing_3rd * v2_rad
@@ -723,6 +732,7 @@ class LensModelExtensions(object):
             ra_0=center_x,
             dec_0=center_y,
             coordinate_frame_definitions=True,
+            k=k,
         )
 
         # eigenvalue differentials in tangential and radial direction
-- 
2.43.0


From 2f6f117dd1c700a0152bf19dc7360068e72de094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:30 +0000
Subject: [PATCH 131/134] fix: multi-Gaussian lens of selected components about
 the given centre raised or returned NaN

---
 lenstronomy/Analysis/lens_profile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index 4050cec..3c4cf0f 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -337,7 +337,12 @@ class LensProfileAnalysis(object):
         center_x, center_y = analysis_util.profile_center(
             kwargs_lens, center_x, center_y
         )
-        theta_E = self.effective_einstein_radius_grid(kwargs_lens)
+        theta_E = self.effective_einstein_radius_grid(
+            kwargs_lens,
+            center_x=center_x,
+            center_y=center_y,
+            model_bool_list=model_bool_list,
+        )
         r_array = np.logspace(-4, 2, 200) * theta_E
         kappa_s = self.radial_lens_profile(
             r_array,
-- 
2.43.0


From 8ea36a5f72f5482034930643ceae5c3d88fa7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:16 +0000
Subject: [PATCH 132/134] fix: cutouts of non-square images

---
 lenstronomy/Util/kernel_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 6de3417..50378a6 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -523,11 +523,11 @@ def cutout_source(x_pos, y_pos, image, kernelsize, shift=True):
         raise ValueError("even pixel number kernel size not supported!")
     x_int = int(round(x_pos))
     y_int = int(round(y_pos))
-    n = len(image)
+    ny, nx = np.shape(image)
     d = (kernelsize - 1) / 2
-    x_max = int(np.minimum(x_int + d + 1, n))
+    x_max = int(np.minimum(x_int + d + 1, nx))
     x_min = int(np.maximum(x_int - d, 0))
-    y_max = int(np.minimum(y_int + d + 1, n))
+    y_max = int(np.minimum(y_int + d + 1, ny))
     y_min = int(np.maximum(y_int - d, 0))
     image_cut = copy.deepcopy(image[y_min:y_max, x_min:x_max])
     shift_x = x_int - x_pos
@@ -543,8 +543,8 @@ def cutout_source(x_pos, y_pos, image, kernelsize, shift=True):
 
     xk_min = np.maximum(0, -x_int + k_l2_x)
     yk_min = np.maximum(0, -y_int + k_l2_y)
-    xk_max = np.minimum(kernelsize, -x_int + k_l2_x + n)
-    yk_max = np.minimum(kernelsize, -y_int + k_l2_y + n)
+    xk_max = np.minimum(kernelsize, -x_int + k_l2_x + nx)
+    yk_max = np.minimum(kernelsize, -y_int + k_l2_y + ny)
 
     kernel_final[yk_min:yk_max, xk_min:xk_max] = kernel_shift
     return kernel_final
-- 
2.43.0


From 43781abb3ff6322d68cc452f38ddfeb030238470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:16 +0000
Subject: [PATCH 133/134] fix: normalisation of a partially masked star in the
 PSF reconstruction

---
 lenstronomy/Workflow/psf_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index 9aae293..690bbff 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -718,7 +718,7 @@ class PsfFitting(object):
         # norm_masked = np.sum(kernel_shifted[mask_i == 0])
         norm_unmasked = np.sum(kernel_shifted[mask_cutout == 1])
         # normalize star within the unmasked region to the norm of the initial kernel of the same region
-        star_cutout /= np.sum(star_cutout[mask_cutout == 1]) * norm_unmasked
+        star_cutout *= norm_unmasked / np.sum(star_cutout[mask_cutout == 1])
         # replace mask with shifted initial kernel (+2 size)
         star_cutout[mask_cutout == 0] = kernel_shifted[mask_cutout == 0]
         star_cutout[star_cutout < 0] = 0
-- 
2.43.0


From 11602e92a9e481ae494a73bc41cc75a11ac0fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:16 +0000
Subject: [PATCH 134/134] fix: PSF error map blocked neighbouring point sources
 at pixel instead of angular positions

---
 lenstronomy/Workflow/psf_fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index 690bbff..b810557 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -935,6 +935,9 @@ class PsfFitting(object):
         ra_grid = util.image2array(ra_grid)
         dec_grid = util.image2array(dec_grid)
         mask = self._image_model_class.likelihood_mask
+        ra_pos, dec_pos = self._image_model_class.Data.map_pix2coord(
+            np.array(x_pos), np.array(y_pos)
+        )
         for i, star in enumerate(star_cutout_list):
             x, y, amp_i = x_pos[i], y_pos[i], amp[i]
             # shift kernel
@@ -953,7 +956,7 @@ class PsfFitting(object):
             )
             # block neighbor points in error estimate
             mask_point_source = self.mask_point_source(
-                x_pos, y_pos, ra_grid, dec_grid, radius=block_center_neighbour, i=i
+                ra_pos, dec_pos, ra_grid, dec_grid, radius=block_center_neighbour, i=i
             )
             mask_i = mask * mask_point_source
             mask_i = kernel_util.cutout_source(
-- 
2.43.0

