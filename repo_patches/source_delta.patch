From a0ad50cbc9a05544314c3bdda7f5da08feb9bfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 01/23] fix: keep 2pi-side image regions whose radial band has
 no 0-side partner

---
 src/microjax/inverse_ray/merge_area.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 3cfe72a..ec4ee2c 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -215,7 +215,8 @@ def _merge_final(r_map: Array, th_map: Array) -> Tuple[Array, Array]:
     th_min_new = jnp.where(th_min_new == 0, th_mins, th_min_new) # (N,)
 
     new_matrix = jnp.stack([r_mins, r_maxs, th_min_new, th_maxs], axis=1)  # (N, 4)
-    cond_vanish = jnp.any(jnp.any(same_r, axis=1)&(th_mins == 0)) & (th_maxs == 2*jnp.pi)  # (N, ) shape
+    # A 2pi-side interval is absorbed only if its own radial range has a 0-side partner.
+    cond_vanish = jnp.any(same_r & (th_mins == 0), axis=1) & (th_maxs == 2*jnp.pi)  # (N, ) shape
     new_matrix = jnp.where(cond_vanish[:, None], 0.0, new_matrix)  # (N, 4) shape
     
     sort_order = jnp.argsort(new_matrix[:, 1] == 0)
-- 
2.43.0


From 5c8c8c75c144449ac1a5b7e9273950e14777a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 02/23] fix: trace the source limb with the requested number of
 lenses in mag_limb_dark

---
 src/microjax/inverse_ray/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index 08a18ee..fc47a71 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -119,7 +119,7 @@ def mag_limb_dark(
     
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
-    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params)
+    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
 
-- 
2.43.0


From c46d24bc72590164a686f5324feee44d6c3f2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 03/23] fix: primary mass fraction of the triple lens in
 mag_extended_source

---
 src/microjax/caustics/extended_source/mag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index ea8716a..b3deea2 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -97,7 +97,7 @@ def mag_extended_source(
         r3, psi = params["r3"], params["psi"]
         a = 0.5 * s
         e1 = q / (1.0 + q + q3)
-        e2 = (1 - q3) / (1.0 + q + q3)
+        e2 = 1.0 / (1.0 + q + q3)
         _params = {"a": a, "r3": r3, "psi": psi, "e1": e1, "e2": e2}
         x_cm = a * (1 - q) / (1 + q)
         w0 -= x_cm
-- 
2.43.0


From 5d69a141435f9318e365858e3f5204d00fef8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 04/23] fix: planetary-caustic position in the mid-point frame

---
 src/microjax/caustics/lightcurve.py       | 2 +-
 src/microjax/inverse_ray/cond_extended.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index b34efb5..6b1f5c5 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -124,7 +124,7 @@ def _planetary_caustic_test(w, rho, c_p=2., **params):
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s 
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
 
diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index 7c7d76f..8e32b3e 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -112,6 +112,6 @@ def _planetary_caustic_test(w: Array, rho: float, c_p: float = 2.0, **params) ->
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s 
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
-- 
2.43.0


From a0812e872263ce2435efd429251aecedd201a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:50 +0000
Subject: [PATCH 05/23] fix: contour buffer large enough for all merged image
 tracks

---
 src/microjax/caustics/extended_source/segments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/segments.py b/src/microjax/caustics/extended_source/segments.py
index 69b5819..14499ac 100644
--- a/src/microjax/caustics/extended_source/segments.py
+++ b/src/microjax/caustics/extended_source/segments.py
@@ -427,8 +427,11 @@ def _merge_open_segments(
 
     tail_idcs = vmap(last_nonzero)(segments[:, 0, :].real)
 
+    # A single contour can run through every image track (nr_of_segments is three
+    # per image), so the buffer has to hold all of them.
+    n_images = segments.shape[0] // 3
     segments = jnp.pad(
-        segments, ((0, 0), (0, 0), (0, 3 * segments.shape[-1])), constant_values=0.0
+        segments, ((0, 0), (0, 0), (0, n_images * segments.shape[-1])), constant_values=0.0
     )
 
     segments_merged_list = []
-- 
2.43.0


From 4361b4bc716f4f694f34050ef9d7ae5bba5de9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 06/23] fix: honour psi in the triple-lens hexadecapole

---
 src/microjax/multipole.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/microjax/multipole.py b/src/microjax/multipole.py
index 7148f22..d4d4497 100644
--- a/src/microjax/multipole.py
+++ b/src/microjax/multipole.py
@@ -291,6 +291,7 @@ def mag_hexadecapole(
         )
     elif nlenses == 3:
         a, r3, e1, e2 = params["a"], params["r3"], params["e1"], params["e2"]
+        r3 = r3 * jnp.exp(1j * params.get("psi", 0.0))
         W = (
             lambda k: (-1) ** (k - 1)
             * factorial(k - 1)
-- 
2.43.0


From 6be96dca614cf75d694fc7b3daa9ed2cb51b8d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 07/23] fix: apply limb darkening in the multipole branch of
 caustics.magnifications

---
 src/microjax/caustics/lightcurve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index 6b1f5c5..049bd11 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -244,13 +244,15 @@ def magnifications(
         **_params
     )
 
+    u1_multi = u1 if limb_darkening else 0.0
+
     if nlenses==1:
         test = w_points > 2*rho
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)  # miyazaki
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, u1=u1_multi, **_params)  # miyazaki
     elif nlenses==2:
         # Compute hexadecapole approximation at every point and a test where it is
         # sufficient
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, u1=u1_multi, **_params)
         test1 = _caustics_proximity_test(
             w_points - x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params #miyazaki
             #w_points + x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params
-- 
2.43.0


From 4424222226a74d6a7f6b956d35af951c27b86819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 08/23] fix: extrapolate the point-source transform as the
 NumPy implementation does

---
 src/microjax/fastlens/mag_fft_jax.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 4709c93..b74a5a4 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -28,8 +28,7 @@ class mag_:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
     
@@ -144,8 +143,7 @@ class magnification:
         """
         u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
         u2Au = ((u**2 + 2.0) / (u**2 + 4.0)**0.5 / u - 1) * u**2
-        h = hankel(u, u2Au, nu=1.5)
-        #h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
+        h = hankel(u, u2Au, nu=1.5, N_extrap_high=512, N_extrap_low=512)
         self.k, apk = h.hankel(0)
         self.apk = apk * 2 * jnp.pi
 
-- 
2.43.0


From f3916bc8154260ff482716cb9be58420546a75eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 09/23] fix: linear limb-darkening profile of the FFT
 magnification (Fourier counterpart and A(0))

---
 src/microjax/fastlens/mag_fft_jax.py | 39 +++++++++++++---------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index b74a5a4..4e87230 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -8,6 +8,20 @@ from jax import jit, lax, vmap
 def A_point(u):
     return (u**2 + 2) / jnp.abs(u) / (u**2 + 4)**0.5
 
+def _sk_linear_limb(k, rho, a1):
+    """Fourier counterpart of the flux-normalised profile 1 - a1*(1 - sqrt(1 - (u/rho)**2))."""
+    x = jnp.atleast_1d(k) * rho
+    x_safe = jnp.where(x > 1e-2, x, 1.0)
+    sk_disk = jnp.where(x > 1e-2, 2.0 * j1(x_safe) / x_safe, 1.0 - x**2 / 8.0)
+    sk_term1 = jnp.where(x > 1e-2, 3.0 * (jnp.sin(x_safe) - x_safe * jnp.cos(x_safe)) / x_safe**3, 1.0 - x**2 / 10.0)
+    return ((1.0 - a1) * sk_disk + 2.0 / 3.0 * a1 * sk_term1) / (1.0 - a1 / 3.0)
+
+def _A0_linear_limb(rho, a1):
+    """Magnification at u=0 for the profile 1 - a1*(1 - sqrt(1 - (u/rho)**2))."""
+    A0_disk  = (rho**2 + 4)**0.5 / rho 
+    A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
+    return ((1.0 - a1) * A0_disk + 2.0 / 3.0 * a1 * A0_term1) / (1.0 - a1 / 3.0)
+
 class mag_:
     def __init__(self, fft_logumin=-6, fft_logumax=3, N_fft=1024, normalize_sk=True, rho_switch=1e-4, u_switch=10):
         """
@@ -96,18 +110,10 @@ class mag_limb(mag_):
         return su
 
     def sk(self, k, rho, a1):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho, a1)
-        h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        return _sk_linear_limb(k, rho, a1)
 
     def A0(self, rho, a1):
-        A0_disk  = (rho**2 + 4)**0.5 / rho 
-        A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - a1
-        return (A0_disk - a1 * A0_term1) / norm 
+        return _A0_linear_limb(rho, a1)
 
 # FFT based magnification
 class magnification:
@@ -264,13 +270,7 @@ class mag_limb1(magnification):
         return su
 
     def sk(self, k, rho):
-        u = jnp.logspace(self.fft_logumin, self.fft_logumax, self.N_fft)
-        u2su = u**2 * self.su(u, rho)
-        h = hankel(u, u2su, nu=1.5)
-        #h = hankel(u, u2su, nu=1.5)
-        k, sk = h.hankel(0)
-        sk = sk/sk[0]
-        return sk
+        return _sk_linear_limb(k, rho, self.a1)
 
     def sk__(self, k, rho):
         k = jnp.atleast_1d(k)
@@ -295,10 +295,7 @@ class mag_limb1(magnification):
         return sk
 
     def A0(self, rho):
-        A0_disk  = (rho**2 + 4)**0.5 / rho 
-        A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - self.a1
-        return (A0_disk - self.a1 * A0_term1) / norm 
+        return _A0_linear_limb(rho, self.a1)
 
 
 class magnification_limb1(magnification):
-- 
2.43.0


From 3edc54016f0f65848fed8058fd1696b224ce0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 10/23] fix: scalar and default errors in linear_chi2

---
 src/microjax/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/microjax/likelihood.py b/src/microjax/likelihood.py
index c99136a..36dffd9 100644
--- a/src/microjax/likelihood.py
+++ b/src/microjax/likelihood.py
@@ -62,6 +62,7 @@ def linear_chi2(x: Array, y: Array, err: Union[float, Array] = 0.0) -> Tuple[flo
     The solution minimizes ``sum_i w_i (y_i - a - b x_i)^2`` with
     ``w_i = 1/err_i^2`` when ``err_i > 0`` else ``w_i = 1``.
     """
+    err = jnp.broadcast_to(jnp.asarray(err), jnp.shape(x))
     wt = jnp.where(err > 0, 1.0 / (err ** 2), 1.0)
     sumw = jnp.sum(wt)
     sumx = jnp.sum(wt * x)
-- 
2.43.0


From ec3b7d22da9cf831f1f0cf0be035cb975782dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 11/23] fix: derivatives of ellipk, ellipe and j1 at their
 removable singularities

---
 src/microjax/fastlens/special.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index e14a36c..f5b304f 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -150,7 +150,12 @@ def ellipk_jvp(primals, tangents):
         m,
     )
     # Derivative of the complete elliptic integral of the first kind with respect to m
-    dk_dm = (ellipe_(m) - (1 - m) * k_val) / (2 * m * (1 - m))
+    # (Taylor series around the removable singularity at m = 0)
+    small = jnp.abs(m) < 1e-3
+    m_ = jnp.where(small, 0.5, m)
+    dk_dm = (ellipe_(m_) - (1 - m_) * ellipk_(m_)) / (2 * m_ * (1 - m_))
+    series = jnp.pi / 8 * (1 + m * (9 / 8 + m * (75 / 64 + m * 1225 / 1024)))
+    dk_dm = jnp.where(small, series, dk_dm)
     return k_val, m_dot * dk_dm
 
 
@@ -186,9 +191,13 @@ def ellipe_jvp(primals, tangents):
     (m,) = primals
     (m_dot,) = tangents
     e_val = ellipe_(m)
-    k_val = ellipk_(m)
     # Derivative of the complete elliptic integral of the second kind with respect to m
-    de_dm = (e_val - k_val) / (2 * m)
+    # (Taylor series around the removable singularity at m = 0)
+    small = jnp.abs(m) < 1e-3
+    m_ = jnp.where(small, 0.5, m)
+    de_dm = (ellipe_(m_) - ellipk_(m_)) / (2 * m_)
+    series = -jnp.pi / 8 * (1 + m * (3 / 8 + m * (15 / 64 + m * 175 / 1024)))
+    de_dm = jnp.where(small, series, de_dm)
     return e_val, m_dot * de_dm
 
 
@@ -210,7 +219,7 @@ def ellipe(m):
 
 def ellipk(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipk_(m),
         1.0 / jnp.sqrt(jnp.abs(m) + 1.0) * ellipk_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
@@ -219,7 +228,7 @@ def ellipk(m):
 
 def ellipe(m):
     result = jnp.where(
-        m > 0,
+        m >= 0,
         ellipe_(m),
         jnp.sqrt(jnp.abs(m) + 1.0) * ellipe_(jnp.abs(m) / (jnp.abs(m) + 1.0)),
     )
@@ -499,7 +508,9 @@ def j1_jvp(primals, tangents):
     (m,) = primals
     (m_dot,) = tangents
     primal_out = j1_(m)
-    tangent_out = j0_(m) * m_dot - j1_(m) * m_dot / m
+    # j1(m)/m -> 1/2 at m = 0
+    j1_over_m = jnp.where(m == 0, 0.5, primal_out / jnp.where(m == 0, 1.0, m))
+    tangent_out = (j0_(m) - j1_over_m) * m_dot
     # tangent_out = lax.cond(m == 0, lambda _: 0.0, lambda _: tangent_out - j1(m) * m_dot / m, operand=None)
     return primal_out, tangent_out
 
-- 
2.43.0


From 054b0dcd89a884c13efae7c71c941438a44cc5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 12/23] fix: enough AGM iterations for the elliptic integrals
 near m = 1 and at very negative m

---
 src/microjax/fastlens/special.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index f5b304f..b39c8ef 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -125,7 +125,7 @@ def gamma_jvp(primals, tangents):
 gamma = jit(gamma_)
 
 
-def agm(a, b, num_iter=5):
+def agm(a, b, num_iter=8):
     def agm_step(carry, _):
         a, b = carry
         return ((a + b) / 2, jnp.sqrt(a * b)), None
@@ -136,7 +136,7 @@ def agm(a, b, num_iter=5):
 
 @custom_jvp
 def ellipk_(m):
-    num_iter = 5
+    num_iter = 8
     a, b = 1.0, jnp.sqrt(1 - m)
     c = agm(a, b, num_iter=num_iter)
     return jnp.pi / (2 * c)
@@ -159,7 +159,7 @@ def ellipk_jvp(primals, tangents):
     return k_val, m_dot * dk_dm
 
 
-def agm2(a0, b0, s_sum0, num_iter=5):
+def agm2(a0, b0, s_sum0, num_iter=8):
     def agm_step2(carry, _):
         a, b, s_sum, n = carry
         a_next, b_next = (a + b) / 2, jnp.sqrt(a * b)
@@ -177,7 +177,7 @@ def agm2(a0, b0, s_sum0, num_iter=5):
 
 @custom_jvp
 def ellipe_(m):
-    num_iter = 5
+    num_iter = 8
     a0, b0 = 1.0, jnp.sqrt(1 - m)
     c0 = jnp.sqrt(jnp.abs(a0**2 - b0**2))
     # c0     = jnp.sqrt(a0**2 - b0**2)
-- 
2.43.0


From 686089ed8dce618a43494d63585f1440a21d34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 13/23] fix: j2 and j1p5 near zero

---
 src/microjax/fastlens/special.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index b39c8ef..575f27a 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -520,14 +520,26 @@ j1 = jit(vmap(j1_, in_axes=(0,)))
 
 
 def j2_(x):
-    return (2 / x) * j1_(x) - j0_(x)
+    # the recurrence cancels near zero, where the power series is used instead
+    small = jnp.abs(x) < 0.2
+    x_ = jnp.where(small, 1.0, x)
+    z = x * x
+    series = z / 8 * (1 - z / 12 * (1 - z / 32 * (1 - z / 60 * (1 - z / 96))))
+    return jnp.where(small, series, (2 / x_) * j1_(x_) - j0_(x_))
 
 
 j2 = jit(vmap(j2_, in_axes=(0,)))
 
 
 def j1p5_(x):
-    return jnp.sqrt(2 / (jnp.pi * x)) * (jnp.sin(x) / x - jnp.cos(x))
+    # the closed form cancels near zero, where the power series is used instead
+    small = jnp.abs(x) < 0.2
+    x_ = jnp.where(small, 1.0, x)
+    z = x * x
+    series = z / 3 * (1 - z / 10 * (1 - z / 28 * (1 - z / 54 * (1 - z / 88))))
+    f = jnp.where(small, series, jnp.sin(x_) / x_ - jnp.cos(x_))
+    positive = jnp.where(x == 0, 1.0, x)
+    return jnp.where(x == 0, 0.0, jnp.sqrt(2 / (jnp.pi * positive)) * f)
 
 
 j1p5 = jit(vmap(j1p5_, in_axes=(0,)))
-- 
2.43.0


From 37d16357b4ec077a38c9600e970832c2393dcdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 14/23] fix: gamma is only singular at non-positive integers on
 the real axis

---
 src/microjax/fastlens/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/fastlens/special.py b/src/microjax/fastlens/special.py
index 575f27a..c3240ad 100644
--- a/src/microjax/fastlens/special.py
+++ b/src/microjax/fastlens/special.py
@@ -58,7 +58,7 @@ def gamma_(z):
 
     non_positive_integer_mask = negative_real_mask & (
         jnp.real(z) == jnp.floor(jnp.real(z))
-    )
+    ) & (jnp.imag(z) == 0)
     g = jnp.where(non_positive_integer_mask, jnp.nan, g)
 
     return g.reshape(original_shape)
-- 
2.43.0


From 88a028b94f639b4aea20cf72e6e00bc93b62f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 15/23] fix: sign of the normalisation term in the u1
 derivative of Is_limb_1st

---
 src/microjax/inverse_ray/limb_darkening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/limb_darkening.py b/src/microjax/inverse_ray/limb_darkening.py
index 13db5ce..0cd4195 100644
--- a/src/microjax/inverse_ray/limb_darkening.py
+++ b/src/microjax/inverse_ray/limb_darkening.py
@@ -41,7 +41,7 @@ def Is_limb_1st_jvp(primals, tangents):
     fac = 100.0
     mu = jnp.sqrt(jnp.maximum(1e-3, 1.0 - d**2))
     I0 = 3.0 / jnp.pi / (3.0 - u1)
-    dI0_du1 = -3.0 / jnp.pi / (3.0 - u1)**2
+    dI0_du1 = 3.0 / jnp.pi / (3.0 - u1)**2
     prof = 1.0 - u1 * (1.0 - mu)
     dprof_du1 = - (1.0 - mu)
     dprof_dmu = u1
-- 
2.43.0


From 212ff6d803d2d7383212bffe1ef750bca4e697b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 16/23] fix: make the polynomial solver independent of the
 overall coefficient scale

The guard on the Ehrlich-Aberth denominator and the Cauchy radius use absolute
thresholds, so polynomials whose coefficients are all below ~1e-16 fell back
to uncoupled Newton steps and lost roots.
---
 src/microjax/poly_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index 91a64e5..fd40a92 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -190,6 +190,10 @@ def poly_roots_EA(
     n = coeffs.shape[0] - 1
     assert n >= 1, "Polynomial degree must be >= 1"
 
+    # Roots do not depend on the overall scale, but the absolute thresholds below do
+    scale = jnp.max(jnp.abs(coeffs))
+    coeffs = coeffs / jnp.where(scale > 0, scale, 1.0)
+
     # Initial roots by Cauchy bound on a circle
     if initial_roots is None:
         r = _cauchy_radius(coeffs)
-- 
2.43.0


From 6540074bb0c2a61727a40af25a729c18e3a5d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 17/23] fix: start the root solver from guesses that are not
 symmetric about the real axis

With conjugate-symmetric guesses and real coefficients two iterates stay
conjugate forever and can never separate onto two distinct real roots, e.g.
z^3 + 1.1166 z^2 + 0.3849 z + 0.041 returned a complex pair.
---
 src/microjax/poly_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index fd40a92..fbab56e 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -198,7 +198,9 @@ def poly_roots_EA(
     if initial_roots is None:
         r = _cauchy_radius(coeffs)
         k = jnp.arange(n)
-        initial_roots = r * jnp.exp(2j * jnp.pi * k / n)
+        # offset the angles: guesses symmetric about the real axis would keep
+        # conjugate pairs of real polynomials locked together
+        initial_roots = r * jnp.exp(1j * (2.0 * jnp.pi * k / n + 0.4))
     else:
         initial_roots = _as_complex(initial_roots)
 
-- 
2.43.0


From 7a543cb7d8865ad546124a25328c80e07522f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 18/23] fix: break symmetry and coincidences of user-supplied
 initial root guesses

Tracking images along the lens axis hands the solver conjugate-symmetric
guesses, which can never leave that symmetry and so lost images when the
number of real roots changed; equal guesses stayed equal forever.
---
 src/microjax/poly_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/microjax/poly_solver.py b/src/microjax/poly_solver.py
index fbab56e..afc3ed7 100644
--- a/src/microjax/poly_solver.py
+++ b/src/microjax/poly_solver.py
@@ -203,6 +203,9 @@ def poly_roots_EA(
         initial_roots = r * jnp.exp(1j * (2.0 * jnp.pi * k / n + 0.4))
     else:
         initial_roots = _as_complex(initial_roots)
+        # separate coincident guesses and break conjugate symmetry (see above)
+        kick = 1e-6 * jnp.exp(1j * jnp.arange(1, n + 1))
+        initial_roots = initial_roots + kick * (1.0 + jnp.abs(initial_roots))
 
     dcoeffs = _polyder_coeffs(coeffs)
     eps = jnp.finfo(initial_roots.real.dtype).eps * 10
-- 
2.43.0


From 6290d00d504aa3686c900a886cf846028650681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 19/23] fix: Jacobian determinant of the single lens

det J of w = z - 1/conj(z) is 1 - 1/|z|^4; the code used 1 - 1/|z|^2, so
mag_point_source(w, nlenses=1) was too large by up to a factor of two.
---
 src/microjax/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index e3ebba1..ebc2555 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -147,7 +147,7 @@ def lens_eq_det_jac(z: jax.Array, nlenses: int = 2, **params) -> jax.Array:
     zbar = jnp.conjugate(z)
 
     if nlenses == 1:
-        return 1.0 - 1.0 / jnp.abs(zbar**2)
+        return 1.0 - 1.0 / jnp.abs(zbar**2) ** 2
 
     if nlenses == 2:
         a, e1 = params["a"], params["e1"]
-- 
2.43.0


From bdb06c885b3d087f0969ad402149cb9b56cbbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 20/23] fix: an empty radial range must not swallow the image
 region before it

---
 src/microjax/inverse_ray/merge_area.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index ec4ee2c..e847618 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -233,7 +233,7 @@ def _refine_addmargin_merge_r(r_limb: Array, r_ranges: Array, margin: float = 0.
     r_limb_expanded = r_limb.reshape(1, N)
     r_mins  = r_ranges[:, 0].reshape(M, 1)
     r_maxs  = r_ranges[:, 1].reshape(M, 1)
-    cond_in = (r_limb_expanded > r_mins) & (r_limb_expanded < r_maxs)  # shape: (M, N)
+    cond_in = (r_limb_expanded >= r_mins) & (r_limb_expanded <= r_maxs)  # shape: (M, N)
     valid_mins = jnp.where(cond_in, r_limb_expanded, jnp.inf)
     valid_maxs = jnp.where(cond_in, r_limb_expanded, -jnp.inf)
     r_mins = jnp.where(jnp.any(cond_in, axis=1), jnp.min(valid_mins, axis=1), 0.0)
@@ -248,7 +248,8 @@ def _refine_addmargin_merge_r(r_limb: Array, r_ranges: Array, margin: float = 0.
     for i in range(N-1):
         row_0 = rows_new[i]
         row_1 = rows_new[i+1]
-        update = row_0[1] > row_1[0]
+        # an empty row must not swallow the range before it
+        update = (row_0[1] > row_1[0]) & (row_1[1] > 0.0)
         def true_fn(rows):
             rows = rows.at[i].set(jnp.array([0.0, 0.0]))
             rows = rows.at[i + 1].set(jnp.array([row_0[0], row_1[1]]))
-- 
2.43.0


From 8d7870382608d9fc50bd79bd939bda77cb849303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:09 +0000
Subject: [PATCH 21/23] fix: count every angle once in image regions that close
 into a ring

---
 src/microjax/inverse_ray/extended_source.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index fc47a71..c4d1f30 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -36,6 +36,15 @@ from typing import Mapping, Sequence, Tuple, Callable, Optional, Union
 # Simple alias for readability in type hints
 Array = jnp.ndarray
 
+def _close_circle(th_range: Array, th_resolution: int, n_counted: int) -> Array:
+    """Angular range of a region, with every angle counted once if it goes all the way round.
+
+    The angular stencils skip cells at both ends of the range, so a closed ring
+    needs a range in which the ``n_counted`` remaining cells add up to ``2 pi``.
+    """
+    closed = jnp.array([th_range[0], th_range[0] + 2 * jnp.pi * (th_resolution - 1) / n_counted])
+    return jnp.where(th_range[1] - th_range[0] >= 2 * jnp.pi, closed, th_range)
+
 #@partial(jit, static_argnames=("nlenses", "cubic", "r_resolution", "th_resolution", "Nlimb", "u1",
 #                               "offset_r", "offset_th", "delta_c"))
 def mag_limb_dark(
@@ -168,6 +177,7 @@ def mag_limb_dark(
         of this subregion.
         """
         r_values = jnp.linspace(r_range[0], r_range[1], r_resolution, endpoint=True)
+        th_range = _close_circle(th_range, th_resolution, th_resolution - 4)
         th_values = jnp.linspace(th_range[0], th_range[1], th_resolution, endpoint=True)
         area_r = vmap(lambda r: _process_r(r, th_values))(r_values)
         dr = r_values[1] - r_values[0]
@@ -304,6 +314,7 @@ def mag_uniform(
         sum across the per-radius angular integrals from ``_process_r``.
         """
         r_values = jnp.linspace(r_range[0], r_range[1], r_resolution, endpoint=True)
+        th_range = _close_circle(th_range, th_resolution, th_resolution - 3)
         th_values = jnp.linspace(th_range[0], th_range[1], th_resolution, endpoint=True)
         #area_r = jax.checkpoint(vmap(lambda r: _process_r(r, th_values, cubic)))(r_values)
         area_r = vmap(lambda r: _process_r(r, th_values))(r_values)
-- 
2.43.0


From 84fa717dfff4b0bc0c74814a8ff89f4a253cee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 22/23] fix: take the whole circle for image regions around the
 polar origin

---
 src/microjax/inverse_ray/merge_area.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index e847618..a6c6007 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -47,16 +47,24 @@ def define_regions(
     r_limb     = jnp.abs(image_limb * mask_limb)
     th_limb    = jnp.mod(jnp.arctan2(image_limb.imag, image_limb.real), 2*jnp.pi) * mask_limb
     r_mins, r_maxs   = cluster_1d(r_limb, bins=bins_r, max_cluster=nimages_init)
-    th_mins, th_maxs = cluster_1d(th_limb, bins=bins_th, mode_r=False, max_cluster=nimages_init)
-
     r_map  = jnp.array([r_mins, r_maxs]).T
+    r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=margin_r*rho)
+
+    # The limb crosses many angles between samples close to the origin: a radial
+    # range that comes near it takes the whole circle instead of clustered angles.
+    near_origin = (r_map_refine[:, 0] < rho) & (r_map_refine[:, 1] > 0.0)
+    r_whole = jnp.max(jnp.where(near_origin, r_map_refine[:, 1], 0.0))
+    th_mins, th_maxs = cluster_1d(jnp.where(r_limb < r_whole, 0.0, th_limb), bins=bins_th, mode_r=False,
+                                  max_cluster=nimages_init)
     th_map = jnp.array([th_mins, th_maxs]).T
     th_map = jnp.where(jnp.isclose(th_map, 0.0), 0.0, th_map)
     th_map = jnp.where(jnp.isclose(th_map, 2*jnp.pi), 2*jnp.pi, th_map)
 
-    r_map_refine = _refine_addmargin_merge_r(r_limb, r_map, margin=margin_r*rho)
+    th_map = jnp.vstack([th_map, jnp.array([0.0, 2*jnp.pi])])
 
     in_mask   = _compute_in_mask(r_limb, th_limb, r_map_refine, th_map)
+    whole_circle = jnp.arange(th_map.shape[0]) == th_map.shape[0] - 1
+    in_mask   = in_mask & (near_origin[:, None] == whole_circle[None, :])
     r_masked  = jnp.repeat(r_map_refine, th_map.shape[0], axis=0) * in_mask.ravel()[:, None]
     th_masked = jnp.tile(th_map, (r_map_refine.shape[0], 1)) * in_mask.ravel()[:, None]
 
-- 
2.43.0


From 69db28af13416f92eb83b8f175b121c371aeb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 23/23] fix: test every false image, with the complex Jacobian,
 before the multipole shortcut

---
 src/microjax/caustics/lightcurve.py       | 9 +++------
 src/microjax/inverse_ray/cond_extended.py | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index 049bd11..0a7f8cb 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -107,15 +107,12 @@ def _caustics_proximity_test(
     test_multipole_and_cusp = gamma * mu_cusp + delta_mu_multi < c_m
 
     # False images test
-    Jhat = 1 - jnp.abs(fp_z * fp_zhat)
+    Jhat = 1 - fp_z * fp_zhat
     factor = jnp.abs(J * Jhat**2 / 
                      (Jhat*fpp_zbar*fp_z - jnp.conjugate(Jhat)  * fpp_z * fp_zbar * fp_zhat)
                      )
-    test_false_images = 0.5 * (~z_mask * factor).sum(axis=0) > c_f * (rho + rho_min)
-    test_false_images = jnp.where((~z_mask).sum(axis=0)==0, 
-                                  jnp.ones_like(test_false_images, dtype=jnp.bool_), 
-                                  test_false_images
-                                  )
+    # every false image has to stay away, not just their sum
+    test_false_images = jnp.all(z_mask | (0.5 * factor > c_f * (rho + rho_min)), axis=0)
     return test_false_images & test_multipole_and_cusp
 
 
diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index 8e32b3e..8e07743 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -95,15 +95,12 @@ def _caustics_proximity_test(
     test_multipole_and_cusp = gamma * mu_cusp + delta_mu_multi < c_m
 
     # False images test
-    Jhat = 1 - jnp.abs(fp_z * fp_zhat)
+    Jhat = 1 - fp_z * fp_zhat
     factor = jnp.abs(J * Jhat**2 / 
                      (Jhat*fpp_zbar*fp_z - jnp.conjugate(Jhat)  * fpp_z * fp_zbar * fp_zhat)
                      )
-    test_false_images = 0.5 * (~z_mask * factor).sum(axis=0) > c_f * (rho + rho_min)
-    test_false_images = jnp.where((~z_mask).sum(axis=0)==0, 
-                                  jnp.ones_like(test_false_images, dtype=jnp.bool_), 
-                                  test_false_images
-                                  )
+    # every false image has to stay away, not just their sum
+    test_false_images = jnp.all(z_mask | (0.5 * factor > c_f * (rho + rho_min)), axis=0)
     return test_false_images & test_multipole_and_cusp
 
 def _planetary_caustic_test(w: Array, rho: float, c_p: float = 2.0, **params) -> Array:
-- 
2.43.0

