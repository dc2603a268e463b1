From 19ae26a7fc3313fb18f2172020f28811bb73f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:31 +0000
Subject: [PATCH 01/31] fix: lniknu keeps the order of its arguments when small
 and large ones are mixed

---
 CasimirRio/bessel_sk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 655f4d9..7309a97 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -71,8 +71,9 @@ def lniknu(x, lmax):
         i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
         i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
         i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-        i0 = np.append(i0sm, i0lg, axis=0)
-        i1 = np.append(i1sm, i1lg, axis=0)
+        i0, i1 = np.empty(len(x)), np.empty(len(x))
+        i0[sm], i0[lg] = i0sm, i0lg
+        i1[sm], i1[lg] = i1sm, i1lg
     else:
         if xsm.shape[0] == 0:
             i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-- 
2.43.0


From 00cd9ec2cc084314b72813e8cdf7dbc9eeebcb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:31 +0000
Subject: [PATCH 02/31] fix: depth of the continued fraction follows the
 largest argument, not the last one

---
 CasimirRio/bessel_sk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 7309a97..c17b297 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -46,7 +46,7 @@ def fnu(x, nu):
 
     """
     Nmax = 80
-    if x[-1] > 100:
+    if (x > 100).any():
         Nmax = 140
     n = np.arange(1, Nmax+1).reshape(1, Nmax)
     x = x[..., np.newaxis]
-- 
2.43.0


From ad9a16a68af2622410010bae6d9043d4b05f1452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:13 +0000
Subject: [PATCH 03/31] fix: static plasma Mie coefficients use all undamped
 carriers and the static permeability

---
 CasimirRio/scattering.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 10306f7..d65756e 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -59,11 +59,9 @@ class scattering:
         bTM = (l+1)/l
         if not self.mat1.is_perfect_conductor:
             mu0_sp = self.mat1.mu(k)
-            wPR_c = np.array([0])
-            try:
-                wPR_c = np.array([self.mat1.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
+            # free carriers without damping determine n*k*R in the limit k -> 0
+            wP2 = sum([w[0]**2 for w in self.mat1.e_properties if w[1] == 0 and w[2] == 0])
+            wPR_c = np.sqrt(wP2*mu0_sp)*R/2.998e14
             if not self.mat1.is_sigma_finite:
                 ifraction = bessel_sk.i_fraction(wPR_c, l-0.5)[:, 0]
                 i_frac_term = (-l + wPR_c * ifraction)
-- 
2.43.0


From a5ad36c7ce080589e7d24d577754e218a3282fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:58 +0000
Subject: [PATCH 04/31] fix: static interior plasma Mie coefficients (ratio of
 Bessel functions, orders from lmin)

---
 CasimirRio/scattering.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index d65756e..25055e4 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -230,13 +230,12 @@ class scattering:
         sgn = (-1)**(l)
         bTM = l/(l+1)
         if not self.mat2.is_perfect_conductor:
-            try:
-                wPR_c = np.array([self.mat2.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
+            # free carriers without damping determine n*k*R in the limit k -> 0
+            wP2 = sum([w[0]**2 for w in self.mat2.e_properties if w[1] == 0 and w[2] == 0])
+            wPR_c = np.sqrt(wP2*mu0_e)*R/2.998e14
             if not self.mat2.is_sigma_finite:
-                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, :]
-                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])*wPR_c/(2*l-1)#k_wp[0:-1]/k_wp[1:]*wPR_c/(2*l-1)
+                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
+                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
                 k_fracterm = -l-wPR_c*k_ratio
                 bTE = (-(mu0_e*l + mu0_i*k_fracterm )
                        /( (l+1)*mu0_e - mu0_i*k_fracterm )
-- 
2.43.0


From ed3ee7994ecf183a0535cfd98dfd35031a1233f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:55 +0000
Subject: [PATCH 05/31] fix: stratified sphere works on its own copy of the
 material and radius lists

---
 CasimirRio/stratified_sphere_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/stratified_sphere_scattering.py b/CasimirRio/stratified_sphere_scattering.py
index 8c0cb0d..89f08de 100644
--- a/CasimirRio/stratified_sphere_scattering.py
+++ b/CasimirRio/stratified_sphere_scattering.py
@@ -26,8 +26,8 @@ class StratifiedMieScattering(scattering):
     def __init__(self, mat_list, r_list):  # nCore, nCoating, nMedium
         try:
             if type(mat_list) == list and type(r_list) == list:
-                self.mat_list = mat_list
-                self.r_list = r_list
+                self.mat_list = list(mat_list)
+                self.r_list = list(r_list)
                 assert(len(r_list)==len(mat_list)-1)
                 scattering.__init__(self, mat_list[0], mat_list[1])
         except:
-- 
2.43.0


From 4e4e4c8d835b5b7c32aee5b662f4fd85a44d6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:06 +0000
Subject: [PATCH 06/31] fix: zero-frequency blocks no longer use the removed
 alias np.float

---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 6e4b0d9..1d660ce 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -230,7 +230,7 @@ class SphereSphere:
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
         lss = np.arange(lmin, self.lssmax+1)[np.newaxis, np.newaxis, :]
-        sgn = (-1)**np.float(lss-l1)        
+        sgn = (-1.0)**(lss-l1)
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
         distance_dep = np.log(r1/r2) + l1*np.log(r1/L)+2*lss*np.log(L/r2) + l2*np.log(r1/L)
@@ -261,7 +261,7 @@ class SphereSphere:
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
-        lss = np.arange(lmin, self.lssmax+1, dtype = np.float)[np.newaxis, np.newaxis, :]
+        lss = np.arange(lmin, self.lssmax+1, dtype=float)[np.newaxis, np.newaxis, :]
         sgn = (-1)**(lss-l2)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
-- 
2.43.0


From 431934ae0dcc2c692fd500a29f9c624affcb754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:06 +0000
Subject: [PATCH 07/31] fix: roundTrip_elements slices fresh Mie coefficients
 for m > 1

---
 CasimirRio/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 1d660ce..195fe30 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -166,7 +166,7 @@ class SphereSphere:
                      ]
 
             V.extend(Vdiff)
-        return [mieA, mieB, V]
+        return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
     def roundTrip_elements_k0(self, m, k):
         """Collect all necessyary Mie-coefficients and translation matrices
-- 
2.43.0


From 6ec21e94b97d299b7594c743e05ad35952eba135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:06 +0000
Subject: [PATCH 08/31] fix: static Mie cache always holds all orders from l =
 1

---
 CasimirRio/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 195fe30..dee31cf 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -198,14 +198,14 @@ class SphereSphere:
                 raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
                                           " is not yet implemented for stratified spheres")
             self.MieA_k0 = scattering(self.mat1, self.mat3
-                                   ).mie_k0(lmin, self.lmax, self.r1
+                                   ).mie_k0(1, self.lmax, self.r1
                                          )[:, :, np.newaxis, np.newaxis]
             if not self.ext_flag:
                 self.MieB_k0 = scattering(self.mat3, self.mat2
-                    ).mie_internal_k0(lmin, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
+                    ).mie_internal_k0(1, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
             else:
                 self.MieB_k0 = scattering(self.mat2, self.mat3
-                             ).mie_k0(lmin, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
+                             ).mie_k0(1, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
             mieA_k0 = self.MieA_k0
             mieB_k0 = self.MieB_k0
         V_k0 = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
@@ -217,7 +217,7 @@ class SphereSphere:
                                       "is not implemented, yet.")
 
             V.extend(Vdiff)
-        return [mieA_k0, mieB_k0, V_k0]
+        return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
 
     def blockmatrices_k0_int(self, m):
         """ Returns a list of two blockmatrices corresponding to a subspace
-- 
2.43.0


From e6ab6606a6308b466142e719995dcbbaa6aa0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:30 +0000
Subject: [PATCH 09/31] fix: CoatedSphereSphere passes truncation and minimum
 order correctly

---
 CasimirRio/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index dee31cf..9564bda 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -608,7 +608,8 @@ class CoatedSphereSphere(SphereSphere):
     def __init__(self, r1_i, r1_a, mat1_core, mat1_coat, r2_i, r2_a,
                  mat2_core, mat2_coat, L, matMd, lmax, lssmax, forceFlag=0):
         SphereSphere.__init__(self, r1_a, r2_a, L, mat1_coat, mat2_coat,
-                               matMd, lmax, lssmax, forceFlag)
+                               matMd, lmax=lmax, lssmax=lssmax,
+                              forceFlag=forceFlag)
         self.r1_i = r1_i
         self.r2_i = r2_i
         self.r1_a = r1_a
@@ -635,11 +636,11 @@ class CoatedSphereSphere(SphereSphere):
         else:
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
-                ).mie_coated(k, self.lmax, self.r1_i,
+                ).mie_coated(k, 1, self.lmax, self.r1_i,
                              self.r1_a)[..., np.newaxis, np.newaxis]
             self.MieB = coated_miescattering(self.mat2core, self.mat2coat,
                                              self.matMd).mie_coated(
-                k, self.lssmax, self.r2_i, self.r2_a)
+                k, 1, self.lssmax, self.r2_i, self.r2_a)
             self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
                                                  np.newaxis, :]**ext_VZ,
                                   self.MieB[2][np.newaxis, :, np.newaxis,
-- 
2.43.0


From 87137a393d138e026f181c9e9eaeafd069de2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:30 +0000
Subject: [PATCH 10/31] fix: mSum_oneRoundtrip uses range instead of xrange

---
 CasimirRio/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 9564bda..47e76e6 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -523,7 +523,7 @@ class SphereSphere:
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
         TrM_matsubaras_m = np.array([np.trace(A[i,:,:]+D[i,:,:]) 
-                    for i in xrange(len(matsubaras))])
+                    for i in range(len(matsubaras))])
         th_m_max = round(np.log(self.precision)/np.log(0.5))
         if mmax == "automatic":
             mmax = round(np.log(self.precision)/np.log(0.5))
@@ -535,11 +535,11 @@ class SphereSphere:
             sh = np.shape(A)
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                            for i in xrange(len(matsubaras))])
+                            for i in range(len(matsubaras))])
                 return TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                                    for i in xrange(len(matsubaras))])
+                                    for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
                 return TrM_matsubaras_m
         return TrM_matsubaras_m
-- 
2.43.0


From 2b5c0829261a20107fc15a97c2cd91bf03568d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:38 +0000
Subject: [PATCH 11/31] fix: blockmatrices_debug prepends its own static blocks

---
 CasimirRio/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 47e76e6..d6c942a 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -446,7 +446,7 @@ class SphereSphere:
 
         if k0_evaluation:
             resultEE_k0, resultMM_k0 = self.blockmatrices_k0(m)
-            resultEE_k0, resultMM_k0 = mEE_k0[np.newaxis,...], mMM_k0[np.newaxis,...]
+            resultEE_k0, resultMM_k0 = resultEE_k0[np.newaxis,...], resultMM_k0[np.newaxis,...]
             resultEM_k0 = np.zeros(resultEE_k0.shape)
             resultEE = np.append(resultEE_k0, resultEE, axis=0)
             resultEM = np.append(resultEM_k0, resultEM, axis=0)
-- 
2.43.0


From af0b48c1e52f250e345dff16bc167aa8417ed92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:40 +0000
Subject: [PATCH 12/31] fix: CoatedSphereSphere does not answer k=0 with
 uncoated spheres

---
 CasimirRio/geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index d6c942a..07b5aa0 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -666,6 +666,13 @@ class CoatedSphereSphere(SphereSphere):
             V.extend(Vdiff)
         return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
+    def roundTrip_elements_k0(self, m, k):
+        """The inherited method knows homogeneous spheres only.
+
+        """
+        raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
+                                  " is not yet implemented for coated spheres")
+
 
 def dot_3d_matrices(a, b):
     """determine the matrix product of three-dimensional matrices a and b
-- 
2.43.0


From 092a62a127e04db073b2050597f9799bd742ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:54 +0000
Subject: [PATCH 13/31] fix: blockmatrices answers an array holding only the
 zero wavenumber

---
 CasimirRio/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 07b5aa0..4c9afdf 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -291,6 +291,10 @@ class SphereSphere:
         if matsubaras[0] == 0:
             k0_evaluation = True
             matsubaras = matsubaras[1:]
+            if len(matsubaras) == 0:
+                mEE, mMM = self.blockmatrices_k0(m)
+                mEE, mMM = mEE[np.newaxis,...], mMM[np.newaxis,...]
+                return [mEE, np.zeros(mEE.shape), np.zeros(mEE.shape), mMM]
         MieA, MieB, V = self.roundTrip_elements(m, matsubaras)
         V[4] = V[4][..., np.newaxis]
         dct = {"aTE": MieA[0], "V0": V[0], "bTE": MieB[0], "V1": V[1],
-- 
2.43.0


From 6cb552d69096e9b40ade7383ab3040e8c01abbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:54 +0000
Subject: [PATCH 14/31] fix: F_alle answers a slice holding only n=0 without
 the analytic static term

---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d88fe6a..219bc27 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -156,6 +156,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
-- 
2.43.0


From 273a0bd3db57452ce919dde01a324da7f73b44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:54 +0000
Subject: [PATCH 15/31] fix: coated spheres use the numerical zero-frequency
 term like layered ones

---
 CasimirRio/thermodynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 219bc27..1ae5615 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -32,7 +32,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                              but given was", nprocs)
         self.nprocs = nprocs
         self.analytic_n0 = analytic_n0
-        if type(geom.mat1) == list or type(geom.mat2) == list:
+        if (type(geom.mat1) == list or type(geom.mat2) == list or
+            isinstance(geom, geometry.CoatedSphereSphere)):
             self.analytic_n0 = False
         self.nmax = nmax# ??? Was ist wenn nmax<maxstep gewählt ist?
         self.Tmax = Tmax
-- 
2.43.0


From bfaaf6409b99de5ebe664d9b07a43ac6398fef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:40 +0000
Subject: [PATCH 16/31] fix: mSum_roundtrips compares the relative change, not
 the ratio, with the precision

---
 CasimirRio/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 4c9afdf..f8e840c 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -556,7 +556,7 @@ class SphereSphere:
             vorher = TrM_matsubaras_m.copy()
             bigM = self.supermatrix(m, matsubaras, forceFlag)
             TrM_matsubaras_m += 2*self.arbitrary_roundtrips(bigM, order, m)
-            rel_change = abs(TrM_matsubaras_m/vorher)
+            rel_change = abs(abs(TrM_matsubaras_m/vorher)-1)
             max_id = abs(TrM_matsubaras_m).argmax()
             if m >= 1 and rel_change[max_id] < self.precision:
                 return TrM_matsubaras_m
-- 
2.43.0


From 1cfc2ee6bdff4a5be651c9e3aa80630abed27db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:40 +0000
Subject: [PATCH 17/31] fix: automatic trace expansion records the number of
 round-trips used

---
 CasimirRio/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index f8e840c..5037b4e 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -580,6 +580,7 @@ class SphereSphere:
                 traceSum += to_add
                 relchange = max(abs(to_add/traceSum))
                 n += 1  
+            n -= 1
         self.roundTrip_dct[m] = n
         return -traceSum
 
-- 
2.43.0


From 98d93cf6c2da8abd0090d06f23a9650f6a0e6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:51 +0000
Subject: [PATCH 18/31] fix: plane-plane pressure is minus the derivative of
 the free energy (factor 2 was missing)

---
 CasimirRio/PFA.py     | 8 ++++----
 CasimirRio/raw_PFA.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 45c7cba..c88b0a1 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -41,8 +41,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def pressureRoundTrip(self, k_perp, kn, L):
@@ -54,8 +54,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE)+
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE)+
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index a4dcb1f..4ca9519 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -30,8 +30,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
-- 
2.43.0


From 2e4407adb6de8ae87a4fdfbdad5663d93e2362b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:51 +0000
Subject: [PATCH 19/31] fix: PFA force honours n0_shielding

---
 CasimirRio/PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index c88b0a1..8deec6d 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -183,7 +183,7 @@ class SphereSpherePFA:
         nenner = r1+r2
         if d < r1+r2:
             nenner = max(r1, r2)-min(r1, r2)
-        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0))
+        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0), n0_shielding)
         return force
 
     def distance(self, r1, r2, d, rho):
-- 
2.43.0


From 4a02952436d3f7ab7af47129f39d3b224befb0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:51 +0000
Subject: [PATCH 20/31] fix: PFA energy and gap do not depend on the order of
 the two spheres

---
 CasimirRio/PFA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 8deec6d..d0031aa 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -171,7 +171,7 @@ class SphereSpherePFA:
         """
         Lrho = lambda rho: self.distance(r1, r2, d, rho)
         freeE = quad(lambda rho: 2*np.pi*rho*self.planeplaneFreeEnergy(T, Lrho(rho),
-                                           n0_shielding), 0, r1)[0]
+                                           n0_shielding), 0, min(r1, r2))[0]
         return freeE
 
     def spheresphereForce(self, r1, r2, T, d, n0_shielding = False):
@@ -196,7 +196,8 @@ class SphereSpherePFA:
         if d > r1+r2:
             delta_z = d-r1*sqrt(1-(rho/r1)**2)-r2*sqrt(1-(rho/r2)**2)   
         else:
-            delta_z = r2*sqrt(1-(rho/r2)**2)-d-r1*sqrt(1-(rho/r1)**2)   
+            rG, rK = max(r1, r2), min(r1, r2)
+            delta_z = rG*sqrt(1-(rho/rG)**2)-d-rK*sqrt(1-(rho/rK)**2)   
         return delta_z
 
 
-- 
2.43.0


From c3ab4cc14b7981062ae85636a8ae57239650eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:51 +0000
Subject: [PATCH 21/31] fix: leading-order PFA inside a sphere does not depend
 on the order of the radii

---
 CasimirRio/raw_PFA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index 4ca9519..6b7e3a2 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -157,7 +157,7 @@ class SphereSpherePFA:
         """
         pref = 2*np.pi*(r1*r2)/(r1+r2)
         if not ext:
-            pref = 2*np.pi*(r1*r2)/(r2-r1)
+            pref = 2*np.pi*(r1*r2)/abs(r2-r1)
         if T == 0:
             return pref * self.planeplane_e0(L, n0_shielding)
         if T == np.inf:
@@ -171,7 +171,7 @@ class SphereSpherePFA:
         """
         pref = L*np.pi*r1*r2/(r1+r2)
         if not ext:
-            pref = L*np.pi*r1*r2/(r2-r1)
+            pref = L*np.pi*r1*r2/abs(r2-r1)
 
         if T == 0:
             return pref * self.planeplane_e0(L, n0_shielding)
-- 
2.43.0


From 59f7c7691b622f4faf3e6fb2263a2a2316a54725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:51 +0000
Subject: [PATCH 22/31] fix: get_f_matsubaras leaves the caller's wavenumbers
 alone

---
 CasimirRio/raw_PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index 6b7e3a2..0877e4c 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -107,7 +107,7 @@ class SphereSpherePFA:
         """
         assert type(matsubaras) == np.ndarray
         if matsubaras[0] == 0:
-            matsubaras[0] = 1e-20
+            matsubaras = np.append(np.array([1e-20]), matsubaras[1:])
         norm = 2*np.pi
         integralTE = lambda kn: quad(
                         lambda k_perp: k_perp/norm*self.roundTrips(k_perp, kn, L)[0], 
-- 
2.43.0


From 853a125e7f7d913717175d0a37be84f71009ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:54 +0000
Subject: [PATCH 23/31] fix: free energy and entropy do not depend on an
 earlier request for the force

---
 CasimirRio/thermodynamics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 1ae5615..53abfe4 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -75,6 +75,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """compute the Casimir free energy times 2π/ℏc in units of micrometers
 
         """
+        self.forceFlag = 0
         if self.f_matsubaras is None:
             self.f_matsubaras = self.get_f_matsubaras(0)
         Ts = self.deltaT*np.arange(1, self.maxstep+1)
@@ -98,8 +99,6 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """compute the Casimir entropy in units of the Boltzmann-constant.
 
         """
-        if self.f_matsubaras is None:# ??? Was ist wenn zunächst force berechnet wurde und forceFlag jetzt auf 1 steht?
-            self.f_matsubaras = self.get_f_matsubaras(0)
         S_T = - np.gradient(self.free_energy(), self.deltaT)
         return S_T
 
-- 
2.43.0


From b2e5cab3436b19bc031c9e856333fff8aded33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:54 +0000
Subject: [PATCH 24/31] fix: the first slice of force terms holds forces, not
 energies

---
 CasimirRio/thermodynamics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 53abfe4..8a1b5db 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -148,6 +148,11 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """create an array with elements F(matsubaras)
 
         """
+        if self.forceFlag and matsubaras[0] == 0:
+            F_n_0 = 0.5 * self.geometry.mSum_trace_dot(np.array([1e-10]))
+            if len(matsubaras) == 1:
+                return F_n_0
+            return np.append(F_n_0, self.geometry.mSum_trace_dot(matsubaras[1:]))
         if matsubaras[0] == 0:
             if not self.forceFlag and self.analytic_n0:
                 F_n_0 = 0.5 * self.geometry.mSumme_k0()
-- 
2.43.0


From 13d93c21aacd540b373dd4677db0d92a5a47416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:54 +0000
Subject: [PATCH 25/31] fix: number of processes is validated and parallel
 evaluation reports that it is not implemented

---
 CasimirRio/thermodynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 8a1b5db..878457b 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -27,7 +27,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         self.__version__ = "SVN Revision "+str("".join(list(filter(str.isdigit, 
                                                                 "$Revision: 952 $"))))
         self.deltaT = deltaT
-        if not type(nprocs) == int and nprocs >= 0:
+        if not (type(nprocs) == int and nprocs >= 0):
             raise ValueError("number of processes for parallelization must be positive \
                              but given was", nprocs)
         self.nprocs = nprocs
@@ -232,7 +232,7 @@ def slicewise_eval(func, nmin, nmax, stepsize=200):
         nmin = nmax_sl+1
     return result 
 
-def multiproc_silcewise_eval(func, nmin, nmax):
+def multiproc_slicewise_eval(func, nmin, nmax, stepsize=200):
     raise NotImplementedError("multiprocessing not yet implemented!")
 
 if __name__ == "__main__":
-- 
2.43.0


From 1a2c4d64e9aacf445defba9c53f3bb7606b81453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:35 +0000
Subject: [PATCH 26/31] fix: a job never overwrites an existing result file

---
 CasimirRio/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 492fae1..cde965a 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -149,7 +149,7 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    if os.path.exists(foutput):
+    while os.path.exists(foutput):
         foutput += "1"
     outfile = open(foutput, "w")
     comment = job_infos()
-- 
2.43.0


From d22ef86ce28ff9c66a7cf973ef4019befbc04146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:35 +0000
Subject: [PATCH 27/31] fix: a job honours analytic_n0 and may leave it out

---
 CasimirRio/worker.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index cde965a..fffae7b 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -108,10 +108,9 @@ def do_calculation():
         if not nmax == "automatic":
             print("nmax has to be given as integer or \"automatic\"") 
     try:
-        analytic_n0 = config.get("geometry", "analytic_n0")
-    except ValueError:
-        print("analytic_n0 is not given correctly: ", analytic_n0)
-    analytic_n0 = True
+        analytic_n0 = config.getboolean("geometry", "analytic_n0")
+    except ConfigParser.NoOptionError:
+        analytic_n0 = True
     if type(geom.r1) == list or type(geom.r2) == list:
         analytic_n0 = False
     Tmax = config.getfloat("thermodynamics", "Tmax")
-- 
2.43.0


From d83163995747adf573e0a1e6bc7abc057cd7cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:35 +0000
Subject: [PATCH 28/31] fix: a job may ask for precision "automatic"

---
 CasimirRio/worker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index fffae7b..242c581 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -53,8 +53,9 @@ def return_geometry():
     try:
         precision = config.getfloat("geometry", "precision")
     except ValueError:
-        if not precision == "automatic":
-            print("precision has to be a float or \"automatic\"")
+        if not config.get("geometry", "precision") == "automatic":
+            raise ValueError("precision has to be a float or \"automatic\"")
+        precision = 1e-4
     try:
         lmax = config.getint("geometry", "lmax")
     except ValueError:
-- 
2.43.0


From 844b3e5ed746ee72175c7a2633c56d660247962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:35 +0000
Subject: [PATCH 29/31] fix: a job with lmax "automatic" may leave out l_offset

---
 CasimirRio/worker.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 242c581..c97f0a1 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -60,11 +60,6 @@ def return_geometry():
         lmax = config.getint("geometry", "lmax")
     except ValueError:
         lmax = config.get("geometry", "lmax")
-        if lmax == "automatic":
-            try:
-                l_offset = config.getint("geometry", "l_offset")
-            except ValueError:
-                l_offset = None      
         if not lmax == "automatic":
             print("lmax has to be given as integer or \"automatic\"") 
     try:
-- 
2.43.0


From 0ec0123fc5da51d62df398f984faa550ce76d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:06 +0000
Subject: [PATCH 30/31] fix: converting oscillator strengths leaves the given
 list alone

---
 CasimirRio/materials_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/materials_converter.py b/CasimirRio/materials_converter.py
index ced384a..dc0dd17 100644
--- a/CasimirRio/materials_converter.py
+++ b/CasimirRio/materials_converter.py
@@ -10,7 +10,7 @@ def transform(params):
     eV = 1.60218e-19
     hbar = 1.05457e-34
     omega_eV = eV/hbar
-    t_params = params.copy()
+    t_params = [list(osciallator) for osciallator in params]
     for i, osciallator in enumerate(params):
         t_params[i][0] = sqrt(osciallator[0]*(osciallator[1]*omega_eV)**2)
         t_params[i][1] = osciallator[1]*omega_eV
-- 
2.43.0


From 1b70ba0c65fdebe8ddd34d4f32c74a3612b9446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:36 +0000
Subject: [PATCH 31/31] fix: translation coefficients use the refractive index
 of a magnetic medium

---
 CasimirRio/translation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/translation.py b/CasimirRio/translation.py
index e4fb086..c9e6dd0 100644
--- a/CasimirRio/translation.py
+++ b/CasimirRio/translation.py
@@ -51,7 +51,7 @@ class translation:
             self.trans_k0 = self.trans_k0_int
         if not (k == 0).any():
             self.bessels = bessel_sk.trans_bessels(self.k*self.L*
-                 np.sqrt(self.medium.epsilon(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
+                 np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
         self.forceFlag = forceFlag
         if self.forceFlag:
             self.get_vl1l2 = self.get_vl1l2_force
@@ -181,7 +181,7 @@ class translation:
         lppmax = l1+l2
         lpp = np.arange(abs(l1-l2), lppmax+1, 2)[np.newaxis, :]
         gaunt = self.gnt(l1, l2, self.m)
-        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)))[:, np.newaxis]
+        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)))[:, np.newaxis]
         sphB, skalierung = self.get_scaled_bessels(l1, l2, lpp)
         sphB_gnt = sphB * gaunt
         sgn_ba = (-1)**lpp
-- 
2.43.0

