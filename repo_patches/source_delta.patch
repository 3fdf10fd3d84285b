From 04ac0b098c012b33295501f465a8406cdbd94dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:51 +0000
Subject: [PATCH 01/11] fix: zero-frequency round-trip matrices with current
 NumPy

np.float no longer exists (NumPy >= 1.24), so every job with the analytic
zeroth Matsubara term crashed. It could never convert the index array of the
internal geometry either.
---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 6e4b0d9..56da6a2 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -230,7 +230,7 @@ class SphereSphere:
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
         lss = np.arange(lmin, self.lssmax+1)[np.newaxis, np.newaxis, :]
-        sgn = (-1)**np.float(lss-l1)        
+        sgn = (-1.0)**(lss-l1)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
         distance_dep = np.log(r1/r2) + l1*np.log(r1/L)+2*lss*np.log(L/r2) + l2*np.log(r1/L)
@@ -261,7 +261,7 @@ class SphereSphere:
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
-        lss = np.arange(lmin, self.lssmax+1, dtype = np.float)[np.newaxis, np.newaxis, :]
+        lss = np.arange(lmin, self.lssmax+1, dtype = float)[np.newaxis, np.newaxis, :]
         sgn = (-1)**(lss-l2)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
-- 
2.43.0


From 5a666162539c623df7d09f37179443b20fc140fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:39 +0000
Subject: [PATCH 02/11] fix: keep the cached Mie coefficients of a geometry
 consistent

The wavenumbers and the two sets of coefficients were stored one after the
other, so an interrupted or concurrent evaluation left coefficients of one
set of wavenumbers labelled with another. The first evaluation moreover
returned them without restricting to l >= m, and the zero-frequency
coefficients were cached for the m asked for first.
---
 CasimirRio/geometry.py | 72 ++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 37 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 56da6a2..50c1f48 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -48,7 +48,8 @@ class SphereSphere:
         self.r1 = r1
         self.r2 = r2
         self.L = L
-        self.K = None
+        self.mie_cache = (None, None, None)
+        self.mie_cache_k0 = None
         self.mat1 = mat1
         self.mat2 = mat2
         self.mat3 = mat3
@@ -90,8 +91,9 @@ class SphereSphere:
          """
         lmin = max(1, m)
         ext_VZ = -1+2*self.ext_flag
-        if np.shape(self.K) == np.shape(k) and (self.K == k).all():
-            mieA_1_lmax, mieB_1_lmax = self.MieA, self.MieB
+        K, mieA, mieB = self.mie_cache
+        if np.shape(K) == np.shape(k) and (K == k).all():
+            mieA_1_lmax, mieB_1_lmax = mieA, mieB
             V = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
                             self.ext_flag, 0).trans_ab()
             V = [V[0][:, :, np.newaxis, ...], V[1][:, np.newaxis, ...],
@@ -127,30 +129,30 @@ class SphereSphere:
             return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
         else:
             if type(self.mat1)== list:
-                self.MieA = strat_scat(self.mat1, self.r1
+                mieA = strat_scat(self.mat1, self.r1
                  ).mie_stratified(k, 1, self.lmax)[..., np.newaxis, np.newaxis]
             else:
-                self.MieA = scattering(self.mat1, self.mat3
+                mieA = scattering(self.mat1, self.mat3
                    ).mie(k, 1, self.lmax, self.r1)[..., np.newaxis, np.newaxis]
             if type(self.mat2) == list:
                 st = strat_scat(self.mat2, self.r2
                  ).mie_stratified(k, 1, self.lssmax)
-                self.MieB = strat_scat(self.mat2, self.r2
+                mieB = strat_scat(self.mat2, self.r2
                  ).mie_stratified(k, 1, self.lssmax)
             else:
                 if not self.ext_flag:
-                    self.MieB = scattering(self.mat3, self.mat2
+                    mieB = scattering(self.mat3, self.mat2
                      ).mie_internal(k, 1, self.lssmax, self.r2)
                 else:
-                    self.MieB = scattering(self.mat2, self.mat3
+                    mieB = scattering(self.mat2, self.mat3
                      ).mie(k, 1, self.lssmax, self.r2)
   
-            self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
-                np.newaxis, :], self.MieB[2][np.newaxis, :, np.newaxis,
+            mieB = np.append(mieB[0:2][:, :, np.newaxis,
+                np.newaxis, :], mieB[2][np.newaxis, :, np.newaxis,
                                                np.newaxis, :],axis=0)          
-            mieA = self.MieA
-            mieB = self.MieB
-            self.K = k.copy()
+            # one assignment, so that neither an interrupted nor a concurrent
+            # evaluation can meet coefficients belonging to other wavenumbers
+            self.mie_cache = (k.copy(), mieA, mieB)
         V = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
                         self.ext_flag, 0).trans_ab()
         V = [V[0][:, :, np.newaxis, ...], V[1][:, np.newaxis, ...],
@@ -166,7 +168,7 @@ class SphereSphere:
                      ]
 
             V.extend(Vdiff)
-        return [mieA, mieB, V]
+        return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
     def roundTrip_elements_k0(self, m, k):
         """Collect all necessyary Mie-coefficients and translation matrices
@@ -179,9 +181,9 @@ class SphereSphere:
             raise ValueError("k has to be np.array([0]), given %s" %(str(k)))
         lmin = max(1, m)
         ext_VZ = -1+2*self.ext_flag
-        try:
-            mieA_k0 = self.MieA_k0
-            mieB_k0 = self.MieB_k0
+        cache = self.mie_cache_k0
+        if cache is not None:
+            mieA_k0, mieB_k0 = cache
             V_k0 = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
                             self.ext_flag, 0).trans_ab()
             V_k0 = [V_k0[0][:, np.newaxis, :], V_k0[0][:, np.newaxis,:].transpose(1,2,0),
@@ -193,21 +195,20 @@ class SphereSphere:
                 V.extend(Vdiff)
             return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
 
-        except AttributeError:
+        else:
             if type(self.mat1)==list or type(self.mat2)==list:
                 raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
                                           " is not yet implemented for stratified spheres")
-            self.MieA_k0 = scattering(self.mat1, self.mat3
-                                   ).mie_k0(lmin, self.lmax, self.r1
+            mieA_k0 = scattering(self.mat1, self.mat3
+                                   ).mie_k0(1, self.lmax, self.r1
                                          )[:, :, np.newaxis, np.newaxis]
             if not self.ext_flag:
-                self.MieB_k0 = scattering(self.mat3, self.mat2
-                    ).mie_internal_k0(lmin, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
+                mieB_k0 = scattering(self.mat3, self.mat2
+                    ).mie_internal_k0(1, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
             else:
-                self.MieB_k0 = scattering(self.mat2, self.mat3
-                             ).mie_k0(lmin, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
-            mieA_k0 = self.MieA_k0
-            mieB_k0 = self.MieB_k0
+                mieB_k0 = scattering(self.mat2, self.mat3
+                             ).mie_k0(1, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
+            self.mie_cache_k0 = (mieA_k0, mieB_k0)
         V_k0 = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
                         self.ext_flag, 0).trans_ab()
         V_k0 = [V_k0[0][:, np.newaxis, :], V_k0[0][:, np.newaxis,:].transpose(1,2,0),
@@ -217,7 +218,7 @@ class SphereSphere:
                                       "is not implemented, yet.")
 
             V.extend(Vdiff)
-        return [mieA_k0, mieB_k0, V_k0]
+        return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
 
     def blockmatrices_k0_int(self, m):
         """ Returns a list of two blockmatrices corresponding to a subspace
@@ -630,24 +631,21 @@ class CoatedSphereSphere(SphereSphere):
         """
         lmin = max(1, m)
         ext_VZ = -1+2*self.ext_flag
-        if np.shape(self.K) == np.shape(k) and (self.K == k).all():
-            mieA, mieB = self.MieA, self.MieB
-        else:
-            self.MieA = coated_miescattering(
+        K, mieA, mieB = self.mie_cache
+        if not (np.shape(K) == np.shape(k) and (K == k).all()):
+            mieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
                 ).mie_coated(k, self.lmax, self.r1_i,
                              self.r1_a)[..., np.newaxis, np.newaxis]
-            self.MieB = coated_miescattering(self.mat2core, self.mat2coat,
+            mieB = coated_miescattering(self.mat2core, self.mat2coat,
                                              self.matMd).mie_coated(
                 k, self.lssmax, self.r2_i, self.r2_a)
-            self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
+            mieB = np.append(mieB[0:2][:, :, np.newaxis,
                                                  np.newaxis, :]**ext_VZ,
-                                  self.MieB[2][np.newaxis, :, np.newaxis,
+                                  mieB[2][np.newaxis, :, np.newaxis,
                                                np.newaxis, :]*ext_VZ,
                                   axis=0)
-            mieA = self.MieA
-            mieB = self.MieB
-            self.K = k.copy()
+            self.mie_cache = (k.copy(), mieA, mieB)
         V = translation(self.lmax, self.lssmax, m, self.matMd, self.L, k,
                         self.ext_flag, 0).trans_ab()
         V = [V[0][:, :, np.newaxis, ...], V[1][:, np.newaxis, ...],
-- 
2.43.0


From 626e1816fbd09cbcc2b8ca0d2cd59d390f065744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:51 +0000
Subject: [PATCH 03/11] fix: evaluating a supermatrix does not switch the
 geometry to forces

supermatrix() stored its forceFlag argument in the geometry, so that every
later evaluation (and every one running in another thread) used it.
---
 CasimirRio/geometry.py | 53 ++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 50c1f48..636a4d6 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -82,13 +82,15 @@ class SphereSphere:
         else: 
             self.blockmatrices_k0 = self.blockmatrices_k0_int
 
-    def roundTrip_elements(self, m, k):
+    def roundTrip_elements(self, m, k, forceFlag=None):
         """Collect all necessary Mie-coefficients and translation matrices
            to describe the round-trip block-matrix in a subspace of m, the 
            z-projection of the angular momentum l in a spherical multipole 
            basis for a numpy array of wavenumbers k.
 
          """
+        if forceFlag is None:
+            forceFlag = self.forceFlag
         lmin = max(1, m)
         ext_VZ = -1+2*self.ext_flag
         K, mieA, mieB = self.mie_cache
@@ -98,9 +100,9 @@ class SphereSphere:
                             self.ext_flag, 0).trans_ab()
             V = [V[0][:, :, np.newaxis, ...], V[1][:, np.newaxis, ...],
                  V[2][:, :, np.newaxis, ...], V[3][:, np.newaxis, ...], V[4]]
-            if self.forceFlag:
+            if forceFlag:
                 Vdiff = translation(self.lmax, self.lssmax, m, self.mat3,
-                                    self.L, k, self.ext_flag, self.forceFlag
+                                    self.L, k, self.ext_flag, forceFlag
                                     ).trans_ab()
                 Vdiff = [Vdiff[0][:, :, np.newaxis, ...],
                          Vdiff[1][:, np.newaxis, ...],
@@ -115,9 +117,9 @@ class SphereSphere:
                             self.ext_flag, 0).trans_ab()
             V = [V[0][:, :, np.newaxis, ...], V[1][:, np.newaxis, ...],
                  V[2][:, :, np.newaxis, ...], V[3][:, np.newaxis, ...], V[4]]
-            if self.forceFlag:
+            if forceFlag:
                 Vdiff = translation(self.lmax, self.lssmax, m, self.mat3,
-                                    self.L, k, self.ext_flag, self.forceFlag
+                                    self.L, k, self.ext_flag, forceFlag
                                     ).trans_ab()
                 Vdiff = [Vdiff[0][:, :, np.newaxis, ...],
                          Vdiff[1][:, np.newaxis, ...],
@@ -157,9 +159,9 @@ class SphereSphere:
                         self.ext_flag, 0).trans_ab()
         V = [V[0][:, :, np.newaxis, ...], V[1][:, np.newaxis, ...],
              V[2][:, :, np.newaxis, ...], V[3][:, np.newaxis, ...], V[4]]
-        if self.forceFlag:
+        if forceFlag:
             Vdiff = translation(self.lmax, self.lssmax, m, self.mat3,
-                                self.L, k, self.ext_flag, self.forceFlag
+                                self.L, k, self.ext_flag, forceFlag
                                 ).trans_ab()
             Vdiff = [Vdiff[0][:, :, np.newaxis, ...],
                      Vdiff[1][:, np.newaxis, ...],
@@ -170,13 +172,15 @@ class SphereSphere:
             V.extend(Vdiff)
         return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
-    def roundTrip_elements_k0(self, m, k):
+    def roundTrip_elements_k0(self, m, k, forceFlag=None):
         """Collect all necessyary Mie-coefficients and translation matrices
            to describe the round-trip block-matrix in a subspace of m, the 
            z-projection of the angular momentum l in a spherical multipole 
            basis at zero frequency.
 
          """
+        if forceFlag is None:
+            forceFlag = self.forceFlag
         if not type(k)==np.ndarray and len(k) == 1 and k[0] == 0:
             raise ValueError("k has to be np.array([0]), given %s" %(str(k)))
         lmin = max(1, m)
@@ -188,7 +192,7 @@ class SphereSphere:
                             self.ext_flag, 0).trans_ab()
             V_k0 = [V_k0[0][:, np.newaxis, :], V_k0[0][:, np.newaxis,:].transpose(1,2,0),
                  V_k0[1][:, np.newaxis, :]]
-            if self.forceFlag:
+            if forceFlag:
                 raise NotImplementedError("Force evaluation of zero frequency "+
                                           "is not implemented, yet.")
 
@@ -213,19 +217,19 @@ class SphereSphere:
                         self.ext_flag, 0).trans_ab()
         V_k0 = [V_k0[0][:, np.newaxis, :], V_k0[0][:, np.newaxis,:].transpose(1,2,0),
              V_k0[1][:, np.newaxis, :]]
-        if self.forceFlag:
+        if forceFlag:
             raise NotImplementedError("Force evaluation of zero frequency "+
                                       "is not implemented, yet.")
 
             V.extend(Vdiff)
         return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
 
-    def blockmatrices_k0_int(self, m):
+    def blockmatrices_k0_int(self, m, forceFlag=None):
         """ Returns a list of two blockmatrices corresponding to a subspace
             of m at zero frequency
 
         """
-        MieA, MieB, V = self.roundTrip_elements_k0(m, np.array([0]))
+        MieA, MieB, V = self.roundTrip_elements_k0(m, np.array([0]), forceFlag)
         r1, r2, L = self.r1, self.r2, self.L
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
@@ -251,13 +255,13 @@ class SphereSphere:
         TEmag[condition], TMmag[condition] = 0, 0
         return [(TEsgn*TEmag).sum(axis=-1), (TMsgn*TMmag).sum(axis=-1)]
 
-    def blockmatrices_k0_ext(self, m):
+    def blockmatrices_k0_ext(self, m, forceFlag=None):
         """ Returns a list of two blockmatrices corresponding to a subspace
             of m at zero frequency
 
         """
 
-        MieA, MieB, V = self.roundTrip_elements_k0(m, np.array([0]))
+        MieA, MieB, V = self.roundTrip_elements_k0(m, np.array([0]), forceFlag)
         r1, r2, L = self.r1, self.r2, self.L
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
@@ -280,7 +284,7 @@ class SphereSphere:
             TEmag = np.exp(ln_TEmag)
         return [(TEsgn*TEmag).sum(axis=-1), (TMsgn*TMmag).sum(axis=-1)]
 
-    def blockmatrices(self, m, matsubaras):
+    def blockmatrices(self, m, matsubaras, forceFlag=None):
         """Returns a list of matrices of dimension 
            (len(matsubaras), (lmax-max(m-1,0),lmax-max(m-1,0))
            which correspond to the entries of the round-trip matrix 
@@ -288,11 +292,13 @@ class SphereSphere:
            for a numpy array of matsubara wavenumbers.
 
         """
+        if forceFlag is None:
+            forceFlag = self.forceFlag
         k0_evaluation = False
         if matsubaras[0] == 0:
             k0_evaluation = True
             matsubaras = matsubaras[1:]
-        MieA, MieB, V = self.roundTrip_elements(m, matsubaras)
+        MieA, MieB, V = self.roundTrip_elements(m, matsubaras, forceFlag)
         V[4] = V[4][..., np.newaxis]
         dct = {"aTE": MieA[0], "V0": V[0], "bTE": MieB[0], "V1": V[1],
                "aTM": MieA[1], "V2": V[2], "bTM": MieB[1], "V3": V[3],
@@ -302,7 +308,7 @@ class SphereSphere:
         log_skalierung = ne.evaluate("a2+b2+V4+V4t", dct)
         skal = dynamic_scaling(log_skalierung)
         dct["skal"] = skal
-        if self.forceFlag:
+        if forceFlag:
             if m == 0:
                 V83 = 0
                 V72 = 0
@@ -321,7 +327,7 @@ class SphereSphere:
         mMM = ne.evaluate("skal * aTM*(V2*bTE*V3*V23\
                                        + V0*bTM*V1*V01)", dct).sum(axis=3)
         if k0_evaluation:
-            mEE_k0, mMM_k0 = self.blockmatrices_k0(m)
+            mEE_k0, mMM_k0 = self.blockmatrices_k0(m, forceFlag)
             mEE_k0, mMM_k0 = mEE_k0[np.newaxis,...], mMM_k0[np.newaxis,...]
             mEM_k0 = np.zeros(mEE_k0.shape)
             mEE = np.append(mEE_k0, mEE, axis=0)
@@ -585,8 +591,7 @@ class SphereSphere:
            matrices returned by the blockmatrices() method.
 
         """
-        self.forceFlag = forceFlag
-        Ms = self.blockmatrices(m, matsubaras)
+        Ms = self.blockmatrices(m, matsubaras, forceFlag)
         bigM = np.append(Ms[0], Ms[1], axis=2)
         bigM = np.append(bigM, np.append(Ms[2], Ms[3], axis=2), axis=1)
         return bigM
@@ -622,13 +627,15 @@ class CoatedSphereSphere(SphereSphere):
         self.r1_a = self.r1
         self.r2_a = self.r2
 
-    def roundTrip_elements(self, m, k):
+    def roundTrip_elements(self, m, k, forceFlag=None):
         """collect all necessyary Mie-coefficients and translation matrices
            to describe the round-trip block-matrix in a subspace of m, the z-projection
            of the angularmomentum l in a spherical multipole basis for a numpy array of 
            wavenumbers k.
 
         """
+        if forceFlag is None:
+            forceFlag = self.forceFlag
         lmin = max(1, m)
         ext_VZ = -1+2*self.ext_flag
         K, mieA, mieB = self.mie_cache
@@ -650,9 +657,9 @@ class CoatedSphereSphere(SphereSphere):
                         self.ext_flag, 0).trans_ab()
         V = [V[0][:, :, np.newaxis, ...], V[1][:, np.newaxis, ...],
              V[2][:, :, np.newaxis, ...], V[3][:, np.newaxis, ...], V[4]]
-        if self.forceFlag:
+        if forceFlag:
             Vdiff = translation(self.lmax, self.lssmax, m, self.matMd,
-                                self.L, k, self.ext_flag, self.forceFlag
+                                self.L, k, self.ext_flag, forceFlag
                                 ).trans_ab()
             Vdiff = [Vdiff[0][:, :, np.newaxis, ...],
                      Vdiff[1][:, np.newaxis, ...],
-- 
2.43.0


From 9fe2bb30d8961c6b75d57d5e4f0ba03ed13b1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:00 +0000
Subject: [PATCH 04/11] fix: asking for the force does not change the later
 answers of finiteT

force() left forceFlag set, so that Matsubara terms, free energies and
entropies requested afterwards, or at the same time in another thread, were
evaluated as forces.
---
 CasimirRio/thermodynamics.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d88fe6a..9687f7f 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -85,9 +85,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """compute the Casimir force times 2π/ℏc in units of micrometers squared
 
         """
-        self.forceFlag = 1
         if self.force_matsubaras is None:
-            self.force_matsubaras = self.get_f_matsubaras(0)
+            self.force_matsubaras = self.get_f_matsubaras(0, forceFlag=1)
         Ts = self.deltaT*np.arange(1, self.maxstep+1)
         Force_T = Ts*np.array([self.force_matsubaras[::i].sum()
                                for i in range(1, self.maxstep+1)])
@@ -114,17 +113,17 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                                        self.geometry.mSumme(np.array([x])), a, b)
         return np.array([[F_zeroT[0], F_zeroT[1]]])
 
-    def get_f_matsubaras(self, nmin, schrittweite=50):# ??? Festlegung der schrittweite in free_energy, force,...
+    def get_f_matsubaras(self, nmin, schrittweite=50, forceFlag=None):# ??? Festlegung der schrittweite in free_energy, force,...
         """computes the ln det(1-M(k_n)) of the round-trip operator M(k_n) which depends 
            on the Matsubara wavenumbers k_n for nmin to self.nmax in slices of length
            schrittweite. 
 
         """
         if self.nprocs == 0:
-            f_matsubaras = slicewise_eval(lambda x: self.F_alle(self.deltaT*x),
+            f_matsubaras = slicewise_eval(lambda x: self.F_alle(self.deltaT*x, forceFlag),
                                       nmin, self.nmax, schrittweite)
         else:
-            f_matsubaras = multiproc_slicewise_eval(lambda x: self.F_alle(self.deltaT*x),
+            f_matsubaras = multiproc_slicewise_eval(lambda x: self.F_alle(self.deltaT*x, forceFlag),
                                     nmin, self.nmax, schrittweite)
         return f_matsubaras
 
@@ -144,12 +143,14 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
             w = n*beta
         return freeenergy
 
-    def F_alle(self, matsubaras):
+    def F_alle(self, matsubaras, forceFlag=None):
         """create an array with elements F(matsubaras)
 
         """
+        if forceFlag is None:
+            forceFlag = self.forceFlag
         if matsubaras[0] == 0:
-            if not self.forceFlag and self.analytic_n0:
+            if not forceFlag and self.analytic_n0:
                 F_n_0 = 0.5 * self.geometry.mSumme_k0()
                 if len(matsubaras) == 1:
                     return F_n_0
@@ -159,7 +160,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
-            if self.forceFlag:
+            if forceFlag:
                 return self.geometry.mSum_trace_dot(matsubaras)
             else:
                 return self.geometry.mSumme(matsubaras)
@@ -183,13 +184,15 @@ class oneRoundtrip(finiteT):
     def __init__(self, deltaT, nmax, Tmax, geom):
         finiteT.__init__(self, deltaT, nmax, Tmax, geom)
         self.geometry = geom
-    def F_alle(self, matsubaras):
+    def F_alle(self, matsubaras, forceFlag=None):
         """create an array with elements F(matsubaras)
            using roundtrips up to order = 1
 
         """
+        if forceFlag is None:
+            forceFlag = self.forceFlag
         if matsubaras[0] == 0.:
-            if not self.forceFlag:
+            if not forceFlag:
                 F_n_0 = 0.5 * self.geometry.mSum_oneRoundtrip(np.array([1e-10]))
                 F_n_alle = self.geometry.mSum_oneRoundtrip(matsubaras[1:])
             else:
@@ -197,7 +200,7 @@ class oneRoundtrip(finiteT):
                 F_n_alle = self.geometry.mSum_trace_dot_oneRoundtrip(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
-            if self.forceFlag:
+            if forceFlag:
                 return self.geometry.mSum_trace_dot(matsubaras)
             else:
                 return self.geometry.mSum_oneRoundtrip(matsubaras)
-- 
2.43.0


From 2a330be0f67155f4013af72fe51337573c10114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:08 +0000
Subject: [PATCH 05/11] fix: zeroth Matsubara term in a slice of its own
 without analytic_n0

get_f_matsubaras(0, 1) passed an empty array to the geometry and failed.
---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 9687f7f..72fd000 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -157,6 +157,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
-- 
2.43.0


From 1db94c7c599c65e7f2e9220d972d5afb033d0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:41 +0000
Subject: [PATCH 06/11] fix: stratified scattering does not shorten the lists
 it was given

With an outermost shell made of the surrounding medium, mie_stratified()
removed it from the material and radius lists of the caller, which are also
those of the geometry and of every other object built from them.
---
 CasimirRio/stratified_sphere_scattering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/stratified_sphere_scattering.py b/CasimirRio/stratified_sphere_scattering.py
index 8c0cb0d..08018aa 100644
--- a/CasimirRio/stratified_sphere_scattering.py
+++ b/CasimirRio/stratified_sphere_scattering.py
@@ -42,9 +42,8 @@ class StratifiedMieScattering(scattering):
         scInnermost = scattering(self.mat_list[0], self.mat_list[1])
         inner_Mie = scInnermost.mie(k, lmin, lmax, self.r_list[0])
         if self.mat_list[-1] == self.mat_list[-2] and len(self.mat_list) >=3:
-            self.mat_list.pop(-1)
-            self.r_list.pop(-1)
-            return self.mie_stratified(k, lmin, lmax) 
+            return StratifiedMieScattering(self.mat_list[:-1], self.r_list[:-1]
+                                           ).mie_stratified(k, lmin, lmax) 
             
         for i in range(1, len(self.r_list)):
             ri, ra = self.r_list[i-1], self.r_list[i]
-- 
2.43.0


From 98313750897cfbb84ff9691b3b2669befeb71c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:50 +0000
Subject: [PATCH 07/11] fix: raw_PFA.get_f_matsubaras does not overwrite its
 argument

---
 CasimirRio/raw_PFA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index a4dcb1f..b7c96cc 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -107,6 +107,7 @@ class SphereSpherePFA:
         """
         assert type(matsubaras) == np.ndarray
         if matsubaras[0] == 0:
+            matsubaras = matsubaras.copy()
             matsubaras[0] = 1e-20
         norm = 2*np.pi
         integralTE = lambda kn: quad(
-- 
2.43.0


From 8754e024590343e43a8515e92fb352bb0e377656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:56 +0000
Subject: [PATCH 08/11] fix: materials_converter.transform does not convert its
 argument in place

The copy was shallow, so the caller's oscillators were overwritten and a
second call converted them twice.
---
 CasimirRio/materials_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/materials_converter.py b/CasimirRio/materials_converter.py
index ced384a..dc0dd17 100644
--- a/CasimirRio/materials_converter.py
+++ b/CasimirRio/materials_converter.py
@@ -10,7 +10,7 @@ def transform(params):
     eV = 1.60218e-19
     hbar = 1.05457e-34
     omega_eV = eV/hbar
-    t_params = params.copy()
+    t_params = [list(osciallator) for osciallator in params]
     for i, osciallator in enumerate(params):
         t_params[i][0] = sqrt(osciallator[0]*(osciallator[1]*omega_eV)**2)
         t_params[i][1] = osciallator[1]*omega_eV
-- 
2.43.0


From d37921f34c0bba0d17e07f7af00ec0e182b33302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:03 +0000
Subject: [PATCH 09/11] fix: Bessel functions I for arguments that are not in
 ascending order

Small and large arguments were evaluated separately and appended, so that
with both present the results landed at the wrong arguments unless the
small ones came first.
---
 CasimirRio/bessel_sk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 655f4d9..7309a97 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -71,8 +71,9 @@ def lniknu(x, lmax):
         i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
         i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
         i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-        i0 = np.append(i0sm, i0lg, axis=0)
-        i1 = np.append(i1sm, i1lg, axis=0)
+        i0, i1 = np.empty(len(x)), np.empty(len(x))
+        i0[sm], i0[lg] = i0sm, i0lg
+        i1[sm], i1[lg] = i1sm, i1lg
     else:
         if xsm.shape[0] == 0:
             i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-- 
2.43.0


From 203663834de83dffacee345c90e603d3030563af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:19 +0000
Subject: [PATCH 10/11] fix: never truncate, overwrite or half-write a result
 file

The third job with the same output name overwrote the result of the second,
jobs running at the same time overwrote each other, and a job that was
killed or ran out of disk space left a truncated file that looks like a
result. Write to a temporary name first and publish the complete result
under a name that is reserved exclusively.
---
 CasimirRio/worker.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 492fae1..1ee3f56 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -144,20 +144,43 @@ def job_infos():
                    "# %s \n" %str(geom.roundTrip_dct))
     return log_data
 
+def create_new(filename):
+    """creates a file which did not exist before; as long as the name is
+       already taken a 1 is appended to it.
+
+    """
+    while True:
+        try:
+            return open(filename, "xb")
+        except FileExistsError:
+            filename += "1"
+
 def save_result(result, foutput):
     """saves the desired results to the specified output file which 
        was initially passed as the second command-line argument.
 
+       The result is written under a temporary name first, such that the
+       output file never contains an incomplete result, and never replaces
+       a file which has been there before.
+
     """
-    if os.path.exists(foutput):
-        foutput += "1"
-    outfile = open(foutput, "w")
     comment = job_infos()
-    outfile.write(comment)
-    outfile.close()
-    outfile = open(foutput, "ab")
-    np.savetxt(outfile, result, delimiter=",")
-    outfile.close()
+    outfile = create_new(foutput + ".part")
+    created = [outfile.name]
+    try:
+        with outfile:
+            outfile.write(comment.encode())
+            np.savetxt(outfile, result, delimiter=",")
+        with create_new(foutput) as placeholder:
+            created.append(placeholder.name)
+        os.replace(outfile.name, placeholder.name)
+    except BaseException:
+        for filename in created:
+            try:
+                os.remove(filename)
+            except OSError:
+                pass
+        raise
 
 save_result(result, foutput)
     
-- 
2.43.0


From 3ae182ed6af87eaf146e18fd096187e1337d320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:18 +0000
Subject: [PATCH 11/11] fix: roundTrip_elements hands out copies of the cached
 Mie coefficients

---
 CasimirRio/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 636a4d6..a140e51 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -111,7 +111,7 @@ class SphereSphere:
                          ]
 
                 V.extend(Vdiff)
-            return [mieA_1_lmax[:, :, lmin-1::, :, :], mieB_1_lmax[:, :, :, :, lmin-1::], V]
+            return [mieA_1_lmax[:, :, lmin-1::, :, :].copy(), mieB_1_lmax[:, :, :, :, lmin-1::].copy(), V]
 
             V = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
                             self.ext_flag, 0).trans_ab()
@@ -170,7 +170,7 @@ class SphereSphere:
                      ]
 
             V.extend(Vdiff)
-        return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
+        return [mieA[:, :, lmin-1::, :, :].copy(), mieB[:, :, :, :, lmin-1::].copy(), V]
 
     def roundTrip_elements_k0(self, m, k, forceFlag=None):
         """Collect all necessyary Mie-coefficients and translation matrices
@@ -197,7 +197,7 @@ class SphereSphere:
                                           "is not implemented, yet.")
 
                 V.extend(Vdiff)
-            return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
+            return [mieA_k0[:, lmin-1::, :, :].copy(), mieB_k0[:, :, :, lmin-1::].copy(), V_k0]
 
         else:
             if type(self.mat1)==list or type(self.mat2)==list:
@@ -222,7 +222,7 @@ class SphereSphere:
                                       "is not implemented, yet.")
 
             V.extend(Vdiff)
-        return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
+        return [mieA_k0[:, lmin-1::, :, :].copy(), mieB_k0[:, :, :, lmin-1::].copy(), V_k0]
 
     def blockmatrices_k0_int(self, m, forceFlag=None):
         """ Returns a list of two blockmatrices corresponding to a subspace
-- 
2.43.0

