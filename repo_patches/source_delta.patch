From f373722867e2419b49c14e1d093d6a596f0fe1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 01/48] fix: normalize the noise with varK when setting up the
 surrogate evaluation

---
 gpgradpy/src/kernel/Kernel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 40b6d6d..f1e7b28 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -193,6 +193,8 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             assert hp_vals.varK  is not None, f'varK is not provided and hp_vals.varK is None, hp_vals = {hp_vals}'
             varK = hp_vals.varK 
             
+        varK_noise = varK # The noise must always be normalized with the actual varK
+        
         if b_normlz_w_varK:
             varK = 1.0
         else:
@@ -215,7 +217,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
         else:
             Kern = self.calc_Kern(Rtensor, theta, hp_kernel)
             
-        Kern_w_noise = Kern + np.diag(noise_vec / varK) 
+        Kern_w_noise = Kern + np.diag(noise_vec / varK_noise) 
         
         if self.wellcond_mtd == 'precon':
             
-- 
2.43.0


From 129b7cbadd5b776122dafccb75c52de37513fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 02/48] fix: calc_noise_vec with unknown noise and no gradients

---
 gpgradpy/src/kernel/Kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index f1e7b28..5680a31 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -335,7 +335,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
                 assert not np.any(np.isnan(std_fval)), f'There are nan values: std_fval = {std_fval}'
                 var_noise = std_fval**2
             else:
-                var_noise = np.full(std_fval.size, hp_vals.var_fval)
+                var_noise = np.full(self.n_eval, hp_vals.var_fval)
             
         else:
             var_noise = np.zeros(self.n_data)
-- 
2.43.0


From dfa0268924bfef805ddab50cac3a93d8af6f82bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 03/48] fix: RatQu kernel matrix with a gradient mask on the
 first set of points only

---
 gpgradpy/src/kernel/KernelRatQuad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index 2cdf6d0..f659f97 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -499,7 +499,7 @@ class KernelRatQuadGradMod:
                 
                 Rtensor_sq_gg   = Rtensor_sq_g1
                 
-                B_m_alpha_m1_g2 = B_m_alpha_m1_g1
+                B_m_alpha_m1_g2 = B_m_alpha_m1
                 B_m_alpha_m1_gg = B_m_alpha_m1_g1
                 
                 B_m_alpha_m2_gg = B_m_alpha_m2_g1
-- 
2.43.0


From 9c03e6892e3211087a2639f1ce2ab647882e5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 04/48] fix: derivative of the gradient-free Matern 5/2 kernel
 with respect to theta

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 33914d6..7b3bd90 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -117,20 +117,14 @@ class KernelMatern5f2Base:
         
         nu_mat = np.sqrt(nu_mat)
         
-        # Take the inverse of nu_mat without causing error for values of zero
-        # Use 1e-16 as min value, does not change final calculations since
-        # nu_mat[i,j] is zero iff Rtensor[k,i,j] is zero for all 0<=k<=(dim-1) 
-        inv_nu_mat = 1 / (2*np.maximum(nu_mat, 1e-16))
-        # inv_nu_mat = np.divide(0.5, nu_mat, out=np.zeros_like(nu_mat[0,0]), where=nu_mat!=0)
-
         sqrt5      = np.sqrt(5)
         Rtensor_sq = Rtensor**2
-        KernBase   = (1 + sqrt5 * nu_mat + (5.0/3.0) * nu_mat**2) * np.exp(-sqrt5 * nu_mat)
+        mat1       = (5.0/3.0) * (1 + sqrt5 * nu_mat) * np.exp(-sqrt5 * nu_mat)
 
         KernBase_grad_th = np.zeros((dim, n1, n1))
 
         for d in range(dim):
-            KernBase_grad_th[d,:,:] = -sqrt5 * Rtensor_sq[d,:,:] * inv_nu_mat * KernBase
+            KernBase_grad_th[d,:,:] = -0.5 * Rtensor_sq[d,:,:] * mat1
 
         return KernBase_grad_th
     
-- 
2.43.0


From bd9a7c3a7e23ea49fcf7fa8e012f1c85dffdede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 05/48] fix: SqExp derivative with respect to theta with a
 gradient mask

---
 gpgradpy/src/kernel/KernelSqExp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index da085a3..304cb4f 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -505,13 +505,14 @@ class KernelSqExpGradMod:
         
         if bvec_use_grad is None:
             n_grad        = n1
-            Rtensor_g1    = Rtensor
+            Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             KernBase_g1   = KernBase_gg   = KernBase
         else:
             n_grad        = np.sum(bvec_use_grad)
             
             Rtensor_g1    = Rtensor[:, bvec_use_grad,:]
+            Rtensor_gg    = Rtensor_g1[:,:,bvec_use_grad]
             
             Rtensor_sq_g1 = Rtensor_sq[:,bvec_use_grad,:]
             Rtensor_sq_gg = Rtensor_sq_g1[:,:,bvec_use_grad]
@@ -549,7 +550,7 @@ class KernelSqExpGradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -4 * theta[i] * Rtensor[d,:,:] * Rtensor[i,:,:] * KernBase
+                term = -4 * theta[i] * Rtensor_gg[d,:,:] * Rtensor_gg[i,:,:] * KernBase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term
                 
-- 
2.43.0


From f5649f67c4ac26fd9c0df79a61be489cf885f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/48] fix: Matern 5/2 derivative with respect to theta with a
 gradient mask

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 7b3bd90..ab4561b 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -562,7 +562,7 @@ class KernelMatern5f2GradMod:
             Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             Abase_g1      = Abase_gg      = Abase
-            mat1_g1       = mat1 
+            mat1_g1       = mat1_gg       = mat1 
             nu_mat_gg     = nu_mat
         else:
             n_grad        = np.sum(bvec_use_grad)
@@ -577,6 +577,7 @@ class KernelMatern5f2GradMod:
             Abase_gg      = Abase_g1[:, bvec_use_grad]
             
             mat1_g1       = mat1[bvec_use_grad, :]
+            mat1_gg       = mat1_g1[:, bvec_use_grad]
             
             nu_mat_g1     = nu_mat[bvec_use_grad,:]
             nu_mat_gg     = nu_mat_g1[:,bvec_use_grad]
@@ -605,7 +606,7 @@ class KernelMatern5f2GradMod:
             KernGrad_grad_th[d, :n1, rd1:rd2] += term.T
             
             # Covariance grad with grad for case of d == i == j
-            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1
+            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1_gg
             
             for i in range(dim):
                 ri1 = n1 + i * n_grad
@@ -617,7 +618,7 @@ class KernelMatern5f2GradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -((25./3.) * theta[i]) * Rtensor_g1[i] * Rtensor_g1[d] * Abase_g1
+                term = -((25./3.) * theta[i]) * Rtensor_gg[i] * Rtensor_gg[d] * Abase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term.T
                 
-- 
2.43.0


From 33216732df4a9daa2e2aeb04fe0c40f7501cd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 07/48] fix: Hessian of the surrogate when only some of the
 gradients are used

---
 gpgradpy/src/eval/GpEvalModel.py       | 18 ++++++++++++------
 gpgradpy/src/kernel/KernelMatern5f2.py |  2 +-
 gpgradpy/src/kernel/KernelRatQuad.py   |  6 +++---
 gpgradpy/src/kernel/KernelSqExp.py     |  2 +-
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index c6bd211..9ff7918 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -149,7 +149,11 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            
+            if self.use_grad:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
+            else:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -283,7 +287,11 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            
+            if self.use_grad:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
+            else:
+                d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -355,8 +363,7 @@ class GpEvalModel(GpMeanFun):
 
     def calc_d2mudx2(self, d2Kxy_dx2):
         
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
-        assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2mudx2 can only be used on one point per call'
+        assert d2Kxy_dx2.shape == (self.dim, self.dim, self.n_data), 'calc_d2mudx2 can only be used on one point per call'
         
         d2mudx2 = np.matmul(d2Kxy_dx2, self.invKernEta_fdiff[None,:,None])[:,:,0]
         
@@ -365,8 +372,7 @@ class GpEvalModel(GpMeanFun):
     def calc_d2sigdx2(self, sig, dsigdx, Kxy_invKernEta, dKxy_dx, d2Kxy_dx2, sigK):
         
         # Preliminaries
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
-        assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2sigdx2 can only be used on one point per call'
+        assert d2Kxy_dx2.shape == (self.dim, self.dim, self.n_data), 'calc_d2sigdx2 can only be used on one point per call'
         
         # Calculate d2sig2_dx2
         term1       = np.matmul(d2Kxy_dx2, Kxy_invKernEta.T[None,:,:]) 
diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index ab4561b..553819c 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -513,7 +513,7 @@ class KernelMatern5f2GradMod:
                     Rj_til   = Rtensor_g2[j] * theta[j]
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = -(25/3) * (theta[i]   * delta_ik * Rj_til 
diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index f659f97..797fe77 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -601,7 +601,7 @@ class KernelRatQuadGradMod:
             rk2 = rk1 + n1
             
             ck1 = n2 + k * n2_grad
-            ck2 = ck1 + n2 
+            ck2 = ck1 + n2_grad
             
             KernGrad_grad_x[k, rk1:rk2, :n2] -= 2 * theta[k] * B_m_alpha_m1
             
@@ -610,7 +610,7 @@ class KernelRatQuadGradMod:
                 ri2 = ri1 + n1
                 
                 ci1 = n2 + i * n2_grad
-                ci2 = ci1 + n2 
+                ci2 = ci1 + n2_grad
                 
                 # Covariance obj with grad
                 KernGrad_grad_x[k, ri1:ri2, :n2] += (scalar1 * theta[i] * theta[k]) * Rtensor[i,:,:] * Rtensor[k,:,:] * B_m_alpha_m2
@@ -624,7 +624,7 @@ class KernelRatQuadGradMod:
                 
                 for j in range(dim):
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         += (scalar2 * theta[i] * theta[j] * theta[k]) * Rtensor_g2[i] * Rtensor_g2[j] * Rtensor_g2[k] * B_m_alpha_m3_g2
diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index 304cb4f..6a432a0 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -458,7 +458,7 @@ class KernelSqExpGradMod:
                     delta_ij = int(i == j)
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = (-4* theta[i] * theta[j] * (delta_ik * Rtensor_g2[j] + delta_jk * Rtensor_g2[i])
-- 
2.43.0


From 72cff42088ebbd76bff52b852e642ab74b4b6d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 08/48] fix: scale the off-diagonal entries of Hessians by both
 of their coordinates

---
 gpgradpy/src/base/Rescaling.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index bb2d613..af9e4db 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -143,7 +143,7 @@ class RescalingObjData:
         
         scale_inv    = 1 / self.xvec_scale[None,:]
         scl_grad_vec = scale_inv    * self.obj_scale
-        scl_hess_vec = scale_inv**2 * self.obj_scale
+        scl_hess_mat = (1 / np.outer(self.xvec_scale, self.xvec_scale)) * self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = None if mu_in       is None else (mu_in - self.obj_shift) * self.obj_scale
@@ -152,8 +152,8 @@ class RescalingObjData:
         dmudx_scl    = None if dmudx_in    is None else dmudx_in    * scl_grad_vec
         dsigdx_scl   = None if dsigdx_in   is None else dsigdx_in   * scl_grad_vec
         
-        d2mudx2_scl  = None if d2mudx2_in  is None else d2mudx2_in  * scl_hess_vec
-        d2sigdx2_scl = None if d2sigdx2_in is None else d2sigdx2_in * scl_hess_vec
+        d2mudx2_scl  = None if d2mudx2_in  is None else d2mudx2_in  * scl_hess_mat
+        d2sigdx2_scl = None if d2sigdx2_in is None else d2sigdx2_in * scl_hess_mat
         
         return mu_scl, sig_scl, dmudx_scl, dsigdx_scl, d2mudx2_scl, d2sigdx2_scl
 
@@ -168,7 +168,7 @@ class RescalingObjData:
         assert self._obj_data_set, 'Must call set_obj_data prior to this method'
         
         scl_grad_vec = self.xvec_scale[None,:]    / self.obj_scale
-        scl_hess_vec = self.xvec_scale[None,:]**2 / self.obj_scale
+        scl_hess_mat = np.outer(self.xvec_scale, self.xvec_scale) / self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu       = None if mu_scl       is None else mu_scl  / self.obj_scale + self.obj_shift
@@ -177,8 +177,8 @@ class RescalingObjData:
         dmudx    = None if dmudx_scl    is None else dmudx_scl    * scl_grad_vec
         dsigdx   = None if dsigdx_scl   is None else dsigdx_scl   * scl_grad_vec
         
-        d2mudx2  = None if d2mudx2_scl  is None else d2mudx2_scl  * scl_hess_vec
-        d2sigdx2 = None if d2sigdx2_scl is None else d2sigdx2_scl * scl_hess_vec
+        d2mudx2  = None if d2mudx2_scl  is None else d2mudx2_scl  * scl_hess_mat
+        d2sigdx2 = None if d2sigdx2_scl is None else d2sigdx2_scl * scl_hess_mat
         
         return mu, sig, dmudx, dsigdx, d2mudx2, d2sigdx2
     
@@ -275,7 +275,7 @@ class RescalingNonlincon:
         dsigdx_scl   = None if dsigdx_in is None else dsigdx_in * scl_vec
         
         # Scale the Hessians
-        scl_vec      = normz_xvec_scale_inv**2 * self.nlc_scale
+        scl_vec      = (1 / np.outer(self.xvec_scale, self.xvec_scale)) * self.nlc_scale
         d2mudx2_scl  = None if d2mudx2_in  is None else d2mudx2_in  * scl_vec
         d2sigdx2_scl = None if d2sigdx2_in is None else d2sigdx2_in * scl_vec
         
@@ -293,7 +293,7 @@ class RescalingNonlincon:
         assert mu_scl.ndim == 2,  f'Unexpected shape for mu_scl of {mu_scl.shape}'
         
         scl_grad_vec  = self.xvec_scale[None,None,:]    / self.nlc_scale
-        scl_hess_vec  = self.xvec_scale[None,None,:]**2 / self.nlc_scale
+        scl_hess_mat  = np.outer(self.xvec_scale, self.xvec_scale) / self.nlc_scale
         
         mu       = None if mu_scl  is None else mu_scl  / self.nlc_scale + self.nlc_shift[None,:]
         sig      = None if sig_scl is None else sig_scl / self.nlc_scale
@@ -306,8 +306,8 @@ class RescalingNonlincon:
             
         dsigdx   = None if dsigdx_scl is None else dsigdx_scl * scl_grad_vec
         
-        d2mudx2  = None if d2mudx2_scl  is None else d2mudx2_scl  * scl_hess_vec
-        d2sigdx2 = None if d2sigdx2_scl is None else d2sigdx2_scl * scl_hess_vec
+        d2mudx2  = None if d2mudx2_scl  is None else d2mudx2_scl  * scl_hess_mat
+        d2sigdx2 = None if d2sigdx2_scl is None else d2sigdx2_scl * scl_hess_mat
         
         return mu, sig, dmudx, dsigdx, d2mudx2, d2sigdx2
     
-- 
2.43.0


From dbc2887c51b9bde266b817479db6390a1dc4d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 09/48] fix: Rescaling.set_xscale_data with a new shift

---
 gpgradpy/src/base/Rescaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index af9e4db..fbd8c7c 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -84,8 +84,8 @@ class RescalingXdata:
                 x_shift = np.zeros(self.dim)
         else:
             assert x_shift_in.size == self.dim, f'Wrong size for x_shift_in: {x_shift_in.shape}'
-            assert x_shift_in.dim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
-            x_shift = 1 * np.atlest_1d(x_shift_in)
+            assert x_shift_in.ndim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
+            x_shift = 1 * np.atleast_1d(x_shift_in)
         
         if xvec_scale_in is None:
             xvec_scale_in = np.ones(self.dim)
-- 
2.43.0


From eab7a9bacbcdb0acb97bd79f5e12da6ba37363df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 10/48] fix: Rescaling.set_xscale_data when nonlinear
 constraints were provided

---
 gpgradpy/src/base/Rescaling.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index fbd8c7c..751149d 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -58,16 +58,13 @@ class RescalingXdata:
             self._calc_n_set_scl_obj()
             
         if self._nlc_data_set:
-            self._calc_n_set_scl_nlc_data()
+            self._calc_n_set_scl_nlc()
             
         if self._boxcon_set:
             self._calc_n_set_scl_boxcon()
             
         if self._lincon_set:
             self._calc_n_set_scl_lincon()
-        
-        if self._nlc_data_set:
-            self._calc_n_set_scl_nonlincon()
     
     def _calc_x_shift_n_scale(self, x_shift_in = None, xvec_scale_in = None):
         
-- 
2.43.0


From e94b44e35e6f55954994655a45f7192e8d5381de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 11/48] fix: defaults of Rescaling.set_nlc_data and data
 without standard deviations

---
 gpgradpy/src/base/Rescaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 751149d..7a37ea6 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -264,7 +264,7 @@ class RescalingNonlincon:
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = (mu_in - self.nlc_shift[None,:]) * self.nlc_scale
-        sig_scl      = sig_in * self.nlc_scale 
+        sig_scl      = None if sig_in is None else sig_in * self.nlc_scale 
         
         # Scale the gradients
         scl_vec      = normz_xvec_scale_inv * self.nlc_scale
@@ -340,7 +340,7 @@ class RescalingNonlincon:
             assert self._obj_data_set, 'Must call set_obj_data prior to this method'
             nlc_scale = self.obj_scale
         else:
-            raise Exception(f'Unavailable method of obj_scl_method = {self.obj_scl_method}')
+            raise Exception(f'Unavailable method of nlc_scl_method = {self.nlc_scl_method}')
         
         return nlc_shift, nlc_scale
         
@@ -482,7 +482,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         assert self._obj_data_set, 'Must call the method set_obj_data prior to this method'
         return self.obj_scl, self.std_obj_scl, self.grad_scl, self.std_grad_scl
         
-    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = 'dflt_max'):
+    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = 'obj_scl'):
         
         n_eval, self.nlc_n = nlc_val_init.shape
         assert self._xdata_set, 'Must call the method set_xdata prior to set_obj_data'
-- 
2.43.0


From de61f5976e0230559f281cf087a434e554a97a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 12/48] fix: check in set_data() that x_eval has one row per
 function value

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 1a41609..1c542db 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -264,7 +264,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         fval = np.atleast_1d(fval).ravel()
         
         assert x_eval.ndim == 2, f'x_eval must be a 2 array but x_eval.ndim = {x_eval.ndim}'
-        assert n_eval == fval.size, 'No. of points do not match with x_eval and fval'
+        assert x_eval.shape == (n_eval, self.dim), f'Shape of x_eval is {x_eval.shape} but it should be {(n_eval, self.dim)}'
         
         if (std_fval is None) or np.any(np.isnan(std_fval)):
             self.known_eps_fval = False
-- 
2.43.0


From 00e27722f9d58f863674d84a883bac3fc4f43dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 13/48] fix: set_data() with a mask that keeps none of the
 gradients

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 1c542db..e270878 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -315,7 +315,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             self.b_fgrad_zero       = True
         elif self.known_eps_fgrad:
             self.b_optz_var_fgrad   = False 
-            self.b_fgrad_zero       = True if (np.max(std_grad) < 1e-10) else False
+            self.b_fgrad_zero       = True if (np.max(std_grad, initial = 0) < 1e-10) else False
         else:
             self.b_optz_var_fgrad   = True 
             self.b_fgrad_zero       = False
-- 
2.43.0


From 41d3c998e87ea499e8d41351e32748bad59f6946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 14/48] fix: accept wellcond_mtd = None, which selects the
 method base

---
 gpgradpy/src/GaussianProcess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index e270878..1513ef2 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -191,12 +191,13 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
     def set_wellcond_mtd(self, wellcond_mtd):
         
+        if wellcond_mtd is None:
+            wellcond_mtd = 'base'
+        
         assert wellcond_mtd in self.wellcond_mtd_avail, \
             f'Requested method not available, wellcond_mtd : {wellcond_mtd}'
             
-        if wellcond_mtd is None:
-            wellcond_mtd = 'base'
-        elif wellcond_mtd == 'rescale_eta_vary':
+        if wellcond_mtd == 'rescale_eta_vary':
             self.cond_eta_is_const = False
             
         if not self.use_grad:
-- 
2.43.0


From a2d582613c4453b2533d0bf70e3780de677d3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 15/48] fix: save and load the data of the surrogate with its
 npz file

---
 gpgradpy/src/base/GpParaDef.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index 9e09b6e..b54b756 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -117,7 +117,7 @@ class GpParaDef:
         assert self._save_data, 'If the method init_optz_surr has not been called, then load_data_surr cannot be used'
         
         if all_data is None: 
-            file2load = self.path_data_acq_npz
+            file2load = self.path_surr_npz
             
             if not os.path.isfile(file2load): return 
             
@@ -209,10 +209,13 @@ class GpParaDef:
                      }
 
         if save2file:
-            if file2save     is None: file2save     = self.path_data_surr_npz
-            if file2save_old is None: file2save_old = self.path_data_surr_old_npz
+            if file2save     is None: file2save     = self.path_surr_npz
+            if file2save_old is None: file2save_old = self.path_surr_old_npz
             
-            self.save_npz_data(data2save, file2save, file2save_old)
+            # Keep the previous version of the file, if there is one
+            if os.path.isfile(file2save): os.replace(file2save, file2save_old)
+            
+            np.savez(file2save, **data2save)
                 
         return data2save
 
-- 
2.43.0


From e7e19ebc7c08b82e2523ce36d5f8577efead8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 16/48] fix: write the text report of the surrogate to its file

---
 gpgradpy/src/base/GpInfo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index b5000fe..3a75f83 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -6,6 +6,7 @@ Created on Sun Jun  6 09:48:36 2021
 @author: andremarchildon
 """
 
+import os
 import numpy as np
 from tabulate import tabulate
 
@@ -31,7 +32,11 @@ class GpInfo:
             print(data2print)
 
         if save2file:
-            self.save_txt_data(data2print, self.path_data_surr_txt, self.path_data_surr_old_txt)
+            # Keep the previous version of the file, if there is one
+            if os.path.isfile(self.path_surr_txt): os.replace(self.path_surr_txt, self.path_surr_old_txt)
+            
+            with open(self.path_surr_txt, 'w') as file:
+                file.write(data2print)
 
         return data2print
 
-- 
2.43.0


From a56693a72ada9f8e097cd79c663f4aa9027631e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 17/48] fix: compare the values of hp_vals with those used to
 set up the model

---
 gpgradpy/src/eval/GpEvalModel.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 9ff7918..4b9eac9 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -22,7 +22,7 @@ class GpEvalModel(GpMeanFun):
         can be evaluated with eval_model()
         '''
         
-        self._hp_vals_model_setup = copy.copy(self.hp_vals)
+        self._hp_vals_model_setup = copy.deepcopy(self.hp_vals)
         
         x_scl, Rtensor        = self.get_scl_x_w_dist()
         fval_scl, _, grad_scl = self.get_scl_eval_data()[:3]
@@ -56,6 +56,25 @@ class GpEvalModel(GpMeanFun):
         else:
             self.invKernEta_fdiff = linalg.cho_solve(KernEta_chofac, f_diff)
         
+    def hp_vals_match_model_setup(self):
+        '''
+        Returns
+        -------
+        bool
+            True if hp_vals holds the values it had when setup_eval_model() was called.
+        '''
+        
+        def is_same(val1, val2):
+            if (val1 is None) or (val2 is None):
+                return val1 is val2
+            
+            return np.array_equal(np.asarray(val1, dtype=float), np.asarray(val2, dtype=float), equal_nan = True)
+        
+        hp_now   = vars(self.hp_vals)
+        hp_setup = vars(self._hp_vals_model_setup)
+        
+        return all(is_same(hp_now[key], hp_setup[key]) for key in hp_setup)
+        
     def eval_model(self, x2model_in, calc_grad = False, calc_hess = False, squeeze_nx = False):
         '''
         Parameters
@@ -102,9 +121,7 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
-        
-        if check_hp_vals is False:
+        if not self.hp_vals_match_model_setup():
             print('hp_vals has changed since setup_eval_model() was called')
             print(f'hp_vals_model_setup = \n{self._hp_vals_model_setup}')
             print(f'hp_vals = \n{self.hp_vals}')
@@ -239,9 +256,7 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
-        
-        if check_hp_vals is False:
+        if not self.hp_vals_match_model_setup():
             print('hp_vals has changed since setup_eval_model() was called')
             print(f'hp_vals_model_setup = \n{self._hp_vals_model_setup}')
             print(f'hp_vals = \n{self.hp_vals}')
-- 
2.43.0


From 5f78c6ca1fa336824908f3b11944a6ac2db3f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 18/48] fix: gradient of the condition number when it is used
 as the objective

---
 gpgradpy/src/optz/OptzLkd.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 56c5406..0c49fa4 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -57,24 +57,24 @@ class OptzLkd(CalcLkd):
             cond_val  = lkd_info.cond
             cond_grad = lkd_info.cond_grad
             
+            # Adjust gradients for terms being optimized with respect to their log values
+            bvec            = self.hp_info_optz_lkd.bvec_log_optz
+            log_hp          = hp_vec[bvec]
+            transformation  = 10**log_hp * np.log(10)
+            
+            if cond_grad is not None:
+                cond_grad[bvec] *= transformation
+            
             if b_chofac_good:
                 ln_lkd_val  = lkd_info.ln_lkd 
                 ln_lkd_grad = lkd_info.ln_lkd_grad
                 
-                # Adjust gradients for terms being optimized with respect to their log values
                 if calc_grad:
-                    bvec            = self.hp_info_optz_lkd.bvec_log_optz
-                    log_hp          = hp_vec[bvec]
-                    transformation  = 10**log_hp * np.log(10)
-                    
                     ln_lkd_grad[bvec] *= transformation
-                
-                    if self.b_use_cond_cstr:
-                        cond_grad[bvec] *= transformation
             else:
                 # If the Cholesky decomposition fails use the condition number as the obj
                 ln_lkd_val  = -cond_val
-                ln_lkd_grad = -cond_grad
+                ln_lkd_grad = None if cond_grad is None else -cond_grad
                 
             # Store values
             self._lkd_val   = ln_lkd_val
-- 
2.43.0


From e8533ab8efc582c6221bf14b48e2802c09a59aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 19/48] fix: condition number of the preconditioned matrix in
 calc_lkd_all()

---
 gpgradpy/src/optz/CalcLkd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index 8887f73..ec90a5f 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -314,10 +314,10 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 lkd_info        = self.calc_lkd_all_w_noise(hp_vals.theta, Kcov_chofac, 
                                                             Kcov_grad_hp, lkd_use_adj_mtd = lkd_use_adj_mtd)
             
-            if calc_cond and calc_grad:
-                lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
-            else:
-                lkd_info.cond = cond_K
+                if calc_cond and calc_grad and (self.wellcond_mtd != 'precon'):
+                    lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
+                else:
+                    lkd_info.cond = cond_K
         else:
             Kern, _, Kern_w_eta, Kern_chofac, cond_K, etaK, idx_etaK_argmax \
                 = self.calc_Kern_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
@@ -338,7 +338,7 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                                                       KernGrad_hp, 
                                                       lkd_use_adj_mtd = lkd_use_adj_mtd)
                 
-                if calc_cond and calc_grad:
+                if calc_cond and calc_grad and (self.wellcond_mtd != 'precon'):
                     lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kern_w_eta, Kern_chofac, KernGrad_hp)
                 else:
                     lkd_info.cond = cond_K
-- 
2.43.0


From 9a3b68f4cff0a9cb3fc7e1fb2157d280a3e07bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 20/48] fix: Frobenius condition number of a covariance matrix
 with varK < 1

---
 gpgradpy/src/optz/GpHparaCon.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index 9457df9..1a70ded 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -235,8 +235,6 @@ class GpHparaCon:
         return cond, cond_grad
     
     def calc_cond_fronorm_w_grad(self, Kmat_w_eta, Kmat_chofac, Kmat_grad_hp = None):
-        assert Kmat_w_eta[0,0] > 1, 'Kmat_w_eta should have diagonal entries greater than 1 since it contains the nugget and noise'
-        
         n     = Kmat_w_eta.shape[0]
         K_inv = cho_solve(Kmat_chofac, np.eye(n))
         
-- 
2.43.0


From f7d71743b5a0f5799efbcaf9e41482be532e2473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 21/48] fix: keep the kernel hyperparameter when it is not
 optimized

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 9694678..9ea56a1 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -80,7 +80,7 @@ class GpHpara:
         if hp_optz_info.has_kernel:
             hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel]
         else:
-            hp_kernel = None
+            hp_kernel = self.hp_kernel # Not optimized, its default value is kept
         
         if hp_optz_info.has_varK:
             assert self.b_has_noisy_data
-- 
2.43.0


From 9f5cd87b914aedf15737515677b5df1ee0a50eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 22/48] fix: drop the unused starts of the feasibility data as
 well

---
 gpgradpy/results/PltOptzResults.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/results/PltOptzResults.py b/gpgradpy/results/PltOptzResults.py
index 20276f6..d37220a 100644
--- a/gpgradpy/results/PltOptzResults.py
+++ b/gpgradpy/results/PltOptzResults.py
@@ -66,6 +66,7 @@ class PltOptzResults:
         else:
             merit_all = merit_all[:, :n_x0_max, :]
             opt_all   = opt_all[:, :n_x0_max, :]
+            fsb_all   = fsb_all[:, :n_x0_max, :]
             
         return merit_all, opt_all, fsb_all
     
-- 
2.43.0


From f34dfe47e9d86486d796b5072526ca4be8883f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 23/48] fix: use the current value of cond_max for the
 constraint on the condition number

---
 gpgradpy/src/optz/OptzLkd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 0c49fa4..25c6dce 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -242,7 +242,11 @@ class OptzLkd(CalcLkd):
         optz_max_init_cond = np.nan
         
         # Set the nonlinear constraints, if any
-        nlc_method = self.condnum_nlc if self.b_use_cond_cstr else []
+        if self.b_use_cond_cstr:
+            self.condnum_nlc.ub = self.cond_max # It may have changed since it was set up
+            nlc_method          = self.condnum_nlc
+        else:
+            nlc_method          = []
 
         ''' Run optimizer '''
         
-- 
2.43.0


From 4a8bca75c83aad203ffa8dbe281e6c6279a3738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 24/48] fix: select the starting points with the current
 versions of smt

---
 gpgradpy/src/optz/GpHparaX0.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 5d52a9c..67eb3e7 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -177,7 +177,10 @@ class GpHparaX0:
             hp_x0       = np.linspace(lhs_lb[0], lhs_ub[0], n_x0+2)[1:-1,None]
         else:
             para_limit  = np.array([lhs_lb, lhs_ub]).T
-            sampling    = LHS(xlimits=para_limit, random_state = 1)
+            try:
+                sampling = LHS(xlimits=para_limit, seed = 1)
+            except (AssertionError, KeyError): # Name of this option in older versions of smt
+                sampling = LHS(xlimits=para_limit, random_state = 1)
             hp_x0       = sampling(n_x0) 
         
         return hp_x0, hp_optz_bounds
-- 
2.43.0


From 036f72015c8c4ae89f3f9a8d4d51a516b4e9373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 25/48] fix: optimize the hyperparameters with the rescaled
 data in the rescaling methods

---
 gpgradpy/src/optz/OptzLkd.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 25c6dce..d68731b 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -139,7 +139,7 @@ class OptzLkd(CalcLkd):
         best_hp, cond_val, surr_optz_info = self.optz_hp_max_lkd(hp_x0, optz_bound)
         
         max_iter      = self.cond_vreq_max_iter
-        theta_all     = np.full((max_iter, self.dim), np.nan)
+        sol_all       = [None] * max_iter
         dist2line_all = np.full(max_iter, np.nan)
         scale_vec_all = np.full((max_iter, self.dim), np.nan)
         
@@ -147,36 +147,35 @@ class OptzLkd(CalcLkd):
             cnt      = 0
             not_done = True
             
-            theta_new_xo = best_hp[self.hp_info_optz_lkd.idx_theta]
-            
             while not_done:
                 x_scl      = self.DataScl.x_scl
                 xvec_scale = self.DataScl.xvec_scale
+                theta_sol  = best_hp[self.hp_info_optz_lkd.idx_theta]
                 
-                theta_new_xo, est_dist2sol, xvec_scale_new = self.rescaling_data_w_theta_sol(x_scl, xvec_scale, theta_new_xo)
+                theta_new_xo, est_dist2sol, xvec_scale_new = self.rescaling_data_w_theta_sol(x_scl, xvec_scale, theta_sol)
                 
-                theta_all[cnt,:]     = theta_new_xo
+                sol_all[cnt]         = (best_hp, cond_val, surr_optz_info)
                 dist2line_all[cnt]   = est_dist2sol
-                scale_vec_all[cnt,:] = xvec_scale_new
+                scale_vec_all[cnt,:] = xvec_scale
                 
                 if (cnt == (max_iter - 1)) or (est_dist2sol < self.cond_vreq_iter_tol):
                     not_done = False
                 else:
                     x0_hp_vec = np.copy(best_hp)
                     x0_hp_vec[self.hp_info_optz_lkd.idx_theta] = theta_new_xo
+                    x0_hp_vec = np.clip(x0_hp_vec, optz_bound.lb, optz_bound.ub)
+                    
+                    self.DataScl.set_xscale_data(xvec_scale_in = xvec_scale_new)
                     
-                    best_hp,cond_val = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[:2]
+                    best_hp, cond_val, surr_optz_info = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)
                 
                 cnt += 1
                 
-            idx_min_dist    = np.nanargmin(dist2line_all)
-            theta_final     = theta_all[idx_min_dist, :]
-            scale_vec_final = scale_vec_all[idx_min_dist, :]
-            
-            self.DataScl.set_xscale_data(xvec_scale_in = scale_vec_final)
+            # Use the solution that is the closest to the line theta_1 = ... = theta_d with its scaling of the data
+            idx_min_dist = np.nanargmin(dist2line_all)
+            best_hp_final, cond_val, surr_optz_info = sol_all[idx_min_dist]
             
-            best_hp_final = np.copy(best_hp)
-            best_hp_final[self.hp_info_optz_lkd.idx_theta] = theta_final
+            self.DataScl.set_xscale_data(xvec_scale_in = scale_vec_all[idx_min_dist, :])
         else:
             best_hp_final = best_hp
         
-- 
2.43.0


From 3ea95629f3191546f82569ebf56af0a29e2960e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 26/48] fix: store the optimized hyperparameter of the kernel

---
 gpgradpy/src/base/GpParaDef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index b54b756..df42357 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -236,7 +236,7 @@ class GpParaDef:
 
         self.hp_beta_all[idx,:]         = hp_vals.beta
         self.hp_theta_all[idx,:]        = hp_vals.theta
-        self.hp_kernel_all[idx]         = hp_vals.kernel
+        self.hp_kernel_all[[idx]]       = hp_vals.kernel # Either a float or an array with one entry
         
         self.hp_varK_all[idx]           = hp_vals.varK
         self.hp_var_fval_all[idx]       = hp_vals.var_fval
-- 
2.43.0


From 1f800d9cc57d13c95dd514d368ee59b965c8751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 27/48] fix: restore the scaling of the data with the stored
 hyperparameters

---
 gpgradpy/src/base/GpHpara.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 9ea56a1..858cd23 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -53,6 +53,10 @@ class GpHpara:
         
         self.hp_vals = hp_vals
         
+        # The hyperparameters depend on the scaling of the data
+        if self.b_use_data_scl and not np.any(np.isnan(self.xvec_rescaling_all[i_optz,:])):
+            self.DataScl.set_xscale_data(xvec_scale_in = self.xvec_rescaling_all[i_optz,:])
+        
     def hp_vec2dataclass(self, hp_optz_info, hp_vec):
         '''
         Parameters
-- 
2.43.0


From b66698c08916905868b8aabf6e5e22a3d9d26709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 28/48] fix: keep the starting point when the optimizer of the
 hyperparameters ends at a worse one

---
 gpgradpy/src/optz/OptzLkd.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index d68731b..4db5e2a 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -285,6 +285,16 @@ class OptzLkd(CalcLkd):
             else:
                 all_con_good[i]   = True
                 
+            # Keep the starting point if the optimizer did not improve on it
+            lkd_x0, _, cond_x0 = self.calc_store_likelihood(x0_i, calc_grad = False)[:3]
+            x0_con_good        = (not self.b_use_cond_cstr) or (cond_x0 < 1.01 * self.cond_max)
+            
+            if x0_con_good and ((not all_con_good[i]) or (-lkd_x0 < res.fun)):
+                optz_sol_all[i,:] = x0_i
+                optz_obj_all[i]   = -lkd_x0
+                optz_cond_all[i]  = cond_x0
+                all_con_good[i]   = True
+                
             if res.success:
                 if all_con_good[i] is False:
                     print('Surr hpara optz: Con FAIL, Optimizer: GOOD')
-- 
2.43.0


From b5aa814f35da87988de0d164491ffc6954813104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 29/48] fix: reject evaluation points with too few coordinates
 for rescaled models

---
 gpgradpy/src/eval/GpEvalModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index 4b9eac9..c40c211 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -116,6 +116,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
+        assert x2model.shape[1] == self.dim, f'x2model_in should have {self.dim} columns but it has shape {x2model_in.shape}'
+        
         nx = x2model.shape[0]
         
         if squeeze_nx:
@@ -251,6 +253,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
+        assert x2model.shape[1] == self.dim, f'x2model_in should have {self.dim} columns but it has shape {x2model_in.shape}'
+        
         nx = x2model.shape[0]
         
         if squeeze_nx:
-- 
2.43.0


From 9970ad758417d85053ecad831c21a2508319f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 30/48] fix: do not evaluate new data with the factorization of
 the previous data

---
 gpgradpy/src/GaussianProcess.py  | 3 +++
 gpgradpy/src/eval/GpEvalModel.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 1513ef2..5e24872 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -294,6 +294,9 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
         ''' Store input data '''
         
+        # The model must be set up again with set_hpara() before it is evaluated
+        self.KernEta_chofac = None
+        
         self._x_eval_in    = x_eval
         self._fval_in      = fval
         self._std_fval_in  = std_fval if self.known_eps_fval  else None
diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index c40c211..c604eed 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -246,6 +246,8 @@ class GpEvalModel(GpMeanFun):
         
         ''' Check inputs '''
         
+        assert self.KernEta_chofac is not None, 'To evaluate the surr the Cholesky decomposition is required'
+        
         if x2model_in.ndim == 1:
             x2model = x2model_in[None,:]
         elif x2model_in.ndim == 2:
-- 
2.43.0


From 1c1a6edfddf7fb1c234fb0030f0934ff7cd275e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 31/48] fix: select the best conditioned start when the
 factorization of other candidates failed

---
 gpgradpy/src/optz/GpHparaX0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 67eb3e7..904ad36 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -45,7 +45,8 @@ class GpHparaX0:
                     cond_all[i]   = lkd_info.cond
             
             if calc_cond:
-                bvec_cond_no_good = cond_all > (1.2*self.cond_max)
+                # The condition number is nan if the Cholesky decomposition failed
+                bvec_cond_no_good = np.logical_not(cond_all <= (1.2*self.cond_max))
                 
                 # Esure theere is at least one valid initial solution
                 if np.sum(bvec_cond_no_good) == bvec_cond_no_good.size:
-- 
2.43.0


From 924e41964244fca96eaf604f0d56f9c7362c5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 32/48] fix: fix: print all the data of the surrogate when
 asked to

---
 gpgradpy/src/base/GpInfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index 3a75f83..7a22f64 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -46,6 +46,9 @@ class GpInfo:
         data2print += self.info_surr_theta(False)
         data2print += self.info_surr_optz(False)
         
+        if print2screen:
+            print(data2print)
+        
         return data2print
 
     def info_surr_options(self, print2screen=True):
-- 
2.43.0


From 00e309dc83494d2e36cb8c4c97dd8c9e7dedc6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 33/48] fix: load all the iterations of the results if no
 maximum is requested

---
 gpgradpy/results/PltOptzResults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/results/PltOptzResults.py b/gpgradpy/results/PltOptzResults.py
index d37220a..7d03bff 100644
--- a/gpgradpy/results/PltOptzResults.py
+++ b/gpgradpy/results/PltOptzResults.py
@@ -23,7 +23,7 @@ class PltOptzResults:
         
         if n_iter_max is None:
             b_clip_iter = True 
-            n_iter_max  = 1000 
+            n_iter_max  = max([np.load(path.join(case_folder, file_i))['merit_all'].shape[1] for file_i in file_vec], default = 0)
         else:
             b_clip_iter = False
         
-- 
2.43.0


From 0d88dc5292fade0338264eb8166a60e0eb9d61f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 34/48] fix: sample the points of the example scripts with
 current versions of smt

---
 gpgradpy/plt/plt_cond.py      | 5 ++++-
 gpgradpy/plt/plt_nugget_1d.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index 576eca9..ec0a7e2 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -101,7 +101,10 @@ nugget_dflt = GP.calc_nugget(n_eval)[1]
 def make_lhs(para_min, para_max, n_eval):
     
     para_limit      = np.array([para_min, para_max]).T
-    xdata_sampling  = LHS(xlimits=para_limit, random_state = 2)
+    try:
+        xdata_sampling = LHS(xlimits=para_limit, seed = 2)
+    except (AssertionError, KeyError): # Name of this option in older versions of smt
+        xdata_sampling = LHS(xlimits=para_limit, random_state = 2)
     x_eval          = xdata_sampling(n_eval) 
     
     return x_eval
diff --git a/gpgradpy/plt/plt_nugget_1d.py b/gpgradpy/plt/plt_nugget_1d.py
index bbab510..5e359da 100644
--- a/gpgradpy/plt/plt_nugget_1d.py
+++ b/gpgradpy/plt/plt_nugget_1d.py
@@ -98,7 +98,10 @@ nugget = GP.calc_nugget(n_eval)[1]
 def make_lhs(para_min, para_max, n_eval):
     
     para_limit      = np.array([para_min, para_max]).T
-    xdata_sampling  = LHS(xlimits=para_limit, random_state = 2)
+    try:
+        xdata_sampling = LHS(xlimits=para_limit, seed = 2)
+    except (AssertionError, KeyError): # Name of this option in older versions of smt
+        xdata_sampling = LHS(xlimits=para_limit, random_state = 2)
     x_eval          = xdata_sampling(n_eval) 
     
     return x_eval
-- 
2.43.0


From 52b10dd05895c27e891468a8c445e1ed2760ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 35/48] fix: create the folder in which the example scripts
 save their figures

---
 gpgradpy/plt/plt_acq.py     | 3 ++-
 gpgradpy/plt/plt_surr_1d.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/plt/plt_acq.py b/gpgradpy/plt/plt_acq.py
index 05b3f64..9e96771 100644
--- a/gpgradpy/plt/plt_acq.py
+++ b/gpgradpy/plt/plt_acq.py
@@ -7,7 +7,7 @@ Created on Thu Jun 22 07:35:41 2023
 """
 
 import numpy as np 
-from os import path
+from os import path, makedirs
 from scipy.stats import norm
 import matplotlib.pyplot as plt
 
@@ -163,6 +163,7 @@ surr_plt.plot_acq(ax, x_exa, acq_val_scl_all, str_acq_vec,
                   )
 
 if save_fig:
+    makedirs(folder_all, exist_ok = True)
     fullpath = path.join(folder_all, 'surr_w_acq_1d.png')
     fig.savefig(fullpath, dpi=dpi)
     
diff --git a/gpgradpy/plt/plt_surr_1d.py b/gpgradpy/plt/plt_surr_1d.py
index 88a3274..9951469 100644
--- a/gpgradpy/plt/plt_surr_1d.py
+++ b/gpgradpy/plt/plt_surr_1d.py
@@ -7,7 +7,7 @@ Created on Thu Jun 22 07:35:41 2023
 """
 
 import numpy as np 
-from os import path
+from os import path, makedirs
 from scipy.stats import norm
 import matplotlib.pyplot as plt
 
@@ -49,6 +49,9 @@ markersize      = 10
 
 folder_all = path.join('figures', '1d_surr')
 
+if save_fig:
+    makedirs(folder_all, exist_ok = True)
+
 ''' Define function of interest '''
 
 xmin = 2.5 
-- 
2.43.0


From 49d5e112def46913f3c866f09c20118091e0a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 36/48] fix: plot the condition number and likelihood with
 gamma_1 along the horizontal axis

---
 gpgradpy/plt/plt_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index ec0a7e2..ccca949 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -187,7 +187,7 @@ def calc_cond_lkd(use_grad, kernel_type, wellcond_mtd = 'precon',
     
     for i in range(n_gamma):
         for j in range(n_gamma):
-            theta    = np.array([theta_vec[i], theta_vec[j]])
+            theta    = np.array([theta_vec[j], theta_vec[i]]) # Columns are along the horizontal axis, ie gamma_1
             hp_vals  = GP.make_hp_class(varK = varK, theta = theta, kernel = hp_kernel)
             lkd_info = GP.calc_lkd_all(hp_vals, calc_lkd = True, calc_cond = True, calc_grad = False)[0]
             
-- 
2.43.0


From c79b789a37b75620ecbcad99b108414383a9942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 37/48] fix: use the relation between theta and gamma of the
 kernel that is plotted

---
 gpgradpy/plt/plt_cond.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index ccca949..e8c42ce 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -181,6 +181,7 @@ def calc_cond_lkd(use_grad, kernel_type, wellcond_mtd = 'precon',
     GP.cond_max   = cond_max
     
     hp_kernel   = GP.hp_kernel_default
+    theta_vec   = GP.gamma2theta(gamma_vec) # Depends on the kernel
     
     lkd_all     = np.full((n_gamma, n_gamma), np.nan)
     condK_all   = np.full((n_gamma, n_gamma), np.nan)
-- 
2.43.0


From 41b8b3a15703182340e5aa616cf9f62c0b755a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 38/48] fix: plot the contour of the maximum condition number
 on top of the likelihood

---
 gpgradpy/plt/plt_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index e8c42ce..5634d74 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -268,7 +268,7 @@ def plot_lkd(fig, ax, scl_lkd_all, log10_condK_all, loc_max_lkd = None, base_fil
         
     if log10_condK_all is not None:
         if np.max(log10_condK_all) > np.log10(cond_max):
-            ax.contour(Xmat_para, Ymat_para, scl_lkd_all, levels=[np.log10(cond_max)])
+            ax.contour(Xmat_para, Ymat_para, log10_condK_all, levels=[np.log10(cond_max)])
     
     fig.colorbar(cs, pad = 0.08, shrink = plt_shrink, aspect = plt_aspect)
     
-- 
2.43.0


From c4d6a99ce873a374b75370b0b145a8f1944a4664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 39/48] fix: record the largest condition number of the
 starting points instead of nan

---
 gpgradpy/src/optz/OptzLkd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 4db5e2a..17b2ae0 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -257,7 +257,7 @@ class OptzLkd(CalcLkd):
             
             if self.b_use_cond_cstr:
                 lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
-                optz_max_init_cond    = np.max((optz_max_init_cond, cond_val))
+                optz_max_init_cond    = np.nanmax((optz_max_init_cond, cond_val))
                 if np.isnan(lkd_val):        optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
             
-- 
2.43.0


From 043899715e93d01edf321709acc1fc6b453314ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 40/48] fix: count the starting points at which the Cholesky
 factorization fails

---
 gpgradpy/src/optz/OptzLkd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 17b2ae0..cab03f4 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -77,6 +77,8 @@ class OptzLkd(CalcLkd):
                 ln_lkd_grad = None if cond_grad is None else -cond_grad
                 
             # Store values
+            self._b_chofac_good = b_chofac_good
+            
             self._lkd_val   = ln_lkd_val
             self._lkd_grad  = ln_lkd_grad
             
@@ -258,7 +260,7 @@ class OptzLkd(CalcLkd):
             if self.b_use_cond_cstr:
                 lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
                 optz_max_init_cond    = np.nanmax((optz_max_init_cond, cond_val))
-                if np.isnan(lkd_val):        optz_n_cho_fail += 1
+                if not self._b_chofac_good:  optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
             
             ''' Optimization '''
-- 
2.43.0


From dfe768b12da338d367641f577ed4ffc7ba37b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 41/48] fix: start from the best conditioned hyperparameters
 when the factorization fails for all of the candidates

---
 gpgradpy/src/optz/GpHparaX0.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 904ad36..7a93ed2 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -42,16 +42,22 @@ class GpHparaX0:
                     
                 if b_chofac_good:
                     ln_lkd_all[i] = lkd_info.ln_lkd 
+                    
+                if calc_cond:
                     cond_all[i]   = lkd_info.cond
             
             if calc_cond:
-                # The condition number is nan if the Cholesky decomposition failed
-                bvec_cond_no_good = np.logical_not(cond_all <= (1.2*self.cond_max))
+                # The likelihood is nan if the Cholesky decomposition failed
+                bvec_cond_no_good = (cond_all > (1.2*self.cond_max)) | np.isnan(ln_lkd_all)
                 
                 # Esure theere is at least one valid initial solution
                 if np.sum(bvec_cond_no_good) == bvec_cond_no_good.size:
                     idx = np.nanargmin(cond_all) 
                     bvec_cond_no_good[idx] = False
+                    
+                    # The likelihood is not available if all Cholesky decompositions failed
+                    if np.isnan(ln_lkd_all[idx]):
+                        ln_lkd_all[idx] = -cond_all[idx]
                 
                 ln_lkd_all[bvec_cond_no_good] = np.nan
             
-- 
2.43.0


From 20447899db13258c376cea42ca9eded60d202c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 42/48] fix: rescale to the min distance of rescale_eta_vary
 when estimating the rescaled hyperparameters

---
 gpgradpy/src/base/GpWellCond.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpWellCond.py b/gpgradpy/src/base/GpWellCond.py
index 1d57e25..9bc40c1 100644
--- a/gpgradpy/src/base/GpWellCond.py
+++ b/gpgradpy/src/base/GpWellCond.py
@@ -54,7 +54,11 @@ class GpWellCondVreq:
             theta_sol     = hp_theta
             log_theta_sol = np.log10(hp_theta)
             
-        vreq = self.calc_mtd_rescale_origin_vreq(n_eval, self.dim)
+        # Min distance between the data points that is kept when they are rescaled
+        if self.wellcond_mtd == 'rescale_eta_vary':
+            vreq = self.vmin_rescale_eta_vary
+        else:
+            vreq = self.calc_mtd_rescale_origin_vreq(n_eval, self.dim)
         
         theta_star_v1   = 10**np.mean(log_theta_sol)
         
-- 
2.43.0


From a25578f9e32f6701695a47ea53e42e23f536ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 43/48] fix: use the requested number of points in the debug
 plot of the likelihood

---
 gpgradpy/src/optz/GpHparaOptz.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaOptz.py b/gpgradpy/src/optz/GpHparaOptz.py
index 5fefd86..0f62059 100644
--- a/gpgradpy/src/optz/GpHparaOptz.py
+++ b/gpgradpy/src/optz/GpHparaOptz.py
@@ -238,7 +238,6 @@ class GpHparaOptz(OptzLkd, GpHparaX0, GpHparaCon, GpHparaGrad):
         n_gamma = self._gp_optz_plt_lkn_nvec
         
         ''' Calculations '''
-        n_gamma   = 10
         vec0 = np.log10(np.logspace(optz_bound.lb[0], optz_bound.ub[0], n_gamma))
         vec1 = np.log10(np.logspace(optz_bound.lb[1], optz_bound.ub[1], n_gamma))
         Xmat_para, Ymat_para = np.meshgrid(vec0, vec1)
-- 
2.43.0


From d01c976e662fe583741accf56ba0498be4c147ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:55 +0000
Subject: [PATCH 44/48] fix: name the hyperparameters theta on the axes of the
 debug plot of the likelihood

---
 gpgradpy/src/optz/GpHparaOptz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaOptz.py b/gpgradpy/src/optz/GpHparaOptz.py
index 0f62059..b8178af 100644
--- a/gpgradpy/src/optz/GpHparaOptz.py
+++ b/gpgradpy/src/optz/GpHparaOptz.py
@@ -263,8 +263,8 @@ class GpHparaOptz(OptzLkd, GpHparaX0, GpHparaCon, GpHparaGrad):
         ax.set_xscale('log')
         ax.set_yscale('log')
         
-        ax.set_xlabel(r'$\gamma_1$', size = self._fs_label)
-        ax.set_ylabel(r'$\gamma_2$', size = self._fs_label, rotation = 0)
+        ax.set_xlabel(r'$\theta_1$', size = self._fs_label)
+        ax.set_ylabel(r'$\theta_2$', size = self._fs_label, rotation = 0)
         
         ax.grid(True)
         ax.tick_params(axis = 'both', which = 'major', labelsize = self._fs_tick)
-- 
2.43.0


From e3612f3663a9d32bc4b5fee0996cf11db723e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:02 +0000
Subject: [PATCH 45/48] fix: relative instead of absolute floor of the smallest
 eigenvalue for cond_grad

With noisy data the covariance matrix is proportional to varK, for data with a
small amplitude its smallest eigenvalue is below 1e-16 and the gradient of the
condition number was too small by orders of magnitude.
---
 gpgradpy/src/optz/GpHparaCon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index 1a70ded..b239997 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -185,7 +185,7 @@ class GpHparaCon:
                 eig_min  = eigval_all[idx_mmin]
                 v_min    = eigvec_all[:,idx_mmin]
                 
-                eig_min_mod  = np.max((eig_min, 1e-16))
+                eig_min_mod  = np.max((eig_min, 1e-16 * eigval_all[idx_max]))
                 
                 v_outer_diff = np.outer(v_max, v_max) - cond * np.outer(v_min, v_min)
                 cond_grad    = np.zeros(nder)
-- 
2.43.0


From 7524424cfe6fa8c9164ed0786e0b989f43929867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:26 +0000
Subject: [PATCH 46/48] fix: convert data and evaluation points of other types
 to double precision

---
 gpgradpy/src/GaussianProcess.py  |  7 +++++++
 gpgradpy/src/base/Rescaling.py   | 30 ++++++++++++++++++------------
 gpgradpy/src/eval/GpEvalModel.py |  4 ++++
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 5e24872..43d7aed 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -294,6 +294,13 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
         ''' Store input data '''
         
+        # Double precision is used even if the data is provided as integers (which 
+        # could overflow, or not be able to hold a difference) or in single precision
+        to_float = lambda data: None if data is None else np.asarray(data, dtype = float)
+        
+        x_eval, fval, grad = to_float(x_eval), to_float(fval), to_float(grad)
+        std_fval, std_grad = to_float(std_fval), to_float(std_grad)
+        
         # The model must be set up again with set_hpara() before it is evaluated
         self.KernEta_chofac = None
         
diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 7a37ea6..166e31d 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -82,13 +82,14 @@ class RescalingXdata:
         else:
             assert x_shift_in.size == self.dim, f'Wrong size for x_shift_in: {x_shift_in.shape}'
             assert x_shift_in.ndim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
-            x_shift = 1 * np.atleast_1d(x_shift_in)
+            x_shift = np.array(np.atleast_1d(x_shift_in), dtype = float)
         
         if xvec_scale_in is None:
             xvec_scale_in = np.ones(self.dim)
         else:
             assert xvec_scale_in.size == self.dim, f'Wrong shape for xvec_scale_in: {xvec_scale_in.shape}'
             assert np.all(xvec_scale_in > 0), f'All entries must be positive: {xvec_scale_in}'
+            xvec_scale_in = self._to_float(xvec_scale_in)
         
         ''' Scale xvec_scale_in to ensure the x_scl_method is satisfied '''
         
@@ -430,7 +431,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         self.n_eval, self.dim = x_init.shape
         
         # Store init data
-        self.x_init       = x_init
+        self.x_init       = np.asarray(x_init, dtype = float)
         
         if idx_xbest is None:
             idx_xbest = self.n_eval -1
@@ -444,6 +445,11 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         # Calculate and set scaling parameters
         self.set_xscale_data()
     
+    @staticmethod
+    def _to_float(data):
+        # Integers could overflow, or not be able to hold the shifted data
+        return None if data is None else np.asarray(data, dtype = float)
+    
     def get_init_x(self):
         return self.x_init
     
@@ -462,16 +468,16 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         self._obj_data_set   = True
         
         # Store init data
-        self.obj_init        = obj_init
-        self.std_obj_init    = std_obj_init
-        self.grad_init       = grad_init
-        self.std_grad_init   = std_grad_init
+        self.obj_init        = self._to_float(obj_init)
+        self.std_obj_init    = self._to_float(std_obj_init)
+        self.grad_init       = self._to_float(grad_init)
+        self.std_grad_init   = self._to_float(std_grad_init)
         
         self.obj_scl_method  = obj_scl_method
         self.use_obj_shift   = use_obj_shift
         
         # Calculate and set scaling parameters
-        obj_shift, obj_scale = self._calc_obj_scaling(obj_init)
+        obj_shift, obj_scale = self._calc_obj_scaling(self.obj_init)
         self.set_obj_scaling(obj_shift, obj_scale)
         
     def get_init_obj_data(self):
@@ -492,16 +498,16 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         self._nlc_data_set      = True
         
         # Store init data
-        self.nlc_val_init       = nlc_val_init
-        self.nlc_std_val_init   = nlc_std_val_init
-        self.nlc_grad_init      = nlc_grad_init
-        self.nlc_std_grad_init  = nlc_std_grad_init
+        self.nlc_val_init       = self._to_float(nlc_val_init)
+        self.nlc_std_val_init   = self._to_float(nlc_std_val_init)
+        self.nlc_grad_init      = self._to_float(nlc_grad_init)
+        self.nlc_std_grad_init  = self._to_float(nlc_std_grad_init)
         
         self.nlc_scl_method     = nlc_scl_method
         self.use_nlc_shift      = use_nlc_shift
         
         # Calculate and set scaling parameters
-        nlc_shift, nlc_scale = self._calc_nlc_scaling(nlc_val_init)
+        nlc_shift, nlc_scale = self._calc_nlc_scaling(self.nlc_val_init)
         self.set_nlc_scaling(nlc_shift, nlc_scale)
     
     def get_init_nlc_data(self):
diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index c604eed..de36c7d 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -116,6 +116,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
+        x2model = np.asarray(x2model, dtype = float)
+        
         assert x2model.shape[1] == self.dim, f'x2model_in should have {self.dim} columns but it has shape {x2model_in.shape}'
         
         nx = x2model.shape[0]
@@ -255,6 +257,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
+        x2model = np.asarray(x2model, dtype = float)
+        
         assert x2model.shape[1] == self.dim, f'x2model_in should have {self.dim} columns but it has shape {x2model_in.shape}'
         
         nx = x2model.shape[0]
-- 
2.43.0


From 09f04461970975352a037182c573f5d70d490324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:26 +0000
Subject: [PATCH 47/48] fix: reject a gradient mask that is not boolean

---
 gpgradpy/src/GaussianProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 43d7aed..24487c4 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -250,6 +250,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
             else:
                 n_grad = np.sum(bvec_use_grad)
                 # assert self.b_use_data_scl == False, 'The class Rescaling is not setup for the case when not all gradients are used'
+                assert bvec_use_grad.dtype == bool, f'bvec_use_grad must be an array of bool but its type is {bvec_use_grad.dtype}'
                 assert bvec_use_grad.size == n_eval, \
                     f'Length of bvec_use_grad is {bvec_use_grad.size} but it should be n_eval = {n_eval}'
                 assert grad.shape[0] == n_grad, \
-- 
2.43.0


From 344c7de781d15f918577e04ff15fde9d5cbed2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:26 +0000
Subject: [PATCH 48/48] fix: do not keep the optimization info of an earlier
 call for the same iteration

---
 gpgradpy/src/base/GpParaDef.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index df42357..e4d9499 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -260,6 +260,12 @@ class GpParaDef:
         if self.b_use_data_scl:
             self.xvec_rescaling_all[idx] = self.DataScl.xvec_scale
 
+        # Do not keep the info of a previous call for the same iteration
+        for data_all in (self.hp_optz_success,     self.hp_optz_iter_mean,   self.hp_optz_iter_max, 
+                         self.hp_optz_con_good,    self.optz_n_cho_fail_all, self.optz_n_cond2big_all, 
+                         self.optz_max_init_cond_all, self.varK_var_fval):
+            data_all[idx] = np.nan
+        
         # Optimization info 
         if surr_optz_info is not None:
 
-- 
2.43.0

