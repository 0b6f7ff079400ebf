From 7fa2be70586f2b1c7fe32da2f4abd925bc75de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:26 +0000
Subject: [PATCH 01/36] fix: complex prox_l1 returned NaN for zero entries

---
 sporco/prox/_lp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 1df8802..0c61fa7 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -180,7 +180,8 @@ def prox_l1(v, alpha):
         else:
             return np.sign(v) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
     else:
-        return (v / np.abs(v)) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
+        return zdivide(v, np.abs(v)) * \
+            (np.clip(np.abs(v) - alpha, 0, float('Inf')))
 
 
 
-- 
2.43.0


From bcb5cb14dce3dfe886c908fa0587fee901df24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:54 +0000
Subject: [PATCH 02/36] fix: solve_symmetric_sylvester was wrong for indefinite
 matrices

---
 sporco/linalg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sporco/linalg.py b/sporco/linalg.py
index a274522..3d8ed0b 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -851,7 +851,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaA, QA = A, None
         else:
             LambdaA, QA = np.linalg.eigh(A)
-            LambdaA = np.abs(LambdaA)
     if LambdaA.ndim == 1:
         LambdaA = LambdaA[:, np.newaxis]
     if isinstance(B, tuple) and len(B) == 2:
@@ -862,7 +861,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaB, QB = B, None
         else:
             LambdaB, QB = np.linalg.eigh(B)
-            LambdaB = np.abs(LambdaB)
     if LambdaB.ndim == 1:
         LambdaB = LambdaB[np.newaxis]
 
-- 
2.43.0


From 82ad691536599a7b0ae5d40f8ace30d029a2f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:11 +0000
Subject: [PATCH 03/36] fix: PGMDFT monotone mode kept the rejected X

When the candidate of a monotone iteration is rejected, the transform Xf was
reverted to the previous iterate but X was not, so that the solution returned
and the coefficients seen by callers had the larger objective.
---
 sporco/pgm/pgm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 0f25ea5..59f3615 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -806,6 +806,7 @@ class PGMDFT(PGM):
                 # If increment on objective function
                 # revert to previous iterate
                 self.Xf = self.Xfprv.copy()
+                self.X[:] = irfftn(self.Xf, self.Nv, self.axisN)
                 self.objfn = self.objfn_prev
 
         return gradf
-- 
2.43.0


From 63f9a66bd8304632fb4ebbe1313947cc01417711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:28 +0000
Subject: [PATCH 04/36] fix: grad and gradT boundaries for negative axes and
 axes of length one

With a negative axis the boundary rows were set on the wrong axis, and gradT
raised an exception for an axis of length one.
---
 sporco/signal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 802b091..689e7dd 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -162,7 +162,7 @@ def grad(x, axis, zero_pad=False):
     if zero_pad:
         xg = np.diff(x, axis=axis, prepend=0, append=0)
     else:
-        slc = (slice(None),)*axis + (slice(-1, None),)
+        slc = (slice(None),)*(axis % x.ndim) + (slice(-1, None),)
         xg = np.roll(x, -1, axis=axis) - x
         xg[slc] = 0.0
     return xg
@@ -193,10 +193,11 @@ def gradT(x, axis, zero_pad=False):
     if zero_pad:
         xg = -np.diff(x, axis=axis)
     else:
-        slc0 = (slice(None),) * axis
+        slc0 = (slice(None),) * (axis % x.ndim)
         xg = np.roll(x, 1, axis=axis) - x
-        xg[slc0 + (slice(0, 1),)] = -x[slc0 + (slice(0, 1),)]
-        xg[slc0 + (slice(-1, None),)] = x[slc0 + (slice(-2, -1),)]
+        if x.shape[axis] > 1:
+            xg[slc0 + (slice(0, 1),)] = -x[slc0 + (slice(0, 1),)]
+            xg[slc0 + (slice(-1, None),)] = x[slc0 + (slice(-2, -1),)]
     return xg
 
 
-- 
2.43.0


From 5092689068a0610633a305279719b0a6d68f587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:31 +0000
Subject: [PATCH 05/36] fix: gradient filters and TV adjoint for axes other
 than the leading ones

---
 sporco/admm/tvl1.py | 3 ++-
 sporco/admm/tvl2.py | 3 ++-
 sporco/signal.py    | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 5380f68..004fb1d 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -333,7 +333,8 @@ class TVL1Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes] +
+            [gradT(X[..., i], ax)[..., np.newaxis]
+             for i, ax in enumerate(self.axes)] +
             [X[..., -1:],], axis=X.ndim-1), axis=X.ndim-1)
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 348fb36..15aba8f 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -323,7 +323,8 @@ class TVL2Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes],
+            [gradT(X[..., i], ax)[..., np.newaxis]
+             for i, ax in enumerate(self.axes)],
             axis=X.ndim-1), axis=X.ndim-1)
 
 
diff --git a/sporco/signal.py b/sporco/signal.py
index 689e7dd..31f01e0 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -230,8 +230,8 @@ def gradient_filters(ndim, axes, axshp, dtype=None):
         dtype = np.float32
     g = np.zeros([2 if k in axes else 1 for k in range(ndim)] +
                  [len(axes),], dtype)
-    for k in axes:
-        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (k,)] = \
+    for j, k in enumerate(axes):
+        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (j,)] = \
             np.array([1, -1])
     if is_complex_dtype(dtype):
         Gf = fftn(g, axshp, axes=axes)
-- 
2.43.0


From 4b3564449211d423735f18e0ce74a60cfd3ce85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:25 +0000
Subject: [PATCH 06/36] fix: zero-mean dictionary projection ignored dimN

---
 sporco/cnvrep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index f0ec3f3..18b97f5 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -1008,7 +1008,8 @@ def _Pcn_zm(x, dsz, Nv, dimN=2, dimC=1):
       Projection of input onto constraint set
     """
 
-    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz), dimN + dimC)
+    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz, dimN),
+                     dimN + dimC)
 
 
 
-- 
2.43.0


From 204fe7f5da179b58165e108c887bdbd7611ede54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:15 +0000
Subject: [PATCH 07/36] fix: l1 weights of single-channel signal stacks were
 laid out on the channel axis

---
 sporco/cnvrep.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index 18b97f5..fda3c71 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -524,6 +524,9 @@ def l1Wshape(W, cri):
 
     # Number of dimensions in input array `S`
     sdim = cri.dimN + cri.dimC + cri.dimK
+    # If input array `S` has a signal index but no channel index, a
+    # singleton channel index has to precede the signal index of `W`
+    axC = (1,) * (1 if cri.dimC == 0 and cri.dimK == 1 else 0)
 
     if W.ndim < sdim:
         if W.size == 1:
@@ -535,7 +538,8 @@ def l1Wshape(W, cri):
                              'the same number of dimensions as input array')
     elif W.ndim == sdim:
         # Weight array has the same number of dimensions as the input array
-        shpW = W.shape + (1,) * (3 - cri.dimC - cri.dimK)
+        shpW = W.shape[0:cri.dimN] + axC + W.shape[cri.dimN:] + \
+            (1,) * (3 - len(axC) - cri.dimC - cri.dimK)
     else:
         # Weight array has more dimensions than the input array
         if W.ndim == cri.dimN + 3:
@@ -544,8 +548,8 @@ def l1Wshape(W, cri):
         else:
             # Assume that the final axis in the input array is the filter
             # index
-            shpW = W.shape[0:-1] + (1,) * (2 - cri.dimC - cri.dimK) + \
-                W.shape[-1:]
+            shpW = W.shape[0:cri.dimN] + axC + W.shape[cri.dimN:-1] + \
+                (1,) * (2 - len(axC) - cri.dimC - cri.dimK) + W.shape[-1:]
 
     return shpW
 
-- 
2.43.0


From 1ee01adbf199251ad03b899a21370741653d636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:06 +0000
Subject: [PATCH 08/36] fix: ConvBPDN set lambda and rho after using them in
 initialisation

---
 sporco/admm/cbpdn.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7b08026..706b48f 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -566,14 +566,12 @@ class ConvBPDN(GenericConvBPDN):
         # Set dtype attribute based on S.dtype and opt['DataType']
         self.set_dtype(opt, S.dtype)
 
-        # Call parent class __init__
-        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
-
         # Set default lambda value if not specified
         if lmbda is None:
             cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
-            Df = self.fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
-            Sf = self.fftn(S.reshape(cri.shpS), axes=cri.axisN)
+            fftn = fftn_func(np.isrealobj(D) and np.isrealobj(S))
+            Df = fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
+            Sf = fftn(S.reshape(cri.shpS), axes=cri.axisN)
             b = np.conj(Df) * Sf
             lmbda = 0.1 * abs(b).max()
 
@@ -592,6 +590,10 @@ class ConvBPDN(GenericConvBPDN):
         self.set_attr('rho_xi', opt['AutoRho', 'RsdlTarget'], dval=rho_xi,
                       dtype=real_dtype(self.dtype), reset=True)
 
+        # Call parent class __init__ (after setting lambda and rho, on which
+        # initialisation of U and of cached solver components depends)
+        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
+
         # Set l1 term weight array
         self.wl1 = np.asarray(opt['L1Weight'], dtype=real_dtype(self.dtype))
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
-- 
2.43.0


From a5f72c6d5a6db6c48aa912412b44a36e509703f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:44 +0000
Subject: [PATCH 09/36] fix: cached solver component of two ConvBPDN variants
 was wrong after a change of rho

---
 sporco/admm/cbpdn.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 706b48f..e166e89 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -978,6 +978,14 @@ class ConvElasticNet(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbi_sm_c(self.Df, np.conj(self.Df),
+                                      self.mu + self.rho, self.cri.axisM)
+
+
     def obfn_reg(self):
         """Compute regularisation term and contribution to objective
         function.
@@ -1204,6 +1212,15 @@ class ConvBPDNGradReg(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbd_sm_c(
+                self.Df, np.conj(self.Df), self.mu*self.GHGf + self.rho,
+                self.cri.axisM)
+
+
     def obfn_reg(self):
         """Compute regularisation term and contribution to objective
         function.
-- 
2.43.0


From 4fed6e5b3fd3ab920c65078d389116f427c66dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 10/36] fix: NoBndryCross with a filter of size one along an
 axis zeroed all coefficients

---
 sporco/admm/cbpdn.py | 5 +++--
 sporco/pgm/cbpdn.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index e166e89..594e759 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -308,7 +308,8 @@ class GenericConvBPDN(admm.ADMMEqual):
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
                 self.Y[(slice(None),) * n +
-                       (slice(1 - self.D.shape[n], None),)] = 0.0
+                       (slice(self.Y.shape[n] + 1 - self.D.shape[n],
+                              None),)] = 0.0
 
 
 
@@ -1675,7 +1676,7 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
             if self.opt['NoBndryCross']:
                 for n in range(0, self.cri.dimN):
                     Y1[(slice(None),)*n +
-                       (slice(1-self.D.shape[n], None),)] = 0.0
+                       (slice(Y1.shape[n] + 1 - self.D.shape[n], None),)] = 0.0
             self.block_sep1(self.Y)[:] = Y1
 
 
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 95a9d73..ad7e607 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -294,7 +294,7 @@ class ConvBPDN(pgm.PGMDFT):
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
                 U[(slice(None),) * n +
-                  (slice(1 - self.D.shape[n], None),)] = 0.0
+                  (slice(U.shape[n] + 1 - self.D.shape[n], None),)] = 0.0
         return U
 
 
-- 
2.43.0


From d657e2246939b86f495e5fd87add1a4cd6e47e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 11/36] fix: AddMaskSim.setdict raised AttributeError

---
 sporco/admm/cbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 594e759..5a845e0 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2448,8 +2448,8 @@ class AddMaskSim(object):
     def setdict(self, D=None):
         """Set dictionary array."""
 
-        Di = np.concatenate((D, sl.atleast_nd(D.ndim, self.imp)),
-                            axis=D.ndim-1)
+        imp = cr.stdformD(self.imp, self.cri.Cd, self.cri.Cd, self.cri.dimN)
+        Di = np.concatenate((D, imp), axis=D.ndim-1)
         self.cbpdn.setdict(Di)
 
 
-- 
2.43.0


From 39c18c3880beed45e5df35b4e1b1a55d5cf72ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 12/36] fix: ConvMinL1InL2Ball with Y0 raised AttributeError

---
 sporco/admm/cbpdn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 5a845e0..e35fca7 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2029,9 +2029,8 @@ class ConvMinL1InL2Ball(ConvTwoBlockCnstrnt):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            U0 = np.sign(self.block_sep0(self.Y)) / self.rho
-            U1 = self.block_sep1(self.Y) - sl.atleast_nd(self.cri.dimN+3,
-                                                         self.S)
+            U0 = self.block_sep0(self.Y)
+            U1 = np.sign(self.block_sep1(self.Y)) / self.rho
             return self.block_cat(U0, U1)
 
 
-- 
2.43.0


From cf5d8924e0a05198050cf46c57346466a73c4d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 13/36] fix: ConvL1L1Grd with HighMemSolve raised
 AttributeError

---
 sporco/admm/cbpdn.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index e35fca7..8e3ebf6 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2661,9 +2661,10 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         if opt is None:
             opt = ConvL1L1Grd.Options()
 
-        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
-                                          dimN=dimN)
-
+        # Set attributes required by setdict, which is called by the parent
+        # class __init__
+        self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+        self.set_dtype(opt, S.dtype)
         self.mu = self.dtype.type(mu)
         if hasattr(opt['GradWeight'], 'ndim'):
             self.Wgrd = np.asarray(opt['GradWeight'].reshape((1,)*(dimN+2) +
@@ -2675,6 +2676,8 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
                                          self.cri.Nv, dtype=self.dtype)
         self.GHGf = self.Wgrd * GHGf
 
+        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
+                                          dimN=dimN)
 
 
     def setdict(self, D=None):
-- 
2.43.0


From 180c27397778180fa541cc7b0631b055d9f829e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 14/36] fix: ConvBPDNMaskDcpl with Y0 raised AttributeError

---
 sporco/admm/cbpdn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 8e3ebf6..27c49db 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2228,13 +2228,18 @@ class ConvBPDNMaskDcpl(ConvTwoBlockCnstrnt):
         if opt is None:
             opt = ConvBPDNMaskDcpl.Options()
 
-        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
-
+        # Set attributes required by uinit, which is called by the parent
+        # class __init__
+        self.cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+        self.set_dtype(opt, S.dtype)
         self.lmbda = self.dtype.type(lmbda)
         if W is None:
             W = np.array([1.0], dtype=self.dtype)
         self.W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
                             dtype=self.dtype)
+
+        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
 
-- 
2.43.0


From e7adfa461d7e31ad3baee6024ece8277b1110bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 15/36] fix: MultiDictConvBPDN concatenated multi-channel
 signals on the wrong axis

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 27c49db..df09943 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2878,7 +2878,7 @@ class MultiDictConvBPDN(object):
         # Construct single signal array (this is simpler since all
         # members of the signal set are assumed to be of the same
         # size)
-        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN+dimC)
+        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN)
 
         # Construct inner cbpdn object
         self.cbpdn = cbpdnclass(Dm, Sm, *args, **kwargs)
-- 
2.43.0


From bc95e44ded46aae59f1914fa8eec12c0cd1abaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:44 +0000
Subject: [PATCH 16/36] fix: MultiDictConvBPDN.reconstruct raised NameError

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index df09943..d5caa52 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2925,7 +2925,7 @@ class MultiDictConvBPDN(object):
 
         if X is None:
             X = self.getcoef()
-        Xf = rfftn(X, None, self.cbpdn.cri.axisN)
+        Xf = self.cbpdn.fftn(X, None, self.cbpdn.cri.axisN)
         slc = (slice(None),)*self.dimN + \
               (slice(self.chncs[b], self.chncs[b+1]),)
         Sf = np.sum(self.cbpdn.Df[slc] * Xf, axis=self.cbpdn.cri.axisM)
-- 
2.43.0


From 5487f47e878fbaa681b4de0b218035a330fd781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:41 +0000
Subject: [PATCH 17/36] fix: AddMaskSim applied a mask with singleton axes to
 the first signal only

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index d5caa52..c0dea24 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2411,7 +2411,7 @@ class AddMaskSim(object):
         self.inner_ystep()
         # Apply mask to AMS component and insert into Y from inner
         # cbpdn object
-        Yi[np.where(self.W.astype(bool))] = 0.0
+        Yi[np.broadcast_to(self.W.astype(bool), Yi.shape)] = 0.0
         self.cbpdn.Y[amidx] = Yi
 
 
-- 
2.43.0


From 1df19f08e50b89f94a27cb4dcbdb38180440a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 18/36] fix: ConvBPDNScalarTV: handle per-filter TVWeight in
 the linear solver

---
 sporco/admm/cbpdntv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 5981405..6342828 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -256,7 +256,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         if self.cri.Cd > 1:
             self.DSf = np.sum(self.DSf, axis=self.cri.axisC, keepdims=True)
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
         else:
@@ -268,7 +268,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         """Updated cached c array when rho changes."""
 
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
 
@@ -287,7 +287,7 @@ class ConvBPDNScalarTV(admm.ADMM):
             np.conj(self.Gf) * YUf[..., 0:-1], axis=-1))
 
         if self.cri.Cd == 1:
-            self.Xf[:] = sl.solvedbi_sm(
+            self.Xf[:] = sl.solvedbd_sm(
                 self.Df, self.rho*self.GHGf + self.rho, b, self.c,
                 self.cri.axisM)
         else:
-- 
2.43.0


From 74fe60d52e82e2d7a5e0a57dc43a233d7fbd22ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 19/36] fix: ConvBPDNScalarTV: apply the prox of the TV term at
 each point

---
 sporco/admm/cbpdntv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 6342828..7de7817 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -316,7 +316,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho)
+        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
+                                       axis=-1)
         self.Y[..., -1] = sp.prox_l1(AXU[..., -1],
                                      (self.lmbda/self.rho) * self.Wl1)
 
-- 
2.43.0


From df16a617f986f83cce9809082df98ebe76ef8fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 20/36] fix: ConvBPDNRecTV: update the TV block of Y for
 multi-channel dictionaries

---
 sporco/admm/cbpdntv.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 7de7817..db0bd37 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1101,10 +1101,12 @@ class ConvBPDNRecTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.block_sep0(self.Y)[:] = sp.prox_l1(
-            self.block_sep0(AXU), (self.lmbda/self.rho) * self.Wl1)
-        self.block_sep1(self.Y)[:] = sp.prox_l2(
-            self.block_sep1(AXU), self.mu/self.rho, axis=(self.cri.axisC, -1))
+        # Note that block_sep1 does not always return a view of its argument
+        self.Y[:] = self.block_cat(
+            sp.prox_l1(self.block_sep0(AXU),
+                       (self.lmbda/self.rho) * self.Wl1),
+            sp.prox_l2(self.block_sep1(AXU), self.mu/self.rho,
+                       axis=(self.cri.axisC, -1)))
 
 
 
-- 
2.43.0


From 1ab5aa0509b71dadb66e21a7b3c419afa77c35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 21/36] fix: ConvBPDNScalarTV: align L1Weight with the
 coefficients in the objective

---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index db0bd37..11ab82f 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -442,7 +442,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1[..., np.newaxis] *
+                              self.obfn_g1var()).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2, axis=-1)))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
 
@@ -722,7 +723,8 @@ class ConvBPDNVectorTV(ConvBPDNScalarTV):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1[..., np.newaxis] *
+                              self.obfn_g1var()).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2,
                                     axis=(self.cri.axisM, -1))))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
-- 
2.43.0


From 5d024be55591041ca5bc6414eded9cea216370cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 22/36] fix: ConvBPDNRecTV.cnst_A1T: sum over channels for a
 multi-channel dictionary

---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 11ab82f..4899ff1 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1284,8 +1284,10 @@ class ConvBPDNRecTV(admm.ADMM):
         """
 
         Y1f = rfftn(Y1, None, axes=self.cri.axisN)
-        return irfftn(np.conj(self.GDf) * Y1f, self.cri.Nv,
-                      self.cri.axisN)
+        GDHY1f = np.conj(self.GDf) * Y1f
+        if self.cri.Cd > 1:
+            GDHY1f = np.sum(GDHY1f, axis=self.cri.axisC, keepdims=True)
+        return irfftn(GDHY1f, self.cri.Nv, self.cri.axisN)
 
 
 
-- 
2.43.0


From 97665dffbd2c0b329d8bd1686bb65b255919cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 23/36] fix: pgm BPDN/CnstrMOD.reconstruct: use the argument
 and existing attributes

---
 sporco/pgm/bpdn.py | 2 +-
 sporco/pgm/cmod.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 7b5f8e4..08844f6 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -239,7 +239,7 @@ class BPDN(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return self.D.dot(X)
 
 
 
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index db89512..c6f9894 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -229,7 +229,7 @@ class CnstrMOD(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return X.dot(self.Z)
 
 
 
-- 
2.43.0


From bf3e21bac1362fa43c49e670166823980c6f9f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 24/36] fix: pgm: Hessian of weighted and masked data fidelity
 terms

---
 sporco/pgm/bpdn.py  |  7 +++++++
 sporco/pgm/cbpdn.py | 17 +++++++++++++++++
 sporco/pgm/ccmod.py | 17 +++++++++++++++++
 sporco/pgm/cmod.py  |  7 +++++++
 4 files changed, 48 insertions(+)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 08844f6..ef99126 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -359,6 +359,13 @@ class WeightedBPDN(BPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return self.D.T.dot(self.W * self.D.dot(V))
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index ad7e607..a7e5519 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -478,6 +478,23 @@ class ConvBPDNMask(ConvBPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        # Apply mask in the spatial domain
+        RV = irfftn(inner(self.Df, V, axis=self.cri.axisM), self.cri.Nv,
+                    self.cri.axisN)
+        WRVf = rfftn((self.W**2) * RV, self.cri.Nv, self.cri.axisN)
+
+        hessfv = np.conj(self.Df) * WRVf
+        # Multiple channel signal, multiple channel dictionary
+        if self.cri.Cd > 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{m} - \mathbf{s}) \|_2^2`
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 2059b28..2a7781b 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -576,6 +576,23 @@ class ConvCnstrMODMask(ConvCnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        # Apply mask in the spatial domain
+        RV = irfftn(inner(self.Zf, V, axis=self.cri.axisM), self.cri.Nv,
+                    self.cri.axisN)
+        WRVf = rfftn((self.W**2) * RV, self.cri.Nv, self.cri.axisN)
+
+        hessfv = inner(np.conj(self.Zf), WRVf, axis=self.cri.axisK)
+        # Multiple channel signal, single channel dictionary
+        if self.cri.C > 1 and self.cri.Cd == 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \sum_k \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{k,m} - \mathbf{s}_k) \|_2^2`
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index c6f9894..2178d73 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -325,6 +325,13 @@ class WeightedCnstrMOD(CnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return (self.W * V.dot(self.Z)).dot(self.Z.T)
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
-- 
2.43.0


From a5a55662755d26ecc8a878fbcc22e142ab09ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 25/36] fix: ConvProdDictBPDN.setdict: update all terms that
 depend on B

---
 sporco/admm/pdcsc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 90ecec5..fdb0774 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -116,6 +116,7 @@ class ConvProdDictBPDN(cbpdn.ConvBPDN):
         if D is not None or not hasattr(self, 'Df'):
             self.Df = rfftn(self.D, self.cri.Nv, self.cri.axisN)
             self.DSf = np.conj(self.Df) * self.Sf
+        if D is not None or B is not None or not hasattr(self, 'DSfBQ'):
             self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
                              axis=self.cri.axisC)
 
-- 
2.43.0


From c6e29e817e3e3d2e9a3224948cdaf06223753b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 26/36] fix: ParConvBPDN: sum over the channel axis in the X
 step

---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f8ff768..d4e1c8c 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -151,7 +151,7 @@ def par_xstep(i):
                             mp_cache[i], axis=mp_axisM)
     else:
         b = sl.inner(np.conj(mp_Df[mp_grp[i]:mp_grp[i+1]]), YU0f,
-                     axis=mp_C) + mp_alpha**2*YU1f
+                     axis=mp_axisC) + mp_alpha**2*YU1f
         Xf = sl.solvemdbi_ism(mp_Df[mp_grp[i]:mp_grp[i+1]], mp_alpha**2, b,
                               mp_axisM, mp_axisC)
     mp_X[mp_grp[i]:mp_grp[i+1]] = irfftn(Xf, mp_Nv,
-- 
2.43.0


From 533f6ec4e87981eca87a0c9586928f4d3bcfd1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 27/36] fix: ParConvBPDN: set the variables initialised by
 options Y0, Y1, U0, U1

---
 sporco/admm/parcbpdn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index d4e1c8c..d9019a9 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -647,7 +647,7 @@ class ParConvBPDN(GenericConvBPDN):
         shp_Y0[0] = self.ngrp
         shp_Y0[mp_axisC] = mp_C
         if self.opt['Y0'] is not None:
-            init_mpraw('Y0', np.moveaxis(
+            init_mpraw('mp_Y0', np.moveaxis(
                 self.opt['Y0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -656,7 +656,7 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y0old = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_Y1
         if self.opt['Y1'] is not None:
-            init_mpraw('Y1', np.moveaxis(
+            init_mpraw('mp_Y1', np.moveaxis(
                 self.opt['Y1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -665,14 +665,14 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y1old = mpraw_as_np(shp_X, mp_X.dtype)
         global mp_U0
         if self.opt['U0'] is not None:
-            init_mpraw('U0', np.moveaxis(
+            init_mpraw('mp_U0', np.moveaxis(
                 self.opt['U0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
             mp_U0 = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_U1
         if self.opt['U1'] is not None:
-            init_mpraw('U1', np.moveaxis(
+            init_mpraw('mp_U1', np.moveaxis(
                 self.opt['U1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
-- 
2.43.0


From 5db671819de8fe6509592dd91e73d250bcad6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 28/36] fix: ParConvBPDN: NoBndryCross with filters of size one

---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index d9019a9..0b67492 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -229,7 +229,7 @@ def par_y1step(i):
     if mp_NoBndryCross:
         for n in range(len(mp_Nv)):
             Y1[(slice(None),) + (slice(None),)*n +
-               (slice(1-mp_Dshp[n], None),)] = 0.0
+               (slice(Y1.shape[n+1]+1-mp_Dshp[n], None),)] = 0.0
     mp_Y1[mp_grp[i]:mp_grp[i+1]] = Y1
 
 
-- 
2.43.0


From 13a74facd2cdb74f7ba7562de03d1046734cdf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 29/36] fix: ParConvBPDN.solve: compare iteration numbers by
 value

---
 sporco/admm/parcbpdn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 0b67492..86b7251 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -771,10 +771,10 @@ class ParConvBPDN(GenericConvBPDN):
             mp_Y1old[:] = np.copy(mp_Y1)
 
             # Perform the variable updates.
-            if self.k is first_iteration:
+            if self.k == first_iteration:
                 self.distribute(par_initial_stepgrp, mp_ngrp)
             y0astep()
-            if self.k is last_iteration:
+            if self.k == last_iteration:
                 self.distribute(par_final_stepgrp, mp_ngrp)
             else:
                 self.distribute(par_stepgrp, mp_ngrp)
-- 
2.43.0


From d54eb8ec50f6a8fbe19cc4eec8c51651654cffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:35 +0000
Subject: [PATCH 30/36] fix: include L1Weight in the objective of dictionary
 learning with AccurateDFid

---
 sporco/dictlrn/bpdndl.py    | 2 +-
 sporco/dictlrn/cbpdndl.py   | 2 +-
 sporco/dictlrn/cbpdndlmd.py | 2 +-
 sporco/dictlrn/wbpdndl.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/bpdndl.py b/sporco/dictlrn/bpdndl.py
index fc6d67b..06bf2b4 100644
--- a/sporco/dictlrn/bpdndl.py
+++ b/sporco/dictlrn/bpdndl.py
@@ -200,7 +200,7 @@ class BPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_y()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm((D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 33eacd9..421bf77 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -517,7 +517,7 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             Ef = inner(Df, Xf, axis=self.xstep.cri.axisM) - Sf
             dfd = rfl2norm2(Ef, self.xstep.S.shape,
                             axis=self.xstep.cri.axisN) / 2.0
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index a5b4b07..4832f87 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -533,7 +533,7 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
                 X = self.xstep.getcoef()
             else:
                 X = self.xstep.var_y1()
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/wbpdndl.py b/sporco/dictlrn/wbpdndl.py
index 27b34e2..148780f 100644
--- a/sporco/dictlrn/wbpdndl.py
+++ b/sporco/dictlrn/wbpdndl.py
@@ -204,7 +204,7 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_x()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm(np.sqrt(self.W) * (D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
-- 
2.43.0


From ccd3548a374eacc797ff607fb5aae60b7523f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 31/36] fix: online dictionary learning of a single-channel
 dictionary from multi-channel signals

---
 sporco/dictlrn/onlinecdl.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index f17a802..28fd369 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -282,7 +282,8 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
                                    self.opt['CBPDN'], dimK=dimK,
                                    dimN=self.cri.dimN)
             xstep.solve()
-            self.Sf = xstep.Sf
+            self.Sf = xstep.Sf.reshape(xstep.Sf.shape[0:self.cri.dimN] +
+                                       self.cri.shpS[self.cri.dimN:])
             self.setcoef(xstep.getcoef())
             self.xstep_itstat = xstep.itstat[-1] if xstep.itstat else None
 
@@ -291,18 +292,9 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
     def setcoef(self, Z):
         """Set coefficient array."""
 
-        # If the dictionary has a single channel but the input (and
-        # therefore also the coefficient map array) has multiple
-        # channels, the channel index and multiple image index have
-        # the same behaviour in the dictionary update equation: the
-        # simplest way to handle this is to just reshape so that the
-        # channels also appear on the multiple image index.
-        if self.cri.Cd == 1 and self.cri.C > 1:
-            Z = Z.reshape(self.cri.Nv + (1,) + (self.cri.Cx*self.cri.K,) +
-                          (self.cri.M,))
-            if Z.shape != self.Z.shape:
-                self.Z = empty_aligned(Z.shape, self.dtype)
-        self.Z[:] = np.asarray(Z, dtype=self.dtype)
+        # The sparse coding object may represent multiple channels on the
+        # multiple image index
+        self.Z[:] = np.asarray(Z, dtype=self.dtype).reshape(self.cri.shpX)
         self.Zf = rfftn(self.Z, self.cri.Nv, self.cri.axisN)
 
 
-- 
2.43.0


From 82c73bd072ee24dedcbda4324eba48d848687b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 32/36] fix: online dictionary learning with a varying number
 of signals

---
 sporco/dictlrn/onlinecdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 28fd369..5ba419d 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -245,9 +245,9 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """Initalise variables required for sparse coding and dictionary
         update for training data `S`."""
 
-        Nv = S.shape[0:self.dimN]
-        if self.cri is None or Nv != self.cri.Nv:
-            self.cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        if self.cri is None or cri.shpS != self.cri.shpS:
+            self.cri = cri
             if self.opt['CUDA_CBPDN']:
                 if self.cri.Cd > 1 or self.cri.Cx > 1:
                     raise ValueError('CUDA CBPDN solver can only be used for '
-- 
2.43.0


From 355ceae7c22dd39fbdbc4163202d41e431dc8ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 33/36] fix: online dictionary learning with a single filter or
 filters of unit size

---
 sporco/dictlrn/onlinecdl.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 5ba419d..1a1d842 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -278,7 +278,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDN(self.D.squeeze(), S, lmbda,
+            xstep = cbpdn.ConvBPDN(self.getextdict(), S, lmbda,
                                    self.opt['CBPDN'], dimK=dimK,
                                    dimN=self.cri.dimN)
             xstep.solve()
@@ -289,6 +289,18 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
 
 
 
+    def getextdict(self):
+        """Get current dictionary in external representation, i.e. without
+        the singleton axes of the internal representation (other
+        singleton axes have to be retained)."""
+
+        axes = (self.cri.axisK,)
+        if self.cri.Cd == 1:
+            axes = (self.cri.axisC,) + axes
+        return self.D.squeeze(axis=axes)
+
+
+
     def setcoef(self, Z):
         """Set coefficient array."""
 
@@ -552,7 +564,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDNMaskDcpl(self.D.squeeze(), S, lmbda, W,
+            xstep = cbpdn.ConvBPDNMaskDcpl(self.getextdict(), S, lmbda, W,
                                            self.opt['CBPDN'], dimK=dimK,
                                            dimN=self.cri.dimN)
             xstep.solve()
-- 
2.43.0


From b7d8e842b2bef899f510eb7302166b1340b0edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:37 +0000
Subject: [PATCH 34/36] fix: parallel consensus dictionary learning: honour
 L1Weight, NonNegCoef and NoBndryCross

---
 sporco/dictlrn/prlcnscdl.py | 41 +++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 913beee..eb12847 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -41,6 +41,9 @@ __all__ = ['ConvBPDNDictLearn_Consensus',
 mp_cri = None    # A cnvrep.CSC_ConvRepIndexing object describing problem
                  # dimensions
 mp_lmbda = None  # Regularisation parameter lambda
+mp_wl1 = None    # Weights for l1 norm of coefficient maps
+mp_xnn = False   # Flag indicating non-negativity constraint on X
+mp_xbc = None    # Filter support if NoBndryCross option set, otherwise None
 mp_dprox = None  # Projection operator of the dictionary update
 mp_xrho = None   # Penalty parameter of the X (cbpdn) step
 mp_drho = None   # Penalty parameter of the D (ccmod) step
@@ -175,6 +178,24 @@ def cbpdn_relax(k):
 
 
 
+def cbpdn_prox(V, k):
+    """Compute the proximal operator of the regularisation term of the
+    cbpdn stage for signal k, including the constraints specified by
+    options NonNegCoef and NoBndryCross of the cbpdn stage.
+    """
+
+    wl1 = mp_wl1[k] if mp_wl1.shape[0] > 1 else mp_wl1[0]
+    Y = sp.prox_l1(V, (mp_lmbda/mp_xrho) * wl1)
+    if mp_xnn:
+        Y[Y < 0.0] = 0.0
+    if mp_xbc is not None:
+        for n in range(0, mp_cri.dimN):
+            Y[(slice(None),) * n +
+              (slice(Y.shape[n] + 1 - mp_xbc[n], None),)] = 0.0
+    return Y
+
+
+
 def cbpdn_ystep(k):
     """Do the Y step of the cbpdn stage. The only parameter is the slice
     index `k` and there are no return values; all inputs and outputs are
@@ -182,7 +203,7 @@ def cbpdn_ystep(k):
     """
 
     AXU = mp_Z_X[k] + mp_Z_U[k]
-    mp_Z_Y[k] = sp.prox_l1(AXU, (mp_lmbda/mp_xrho))
+    mp_Z_Y[k] = cbpdn_prox(AXU, k)
 
 
 
@@ -454,6 +475,12 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
         mp_cri = self.xstep.cri
         global mp_lmbda
         mp_lmbda = self.xstep.lmbda
+        init_mpraw_swap('mp_wl1', self.xstep.wl1)
+        global mp_xnn
+        mp_xnn = self.xstep.opt['NonNegCoef']
+        global mp_xbc
+        mp_xbc = self.xstep.D.shape[0:self.xstep.cri.dimN] \
+            if self.xstep.opt['NoBndryCross'] else None
         global mp_xrho
         mp_xrho = self.xstep.rho
         global mp_drho
@@ -631,7 +658,7 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
                       axis=self.xstep.cri.axisM+1) - Sf
         Ef = np.swapaxes(Ef, 0, self.xstep.cri.axisK+1)[0]
         dfd = fl2norm2(Ef, self.xstep.S.shape, axis=self.xstep.cri.axisN)/2.0
-        rl1 = np.sum(np.abs(X))
+        rl1 = np.sum(np.abs(mp_wl1 * X))
         obj = dfd + self.xstep.lmbda*rl1
         return (obj, dfd, rl1)
 
@@ -721,7 +748,7 @@ def cbpdnmd_ystep(k):
     AXU0 = mp_DX[k] - mp_S[k] + mp_Z_U0[k]
     AXU1 = mp_Z_X[k] + mp_Z_U1[k]
     mp_Z_Y0[k] = mp_xrho*AXU0 / (W**2 + mp_xrho)
-    mp_Z_Y1[k] = sp.prox_l1(AXU1, (mp_lmbda/mp_xrho))
+    mp_Z_Y1[k] = cbpdn_prox(AXU1, k)
 
 
 
@@ -1009,6 +1036,12 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
         mp_cri = self.xstep.cri
         global mp_lmbda
         mp_lmbda = self.xstep.lmbda
+        init_mpraw_swap('mp_wl1', self.xstep.wl1)
+        global mp_xnn
+        mp_xnn = self.xstep.opt['NonNegCoef']
+        global mp_xbc
+        mp_xbc = self.xstep.D.shape[0:self.xstep.cri.dimN] \
+            if self.xstep.opt['NoBndryCross'] else None
         global mp_xrho
         mp_xrho = self.xstep.rho
         global mp_drho
@@ -1203,7 +1236,7 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
                        self.xstep.cri.Nv, np.array(self.xstep.cri.axisN) + 1)
 
         dfd = (np.linalg.norm(W * (DX - S))**2) / 2.0
-        rl1 = np.sum(np.abs(self.getcoef()))
+        rl1 = np.sum(np.abs(mp_wl1 * mp_Z_Y1))
         obj = dfd + self.xstep.lmbda*rl1
 
         return (obj, dfd, rl1)
-- 
2.43.0


From 6f61629145400d97d470b219b3f9cf4c28c579d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:43 +0000
Subject: [PATCH 35/36] fix: rfl2norm2 used the wrong axis when the last axis
 was given as a negative number

---
 sporco/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index ab1ed28..4724fec 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -473,7 +473,7 @@ def rfl2norm2(xf, xs, axis=(0, 1)):
     """
 
     scl = 1.0 / np.prod(np.array([xs[k] for k in axis]))
-    slc0 = (slice(None),) * axis[-1]
+    slc0 = (slice(None),) * (axis[-1] % xf.ndim)
     nrm0 = np.linalg.norm(xf[slc0 + (0,)])
     idx1 = (xs[axis[-1]] + 1) // 2
     nrm1 = np.linalg.norm(xf[slc0 + (slice(1, idx1),)])
-- 
2.43.0


From 12bce3f9dd5e4b47435c0d64161b11ce20241c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:12 +0000
Subject: [PATCH 36/36] fix: building ConvCnstrMOD_Consensus options from an
 Options object reset its AutoRho settings

---
 sporco/admm/ccmod.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sporco/admm/ccmod.py b/sporco/admm/ccmod.py
index 6bdfa25..91951c3 100644
--- a/sporco/admm/ccmod.py
+++ b/sporco/admm/ccmod.py
@@ -652,7 +652,6 @@ class ConvCnstrMOD_Consensus(admm.ADMMConsensus):
             if opt is None:
                 opt = {}
             ConvCnstrMODBase.Options.__init__(self, opt)
-            admm.ADMMConsensus.Options.__init__(self, opt)
 
 
 
-- 
2.43.0

