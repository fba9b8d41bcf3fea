From 8352bb15c13f8e9c5740bfed5f2bec25671c3ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 001/108] fix: CG search directions must use the preconditioned
 residual

---
 pykrylov/cg/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index d733de6..61abd7d 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -101,7 +101,7 @@ class CG( KrylovMethod ):
         self.residHistory.append(self.residNorm0)
         threshold = max(self.abstol, self.reltol * self.residNorm0)
 
-        p = -r   # Initial search direction (copy not to overwrite rhs if x=0)
+        p = -y   # Initial search direction (copy not to overwrite rhs if x=0)
 
         hdr_fmt = '%6s  %7s  %8s'
         hdr = hdr_fmt % ('Matvec', 'Resid', 'Curv')
@@ -148,7 +148,7 @@ class CG( KrylovMethod ):
             # Update search direction
             beta = ry_next/ry
             p *= beta
-            p -= r
+            p -= y
 
             ry = ry_next
             residNorm = np.abs(np.sqrt(ry))
-- 
2.43.0


From bb14ad84aebfd56d30cd48b27637e9a991c4cd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 002/108] fix: CG inner products must be conjugated for complex
 systems

---
 pykrylov/cg/cg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 61abd7d..588ff59 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -96,7 +96,7 @@ class CG( KrylovMethod ):
         if store_resids:
             self.resids.append(y.copy())
 
-        ry = np.dot(r,y)
+        ry = np.vdot(r,y)
         self.residNorm0 = residNorm = np.abs(np.sqrt(ry))
         self.residHistory.append(self.residNorm0)
         threshold = max(self.abstol, self.reltol * self.residNorm0)
@@ -114,7 +114,7 @@ class CG( KrylovMethod ):
 
             Ap  = self.op * p
             nMatvec += 1
-            pAp = np.dot(p, Ap)
+            pAp = np.vdot(p, Ap)
 
             if check_curvature:
                 if np.imag(pAp) > 1.0e-8 * np.abs(pAp) or np.real(pAp) <= 0:
@@ -143,7 +143,7 @@ class CG( KrylovMethod ):
                 self.resids.append(y.copy())
 
             # Update preconditioned residual norm
-            ry_next = np.dot(r,y)
+            ry_next = np.vdot(r,y)
 
             # Update search direction
             beta = ry_next/ry
-- 
2.43.0


From 6b43ad5d7e6a029bbcf6a45717dd457ba9a0f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 003/108] fix: CG must not iterate in integer arithmetic

---
 pykrylov/cg/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 588ff59..2209bf1 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -72,7 +72,7 @@ class CG( KrylovMethod ):
                 return
 
         # Initial guess
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
 
@@ -82,7 +82,7 @@ class CG( KrylovMethod ):
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual vector
-        r = -rhs
+        r = -rhs.astype(result_type)
         if guess_supplied:
             r += self.op * x
             nMatvec += 1
-- 
2.43.0


From 9acc6c4e5eaacd6bff695eec1f928e2b3a46b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 004/108] fix: CG histories and outcome must not carry over
 from a previous solve

---
 pykrylov/cg/cg.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 2209bf1..5a4ac71 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -66,6 +66,13 @@ class CG( KrylovMethod ):
         store_resids = kwargs.get('store_resids', False)
         store_iterates = kwargs.get('store_iterates', False)
 
+        # Forget about previous solves.
+        self.converged = False
+        self.residHistory = []
+        self.resids = []
+        self.iterates = []
+        self.infiniteDescent = None
+
         if check_sym:
             if not check_symmetric(self.op):
                 self.logger.error('Coefficient operator is not symmetric')
-- 
2.43.0


From 2f8fd66bb71f2a9a743d415ad6c86c17bed393d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 005/108] fix: CGS must count the product spent on the initial
 guess

---
 pykrylov/cgs/cgs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a878699..c5ed9ea 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -58,6 +58,7 @@ class CGS( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
-- 
2.43.0


From 62e8d0b352159c06d131afb0b6eeeded4952f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 006/108] fix: CGS must not iterate in integer arithmetic

---
 pykrylov/cgs/cgs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index c5ed9ea..b8a4235 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -50,12 +50,12 @@ class CGS( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
-- 
2.43.0


From bd5d7dc588a28b696edb31b729cab7a06264c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 007/108] fix: TFQMR must count the product spent on the
 initial guess

---
 pykrylov/tfqmr/tfqmr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 5f2e55d..ee3bcea 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -57,6 +57,7 @@ class TFQMR( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
-- 
2.43.0


From 06a04f60674160187cd15a8dbb7ba6491801337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 008/108] fix: TFQMR must not iterate in integer arithmetic

---
 pykrylov/tfqmr/tfqmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index ee3bcea..a1bddf6 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -49,12 +49,12 @@ class TFQMR( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
-        r0 = rhs  # Fixed vector throughout
+        r0 = rhs.astype(result_type)  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
-- 
2.43.0


From d236b52cfdf586b3859a477290e2060d94ce0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 009/108] fix: CGS inner products must be conjugated for
 complex systems

---
 pykrylov/cgs/cgs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index b8a4235..a3eff9e 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -60,7 +60,7 @@ class CGS( KrylovMethod ):
             r0 = rhs - self.op * x
             nMatvec += 1
 
-        rho = np.dot(r0,r0)
+        rho = np.vdot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
         self.residNorm0 = residNorm
         threshold = max( self.abstol, self.reltol * self.residNorm0 )
@@ -82,7 +82,7 @@ class CGS( KrylovMethod ):
                 y = p
 
             v = self.op * y ; nMatvec += 1
-            sigma = np.dot(r0,v)
+            sigma = np.vdot(r0,v)
             alpha = rho/sigma
             q = u - alpha * v
 
@@ -103,7 +103,7 @@ class CGS( KrylovMethod ):
                 finished = True
                 continue
 
-            rho_next = np.dot(r0,r)
+            rho_next = np.vdot(r0,r)
             beta = rho_next/rho
             rho = rho_next
             u = r + beta * q
-- 
2.43.0


From 5cc177e3121300e5cb56c3656caa1c156bb31833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 010/108] fix: TFQMR inner products must be conjugated for
 complex systems

---
 pykrylov/tfqmr/tfqmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index a1bddf6..5fd2fbb 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -59,7 +59,7 @@ class TFQMR( KrylovMethod ):
             r0 = rhs - self.op * x
             nMatvec += 1
 
-        rho = np.dot(r0,r0)
+        rho = np.vdot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
         self.residNorm0 = residNorm
         threshold = max( self.abstol, self.reltol * self.residNorm0 )
@@ -86,7 +86,7 @@ class TFQMR( KrylovMethod ):
         while not finished:
 
             k += 1
-            sigma = np.dot(r0,v)
+            sigma = np.vdot(r0,v)
             alpha = rho/sigma
 
             # First pass
@@ -126,7 +126,7 @@ class TFQMR( KrylovMethod ):
                 continue
 
             # Final updates
-            rho_next = np.dot(r0,w)
+            rho_next = np.vdot(r0,w)
             beta = rho_next/rho
             rho = rho_next
 
-- 
2.43.0


From fe6afc5b5e63f73692eea7fe375914ddaa3835a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 011/108] fix: CGS must not exceed an odd matvec_max

---
 pykrylov/cgs/cgs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a3eff9e..94f97f6 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -67,7 +67,8 @@ class CGS( KrylovMethod ):
         self.logger.info('Initial residual = %8.2e\n' % self.residNorm0)
         self.logger.info('Threshold = %8.2e\n' % threshold)
 
-        finished = (residNorm <= threshold or nMatvec >= matvec_max)
+        # Each iteration costs two operator-vector products.
+        finished = (residNorm <= threshold or nMatvec + 2 > matvec_max)
 
         if not finished:
             r = r0.copy()   # Initial residual vector
@@ -99,7 +100,7 @@ class CGS( KrylovMethod ):
             # Update residual norm and check convergence
             residNorm = np.linalg.norm(r)
 
-            if residNorm <= threshold or nMatvec >= matvec_max:
+            if residNorm <= threshold or nMatvec + 2 > matvec_max:
                 finished = True
                 continue
 
-- 
2.43.0


From 19030c5a4d4808971ea988b2027333373720818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 012/108] fix: TFQMR must report an outcome when it has nothing
 to iterate on

---
 pykrylov/tfqmr/tfqmr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 5fd2fbb..ef50e1a 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -66,6 +66,7 @@ class TFQMR( KrylovMethod ):
         self.logger.info('Initial residual = %8.2e' % self.residNorm0)
         self.logger.info('Threshold = %8.2e' % threshold)
 
+        m = 0.0
         finished = (residNorm <= threshold or nMatvec >= matvec_max)
 
         if not finished:
@@ -99,7 +100,7 @@ class TFQMR( KrylovMethod ):
             eta = c * c * alpha
             x += eta * d
             m = 2.0 * k - 1.0
-            if residNorm * np.sqrt(m+1) < threshold or nMatvec >= matvec_max:
+            if residNorm * np.sqrt(m+1) <= threshold or nMatvec >= matvec_max:
                 finished = True
                 continue
 
@@ -121,7 +122,7 @@ class TFQMR( KrylovMethod ):
             residNorm *= theta * c
             eta = c * c * alpha
             x += eta * d
-            if residNorm * np.sqrt(m+1) < threshold or nMatvec >= matvec_max:
+            if residNorm * np.sqrt(m+1) <= threshold or nMatvec >= matvec_max:
                 finished = True
                 continue
 
@@ -154,7 +155,7 @@ class TFQMR( KrylovMethod ):
             self.logger.info('%5d  %8.2e' % (nMatvec, residNorm))
 
 
-        self.converged = residNorm * np.sqrt(m+1) < threshold
+        self.converged = residNorm * np.sqrt(m+1) <= threshold
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
-- 
2.43.0


From e5fa8fa7b50e7f90fb0b9094276b78d9ff4689f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 013/108] fix: BiCGSTAB must return the iterate whose residual
 it reports when the budget runs out

---
 pykrylov/bicgstab/bicgstab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 447e901..6127ea6 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -114,6 +114,7 @@ class BiCGSTAB( KrylovMethod ):
                 continue
 
             if nMatvec >= matvec_max:
+                x += alpha * q
                 finished = True
                 continue
 
-- 
2.43.0


From 564231ad9fe99371fc59bd62654e418f14a4e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 014/108] fix: BiCGSTAB inner products must be conjugated for
 complex systems

---
 pykrylov/bicgstab/bicgstab.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 6127ea6..92cd3f2 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -65,7 +65,7 @@ class BiCGSTAB( KrylovMethod ):
             nMatvec += 1
 
         rho = alpha = omega = 1.0
-        rho_next = np.dot(r0,r0)
+        rho_next = np.vdot(r0,r0)
         residNorm = self.residNorm0 = np.abs(np.sqrt(rho_next))
         threshold = max( self.abstol, self.reltol * self.residNorm0 )
 
@@ -100,7 +100,7 @@ class BiCGSTAB( KrylovMethod ):
 
             v = self.op * q ; nMatvec += 1
 
-            alpha = rho/np.dot(r0, v)
+            alpha = rho/np.vdot(r0, v)
             s = r - alpha * v
 
             # Check for CGS termination
@@ -124,8 +124,8 @@ class BiCGSTAB( KrylovMethod ):
                 z = s
 
             t = self.op * z ; nMatvec += 1
-            omega = np.dot(t,s)/np.dot(t,t)
-            rho_next = -omega * np.dot(r0,t)
+            omega = np.vdot(t,s)/np.vdot(t,t)
+            rho_next = -omega * np.vdot(r0,t)
 
             # Update residual
             r = s - omega * t
-- 
2.43.0


From 4f37694921b51b09ad238a57fb2a9a478358cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 015/108] fix: BiCGSTAB must not iterate in integer arithmetic

---
 pykrylov/bicgstab/bicgstab.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 92cd3f2..77a9e69 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -53,13 +53,13 @@ class BiCGSTAB( KrylovMethod ):
         nMatvec = 0
 
         # Initial guess is zero unless one is supplied
-        result_type = np.result_type(self.op.dtype, rhs.dtype)
+        result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
         guess_supplied = 'guess' in kwargs.keys()
         x = kwargs.get('guess', np.zeros(n)).astype(result_type)
         matvec_max = kwargs.get('matvec_max', 2*n)
 
         # Initial residual is the fixed vector
-        r0 = rhs
+        r0 = rhs.astype(result_type)
         if guess_supplied:
             r0 = rhs - self.op * x
             nMatvec += 1
-- 
2.43.0


From e69feffad65a2d1409cfd772cd9e9e4bbdf23b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 016/108] fix: MINRES must use the preconditioner given to its
 constructor

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ab9bb5d..151135f 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -118,7 +118,7 @@ class Minres(KrylovMethod):
         n = b.shape[0]
 
         # Read keyword arguments
-        precon = kwargs.get('precon', None)
+        precon = kwargs.get('precon', self.precon)
         shift  = kwargs.get('shift',  0.0)
         show   = kwargs.get('show',   True)
         check  = kwargs.get('check',  True)
-- 
2.43.0


From a376d6301fbffcf465fa1d94878822a6bb107a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 017/108] fix: MINRES must stop, and report success, when b is
 an eigenvector or zero

---
 pykrylov/minres/minres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 151135f..ff90a81 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -378,7 +378,7 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
                 if (itn % 10)==0: print ' '
 
@@ -392,7 +392,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [1,2,3,4,10]
+        self.converged = istop in [-1,1,2,3,4,10] or (istop == 0 and beta1 == 0)
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From fa1a644dd82f5f80d5232d478a057516bceddb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 018/108] fix: MINRES must report an indefinite preconditioner
 as such

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ff90a81..9da772e 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -250,7 +250,7 @@ class Minres(KrylovMethod):
                 oldb   = beta
                 beta   = dot(r2,y)
                 if beta < 0:
-                    istop = 6
+                    istop = 9
                     break
                 beta   = sqrt(beta)
                 tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
-- 
2.43.0


From 9169364354c2b299f579fb62b2e7aba906f8408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 019/108] fix: MINRES residual history must not carry over from
 a previous solve

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 9da772e..6cae964 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -131,6 +131,7 @@ class Minres(KrylovMethod):
 
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
+        self.residHistory = []     # Residual norms.
 
         result_type = np.result_type(A.dtype, b.dtype)
         x = zeros(n, dtype=result_type)
-- 
2.43.0


From 4723759d54b90d10a2601f596c9953c09ad7b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 020/108] fix: MINRES must not print when show is False

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 6cae964..70d2d85 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -381,7 +381,7 @@ class Minres(KrylovMethod):
 
                 if istop != 0: break
 
-                if (itn % 10)==0: print ' '
+                if show and (itn % 10)==0: print ' '
 
         # Display final status.
 
-- 
2.43.0


From 20b8a58f916b1f7970ceb7c2c8d8f0f4ea750846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 021/108] fix: MINRES must not iterate in integer arithmetic

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 70d2d85..f48de4a 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -133,7 +133,7 @@ class Minres(KrylovMethod):
         self.iterates = []
         self.residHistory = []     # Residual norms.
 
-        result_type = np.result_type(A.dtype, b.dtype)
+        result_type = np.result_type(A.dtype, b.dtype, 1.0)
         x = zeros(n, dtype=result_type)
         xNrgNorm2 = 0.0          # Squared energy norm of final solution.
         dErr = zeros(window)     # Truncated direct error terms.
-- 
2.43.0


From d49936ac86d94280619c5961279c45d4baf8b458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 022/108] fix: check_symmetric must not reseed the global
 random number generator

---
 pykrylov/tools/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index f37d678..acad88a 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -71,9 +71,9 @@ def check_symmetric(op, repeats=10):
     if m != n:
         return False
     eps = machine_epsilon()
-    np.random.seed(1)
+    rng = np.random.RandomState(1)
     for _ in xrange(repeats):
-        x = np.random.random(n)
+        x = rng.random_sample(n)
         w = op * x
         r = op * w
         s = np.dot(w, w)
-- 
2.43.0


From cecf9e2326610b211591776464277339d7f9d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 023/108] fix: SYMMLQ must multiply with the operator it was
 given

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index a756d45..4b5f86e 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -159,7 +159,7 @@ class Symmlq(KrylovMethod) :
             s     = 1.0 / beta1
             v     = s * y
 
-            y = self.matvec(v) ; nMatvec += 1
+            y = self.op * v ; nMatvec += 1
             if check:
                 r2 = self.op * y  # Do not count this matrix-vector product
                 s = np.dot(y,y)
-- 
2.43.0


From ac13b5c9df75dd455da7ca47572aa5d82cf6cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 024/108] fix: SYMMLQ must handle a zero right-hand side and
 failed argument checks

---
 pykrylov/symmlq/symmlq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 4b5f86e..c6c8b13 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -119,6 +119,9 @@ class Symmlq(KrylovMethod) :
         itn    = 0 ; xnorm  = 0 ; x = np.zeros(n) ; done=False
         anorm  = 0 ; rnorm  = 0 ; v = np.zeros(n)
 
+        cgnorm = 0.0   ; lqnorm = 0.0 ; qrnorm = 0.0
+        bstep  = 0.0   ; x1cg = 0.0
+
         if store_iterates:
             self.iterates.append(x.copy())
 
@@ -223,7 +226,7 @@ class Symmlq(KrylovMethod) :
         self.logger.info(head1 + head2)
 
         str1 = '%6g %12.5e %10.3e' % (itn, x1cg, cgnorm)
-        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep/beta1)
+        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep)
         self.logger.info(str1 + str2)
 
         # ------------------------------------------------------------------
@@ -366,7 +369,7 @@ class Symmlq(KrylovMethod) :
 
         # Add the step along b.
 
-        bstep  = bstep / beta1
+        if beta1 > 0: bstep  = bstep / beta1
         if self.precon is not None:
             y = self.precon * rhs
         else:
-- 
2.43.0


From 63613ab1b1bd5fd1e7eac85aec408a61b9cf644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 025/108] fix: SYMMLQ must respect matvec_max and stop at a
 consistent iterate

---
 pykrylov/symmlq/symmlq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index c6c8b13..3947144 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -235,7 +235,7 @@ class Symmlq(KrylovMethod) :
         # Estimate various norms and test for convergence.
 
         if not done:
-            while nMatvec < matvec_max:
+            while True:
                 itn    = itn  +  1
                 anorm  = np.sqrt(tnorm)
                 ynorm  = np.sqrt(ynorm2)
@@ -272,7 +272,8 @@ class Symmlq(KrylovMethod) :
                 # (Abar = const * I).
 
                 if istop == 0:
-                    if nMatvec >= matvec_max : istop = 5
+                    # Keep one product to compute the final residual.
+                    if nMatvec+1 >= matvec_max : istop = 5
                     if acond   >= 0.1/eps    : istop = 4
                     if epsx    >= beta1      : istop = 3
                     if cgnorm  <= epsx       : istop = 2
-- 
2.43.0


From c2c386ecdc5a9ccd5525c60a29a451c088f5130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 026/108] fix: SYMMLQ must report an indefinite preconditioner
 as such

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 3947144..51d1d92 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -315,7 +315,7 @@ class Symmlq(KrylovMethod) :
                 beta = np.dot(r2, y)
 
                 if beta < 0:
-                    istop = 6
+                    istop = 8
                     break
 
                 beta  = np.sqrt(beta)
-- 
2.43.0


From cf6c62b8279709d708c4d00181abbbed348d4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 027/108] fix: SYMMLQ must report its outcome

---
 pykrylov/symmlq/symmlq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 51d1d92..a62894c 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -397,6 +397,9 @@ class Symmlq(KrylovMethod) :
         self.logger.info(last + fmt % (rnorm, xnorm))
         self.logger.info(last + msg[istop])
 
+        self.istop = istop ; self.itn = itn
+        self.converged = istop in [-1,1,2] or (istop == 0 and beta1 == 0)
+        self.residNorm0 = beta1
         self.nMatvec = nMatvec
         self.bestSolution = x ; self.solutionNorm = xnorm
         self.x = self.bestSolution ; self.xNorm = xnorm
-- 
2.43.0


From 04aa98deb59e00905c53444eb0595133fcb378d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 028/108] fix: SYMMLQ iterates must not carry over from a
 previous solve

---
 pykrylov/symmlq/symmlq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index a62894c..abd753a 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -92,6 +92,7 @@ class Symmlq(KrylovMethod) :
         if shift == 0.0: shift = None
         eps = machine_epsilon()
         store_iterates = kwargs.get('store_iterates', False)
+        self.iterates = []
 
         first = 'Enter SYMMLQ.   '
         last  = 'Exit  SYMMLQ.   '
-- 
2.43.0


From 7e470d83ecdb91b7958f70e07e6785a80deb1e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 029/108] fix: LSQR must honour conlim

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 2cb1297..58d5c62 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -160,7 +160,7 @@ class LSQRFramework(KrylovMethod):
 
         itn = istop = 0
         ctol = 0.0
-        if conlim > 0.0: self.ctol = 1.0/conlim
+        if conlim > 0.0: ctol = 1.0/conlim
         Anorm = Acond = 0.
         z = xnorm = xxnorm = ddnorm = res2 = 0.
         cs2 = -1. ; sn2 = 0.
-- 
2.43.0


From f65b4a29c67a90ea703b3d2bb4589f6827bac611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 030/108] fix: LSQR must not fail when variances are requested

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 58d5c62..c591cb1 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -152,7 +152,7 @@ class LSQRFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
-- 
2.43.0


From ad62ec8b0203f2f22d2a5b1396bc50adc51caabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 031/108] fix: LSQR must accept integer right-hand sides

---
 pykrylov/lls/lsqr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index c591cb1..119104b 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -13,7 +13,7 @@ Dominique Orban, Ecole Polytechnique de Montreal
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot, inf
+from numpy import zeros, dot, inf, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -185,7 +185,7 @@ class LSQRFramework(KrylovMethod):
         if store_iterates:
             self.iterates.append(x.copy())
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(result_type(rhs.dtype, 1.0))
         if M is not None:
             u = M(Mu)
         else:
-- 
2.43.0


From 40f8bf12d052e1c8513c76adefa09093429a59f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 032/108] fix: LSQR must report a zero solution as optimal

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 119104b..ad63baf 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -438,7 +438,7 @@ class LSQRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From 68b392ab461929ed351a093d30d5005574c18092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 033/108] fix: LSMR must honour integer values of conlim

---
 pykrylov/lls/lsmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 05d1c59..681664a 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -275,7 +275,7 @@ class LSMRFramework(KrylovMethod):
         normb  = beta
         istop  = 0
         ctol   = 0
-        if conlim > 0: ctol = 1/conlim
+        if conlim > 0: ctol = 1.0/conlim
         normr  = beta
 
         # Reverse the order here from the original matlab code because
-- 
2.43.0


From 1f731d86056b491a851a424258294e0b7f1cad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 034/108] fix: LSMR must accept integer right-hand sides

---
 pykrylov/lls/lsmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 681664a..17f076b 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -207,7 +207,7 @@ class LSMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()
+        Mu = b.astype(result_type(b.dtype, 1.0))
         if M is not None:
             u = M(Mu)
         else:
-- 
2.43.0


From 5e549e8614ae5a66e9ffb4ef21d672a3b62236fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 035/108] fix: CRAIG must not fail when variances are requested

---
 pykrylov/lls/craig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 22592ae..4c1ccd5 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -176,7 +176,7 @@ class CRAIGFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
-- 
2.43.0


From aa46d8405a0f3f058515a7de7351262102e3ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 036/108] fix: CRAIG must accept integer right-hand sides

---
 pykrylov/lls/craig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 4c1ccd5..804b261 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -17,7 +17,7 @@ dominique.orban@gerad.ca
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot, inf
+from numpy import zeros, dot, inf, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -209,7 +209,7 @@ class CRAIGFramework(KrylovMethod):
         dErr = zeros(window)     # Truncated direct error terms.
         trncDirErr = 0           # Truncated direct error.
 
-        Mu = rhs[:m].copy()
+        Mu = rhs[:m].astype(result_type(rhs.dtype, 1.0))
         if M is not None:
             u = M(Mu)
         else:
-- 
2.43.0


From ec7bfc2519599764870b4ae7077702bae0fd1ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 037/108] fix: CRAIG must handle a zero right-hand side

---
 pykrylov/lls/craig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 804b261..642679e 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -215,7 +215,9 @@ class CRAIGFramework(KrylovMethod):
         else:
             u = Mu
 
+        v = zeros(n)
         alpha = 0.
+        Arnorm = 0.
         beta = sqrt(dot(u,Mu))       # norm(u)
         if beta > 0:
             u /= beta
-- 
2.43.0


From 86fc4d3217899d4a35c5b604ecb233d892a3df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 038/108] fix: CRAIG-MR must not print at each iteration

---
 pykrylov/lls/craigmr.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 12ecbed..fc22180 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -187,7 +187,6 @@ class CRAIGMRFramework(KrylovMethod):
             zeta     = c_hat * zeta_hat
             zeta_hat = s_hat * zeta_hat
             xNrgNorm2 += zeta * zeta
-            print itn, xNrgNorm2
             d = (u - beta_hat * d) / alpha_hat
             x += zeta * dbar
 
-- 
2.43.0


From 2d0db967e77ce08b56c365587c28b5bcd0b2623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 039/108] fix: CRAIG-MR must accept integer right-hand sides

---
 pykrylov/lls/craigmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index fc22180..7d71362 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -5,7 +5,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -72,7 +72,7 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Initialize the Golub-Kahan bidiagonalization process.
 
-        Mu = b.copy()  # Don't want to change input vector.
+        Mu = b.astype(result_type(b.dtype, 1.0))  # Don't want to change input vector.
         if M is not None:
             u = M(Mu)
         else:
-- 
2.43.0


From aea7fa5e134faf782e16dedfd5fb8337455ba711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 040/108] fix: LSMR must record its outcome in its members,
 also when x = 0

---
 pykrylov/lls/lsmr.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 17f076b..c89348e 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -284,7 +284,7 @@ class LSMRFramework(KrylovMethod):
         if normar == 0:
             if show:
                 print msg[0]
-            return x, istop, itn, normr, normar, normA, condA, normx
+            return self._report(x, istop, itn, normr, normar, normA, condA, normx)
 
         if show:
             print ' '
@@ -488,7 +488,20 @@ class LSMRFramework(KrylovMethod):
             print str3, str4
             print 'Estimated energy norm of x: %7.1e' % sqrt(xNrgNorm2)
 
-        self.x = x
+        return self._report(x, istop, itn, normr, normar, normA, condA, normx)
+
+    def _report(self, x, istop, itn, normr, normar, normA, condA, normx):
+        # Record the outcome in members, as the other methods do.
+        self.optimal = istop in [1,2,4,5,8] or normar == 0
+        self.x = self.bestSolution = x
+        self.istop = istop
+        self.itn = itn
+        self.nMatvec = 2*itn
+        self.r2norm = self.residNorm = normr
+        self.Arnorm = normar
+        self.Anorm = normA
+        self.Acond = condA
+        self.xnorm = normx
         return x, istop, itn, normr, normar, normA, condA, normx
 
 
-- 
2.43.0


From 5eb8c781b3dde117bde6b46de7cd98df50ad652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 041/108] fix: dividing an operator by an integer must not
 round the quotient

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index a7d8155..937fbc6 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -431,7 +431,7 @@ class LinearOperator(BaseLinearOperator):
     def __div__(self, other):
         if not np.isscalar(other):
             raise ValueError('Cannot divide')
-        return self * (1 / other)
+        return self * (1. / other)
 
     def __truediv__(self, other):
         if not np.isscalar(other):
-- 
2.43.0


From 4be2428291472bc224bdfbb47915131a75ea9151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 042/108] fix: a complex symmetric array is not Hermitian by
 default

---
 pykrylov/linop/linop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 937fbc6..b162f11 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -723,7 +723,8 @@ def PysparseLinearOperator(A):
 def linop_from_ndarray(A, symmetric=False, **kwargs):
     "Return a linear operator from a Numpy `ndarray`."
 
-    hermitian = kwargs.get('hermitian', symmetric)
+    hermitian = kwargs.get('hermitian',
+                           symmetric and A.dtype not in complex_types)
 
     if A.dtype in complex_types:
         return LinearOperator(A.shape[1], A.shape[0],
-- 
2.43.0


From dd1fbf4150caec67ab98a7bd11348b7da1624575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 043/108] fix: DiagonalOperator must multiply by its own copy
 of the diagonal

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index b162f11..5022e66 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -492,7 +492,7 @@ class DiagonalOperator(LinearOperator):
         diag = np.asarray(diag)
         if diag.ndim != 1:
             raise ValueError('Input must be 1-d array')
-        self.__diag = diag.copy()
+        self.__diag = diag = diag.copy()
 
         super(DiagonalOperator, self).__init__(diag.shape[0], diag.shape[0],
                                                symmetric=True,
-- 
2.43.0


From ce26b6a3dd776ce9a86ccdc34f3f16601258665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 044/108] fix: CoordLinearOperator must infer shapes that hold
 all its entries

---
 pykrylov/linop/linop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 5022e66..e3eae44 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -643,8 +643,9 @@ def CoordLinearOperator(vals, rows, cols,
     `rows` and `cols`. If `symmetric` is `True`, then `vals`, `rows` and
     `cols` are assumed to only represent one triangle of the operator.
     """
-    if nargin == 0: nargin = cols.max()
-    if nargout == 0: nargout = rows.max()
+    if nargin == 0: nargin = cols.max() + 1
+    if nargout == 0: nargout = rows.max() + 1
+    if symmetric: nargin = nargout = max(nargin, nargout)
 
     def matvec(x):
       if x.shape != (nargin,):
-- 
2.43.0


From 798428387beb6e01fd37b340d36525524ba96e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 045/108] fix: BlockLinearOperator must not modify the lists
 given by the caller

---
 pykrylov/linop/blkop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 41511ae..32e9f61 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -33,7 +33,7 @@ class BlockLinearOperator(LinearOperator):
                 if hermitian and not block_row[0].hermitian:
                     raise ValueError('Blocks on diagonal must be hermitian.')
 
-            self._blocks = copy(blocks)
+            self._blocks = [copy(row) for row in blocks]
             for i in range(1, nrow):
                 for j in range(i - 1, -1, -1):
                     if symmetric:
-- 
2.43.0


From 73bcf55188dd432f66c9cb3a667dd63a44bc38ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 046/108] fix: BlockLinearOperator must reject every
 inconsistent block layout

---
 pykrylov/linop/blkop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 32e9f61..3b09711 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -49,9 +49,11 @@ class BlockLinearOperator(LinearOperator):
 
         nargins = [[blk.shape[-1] for blk in row] for row in self._blocks]
         log.debug('nargins = ' + repr(nargins))
-        nargins_by_row = [nargin[0] for nargin in nargins]
-        if min(nargins_by_row) != max(nargins_by_row):
+        if len(set([len(row) for row in nargins])) != 1:
             raise ShapeError('Inconsistent block shapes')
+        for col in zip(*nargins):
+            if min(col) != max(col):
+                raise ShapeError('Inconsistent block shapes')
 
         nargouts = [[blk.shape[0] for blk in row] for row in self._blocks]
         log.debug('nargouts = ' + repr(nargouts))
-- 
2.43.0


From a03c4281cc192b24f752c50f372e3ef89a2d56f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 047/108] fix: the transpose of a block-diagonal operator must
 use transposed shapes

---
 pykrylov/linop/blkop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 3b09711..b3a1a8a 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -186,9 +186,9 @@ class BlockDiagonalLinearOperator(LinearOperator):
 
         def blk_matvec(x, blks):
             nx = len(x)
-            nargins = [blk.shape[-1] for blk in blocks]
+            nargins = [blk.shape[-1] for blk in blks]
             nargin = sum(nargins)
-            nargouts = [blk.shape[0] for blk in blocks]
+            nargouts = [blk.shape[0] for blk in blks]
             nargout = sum(nargouts)
             self.logger.debug('Multiplying with a vector of size %d' % nx)
             self.logger.debug('nargin=%d, nargout=%d' % (nargin, nargout))
-- 
2.43.0


From 6a7c88952ed03c4e66498ffaf286606466b4310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 048/108] fix: BlockDiagonalLinearOperator must not share the
 list given by the caller

---
 pykrylov/linop/blkop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index b3a1a8a..ba9a972 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -166,7 +166,7 @@ class BlockDiagonalLinearOperator(LinearOperator):
         hermitian = reduce(lambda x, y: x and y,
                            [blk.hermitian for blk in blocks])
 
-        self._blocks = blocks
+        self._blocks = list(blocks)
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockDiagonalLinearOperator')
-- 
2.43.0


From 35be09ab3a37e28a202b7257a84deb1683f9b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 049/108] fix: StructuredLBFGSOperator cannot be instantiated

---
 pykrylov/linop/lbfgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index f570bf6..7f89903 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -274,7 +274,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
                          done as 'method M3' in the LBFGS paper by Zhou and
                          Nocedal; the scaling factor is s'y/y'y (default: False).
         """
-        super(StructuredLBFGSOperator, self).__init__(self, n, npairs, **kwargs)
+        super(StructuredLBFGSOperator, self).__init__(n, npairs, **kwargs)
         self.yd = np.empty((self.n, self.npairs))
         self.accept_threshold = 1e-8
 
-- 
2.43.0


From c08ec928960e325fd4f99fa2324707ed45efe416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 050/108] fix: StructuredLBFGSOperator cannot store pairs

---
 pykrylov/linop/lbfgs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 7f89903..a6d46b5 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -334,7 +334,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         | y_k' s_k + (y's s_k' B_k s_k)**.5 | >= 1e-8.
         """
         ys = np.dot(new_s, new_y)
-        Bs = self.matvec(new_s)
+        Bs = self * new_s
         ypBs = ys + (ys * np.dot(new_s, Bs))**0.5
 
         if ypBs >= self.accept_threshold:
@@ -346,5 +346,5 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
             self.insert += 1
             self.insert = self.insert % self.npairs
         else:
-            self.log.debug('Rejecting (s,y) pair')
+            self.logger.debug('Rejecting (s,y) pair')
         return
-- 
2.43.0


From b0c927916302468ca841deb300288f5c54ce1d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 051/108] fix: StructuredLBFGSOperator must satisfy the secant
 equation with several pairs

---
 pykrylov/linop/lbfgs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index a6d46b5..5082b5b 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -309,17 +309,17 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         for i in range(npairs):
             k = (self.insert + i) % npairs
             if ys[k] is not None:
-                coef = (self.gamma * ys[k] / np.dot(s[:, k], s[:, k]))**0.5
-                a[:, k] = y[:, k] + coef * s[:, k] / self.gamma
-                ad[:, k] = yd[:, k] - s[:, k] / self.gamma
+                # Accumulate Bs, where B is the approximation prior to this pair.
+                Bs = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % npairs
                     if ys[l] is not None:
                         alTs = np.dot(a[:, l], s[:, k]) / aTs[l]
                         adlTs = np.dot(ad[:, l], s[:, k])
-                        update = alTs / aTs[l] * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
-                        a[:, k] += coef * update
-                        ad[:, k] -= update
+                        Bs += alTs * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
+                coef = (ys[k] / np.dot(s[:, k], Bs))**0.5
+                a[:, k] = y[:, k] + coef * Bs
+                ad[:, k] = yd[:, k] - Bs
                 aTs[k] = np.dot(a[:, k], s[:, k])
                 adTs[k] = np.dot(ad[:, k], s[:, k])
                 aTv = np.dot(a[:, k], v[:])
-- 
2.43.0


From 0a9a321b8695b4a5a6af653261a10fa20d56e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 052/108] fix: LBFGSOperator must honour scaling

---
 pykrylov/linop/lbfgs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 5082b5b..90b910e 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -153,6 +153,13 @@ class LBFGSOperator(InverseLBFGSOperator):
         ys = self.ys
         b = np.zeros((self.n, self.npairs))
         a = np.zeros((self.n, self.npairs))
+        gamma = 1.0
+
+        if self.scaling:
+            last = (self.insert - 1) % self.npairs
+            if ys[last] is not None:
+                gamma = ys[last] / np.dot(y[:, last], y[:, last])
+                q /= gamma
 
         # B = Σ aa' - bb'.
         for i in range(self.npairs):
@@ -161,7 +168,7 @@ class LBFGSOperator(InverseLBFGSOperator):
                 b[:, k] = y[:, k] / ys[k]**.5
                 bv = np.dot(b[:, k], v[:])
                 q += bv * b[:, k]
-                a[:, k] = s[:, k].copy()
+                a[:, k] = s[:, k] / gamma
                 for j in range(i):
                     l = (self.insert + j) % self.npairs
                     if ys[l] is not None:
-- 
2.43.0


From b52c7ea1509ccbb310461ebd48b95e2fe90c42fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 053/108] fix: L-BFGS operators must accept integer vectors

---
 pykrylov/linop/lbfgs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 90b910e..fcbfbb9 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -101,7 +101,7 @@ class InverseLBFGSOperator(LinearOperator):
         positive-definite approximation to the inverse Hessian matrix and the
         vector v using the LBFGS two-loop recursion formula.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, 1.0))
         s = self.s
         y = self.y
         ys = self.ys
@@ -147,7 +147,7 @@ class LBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, 1.0))
         s = self.s
         y = self.y
         ys = self.ys
@@ -202,8 +202,8 @@ class CompactLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and caching key dot products.
         """
-        q = v.copy()
-        r = v.copy()
+        q = v.astype(np.result_type(v.dtype, 1.0))
+        r = q.copy()
         s = self.s
         y = self.y
         ys = self.ys
@@ -295,7 +295,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, 1.0))
         s = self.s
         y = self.y
         yd = self.yd
-- 
2.43.0


From b26503e63fb810cba0a98cbe81a24723456cbae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 054/108] fix: L-BFGS operators must not discard the imaginary
 part of a vector

---
 pykrylov/linop/lbfgs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index fcbfbb9..1d280a8 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -105,7 +105,7 @@ class InverseLBFGSOperator(LinearOperator):
         s = self.s
         y = self.y
         ys = self.ys
-        alpha = self.alpha
+        alpha = self.alpha.astype(q.dtype)
         for i in range(self.npairs):
             k = (self.insert - 1 - i) % self.npairs
             if ys[k] is not None:
@@ -208,7 +208,7 @@ class CompactLBFGSOperator(InverseLBFGSOperator):
         y = self.y
         ys = self.ys
         prodn = 2 * self.npairs
-        a = np.zeros(prodn)
+        a = np.zeros(prodn, q.dtype)
         minimat = np.zeros([prodn, prodn])
 
         if self.scaling:
-- 
2.43.0


From 74ada8fcd01d1c28ec4d9c888bbd114ab87d4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 055/108] fix: replacing a block must update the transpose and
 the adjoint

---
 pykrylov/linop/blkop.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index ba9a972..5054fe1 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -141,9 +141,10 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i][j] = self._blocks[j][i].T
                     else:
                         self._blocks[i][j] = self._blocks[j][i].H
-        else:
-            self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
-            self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+        self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
+        self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+        self.T._blocks = self._blocksT
+        self.H._blocks = self._blocksH
 
     def __contains__(self, op):
         return op in list(itertools.chain(*self.blocks))
@@ -252,10 +253,10 @@ class BlockDiagonalLinearOperator(LinearOperator):
                         msg = 'Block operators can only contain linear operators'
                         raise ValueError(msg)
         self._blocks.__setitem__(idx, ops)
-        if not self.symmetric:
-            self._blocksT = [blk.T for blk in self._blocks]
-        if not self.hermitian:
-            self._blocksH = [blk.H for blk in self._blocks]
+        self._blocksT = [blk.T for blk in self._blocks]
+        self._blocksH = [blk.H for blk in self._blocks]
+        self.T._blocks = self._blocksT
+        self.H._blocks = self._blocksH
 
 
 class BlockPreconditioner(BlockLinearOperator):
-- 
2.43.0


From 69d498054d67d0db8db61d2be0fe1f0452b6c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 056/108] fix: block operators must reject replacements that do
 not fit

---
 pykrylov/linop/blkop.py | 45 +++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 5054fe1..f5fa995 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -5,6 +5,23 @@ import numpy as np
 import itertools
 
 
+def _check_replacement(op, old_blocks, new_blocks):
+    # Ensure that `new_blocks` can stand in for `old_blocks` in `op` and
+    # return the type that `op` then has.
+    old_blocks, new_blocks = list(old_blocks), list(new_blocks)
+    for blk in new_blocks:
+        if not isinstance(blk, BaseLinearOperator):
+            msg = 'Block operators can only contain linear operators'
+            raise ValueError(msg)
+    if [blk.shape for blk in old_blocks] != [blk.shape for blk in new_blocks]:
+        raise ShapeError('Inconsistent block shapes')
+    dtype = np.result_type(op.dtype, *[blk.dtype for blk in new_blocks])
+    if np.issubdtype(dtype, np.complexfloating) and \
+       not np.issubdtype(op.dtype, np.complexfloating):
+        raise ValueError('A real block operator cannot contain complex blocks')
+    return dtype
+
+
 class BlockLinearOperator(LinearOperator):
     """
     A linear operator defined by blocks. Each block must be a linear operator.
@@ -133,7 +150,16 @@ class BlockLinearOperator(LinearOperator):
     def __setitem__(self, indices, val):
         blks_mat = np.matrix(self._blocks, dtype=object)
         blks_mat.__setitem__(indices, val)
-        self._blocks = blks_mat.tolist()
+        new_blocks = blks_mat.tolist()
+        dtype = _check_replacement(self, itertools.chain(*self._blocks),
+                                   itertools.chain(*new_blocks))
+        for i in range(len(new_blocks)):
+            if self.symmetric and not new_blocks[i][i].symmetric:
+                raise ValueError('Blocks on diagonal must be symmetric.')
+            if self.hermitian and not new_blocks[i][i].hermitian:
+                raise ValueError('Blocks on diagonal must be hermitian.')
+        self._blocks = new_blocks
+        self.dtype = self.T.dtype = self.H.dtype = dtype
         if self.symmetric or self.hermitian:
             for i in range(1, len(self._blocks)):
                 for j in range(i):
@@ -246,13 +272,16 @@ class BlockDiagonalLinearOperator(LinearOperator):
         return blks
 
     def __setitem__(self, idx, ops):
-        if not isinstance(ops, BaseLinearOperator):
-            if isinstance(ops, list) or isinstance(ops, tuple):
-                for op in ops:
-                    if not isinstance(op, BaseLinearOperator):
-                        msg = 'Block operators can only contain linear operators'
-                        raise ValueError(msg)
-        self._blocks.__setitem__(idx, ops)
+        new_blocks = copy(self._blocks)
+        new_blocks.__setitem__(idx, ops)
+        dtype = _check_replacement(self, self._blocks, new_blocks)
+        for blk in new_blocks:
+            if self.symmetric and not blk.symmetric:
+                raise ValueError('Blocks on diagonal must be symmetric.')
+            if self.hermitian and not blk.hermitian:
+                raise ValueError('Blocks on diagonal must be hermitian.')
+        self._blocks = new_blocks
+        self.dtype = self.T.dtype = self.H.dtype = dtype
         self._blocksT = [blk.T for blk in self._blocks]
         self._blocksH = [blk.H for blk in self._blocks]
         self.T._blocks = self._blocksT
-- 
2.43.0


From 90aebf43fcfea25b185c0b30d589093337dc690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 057/108] fix: an inferred adjoint (transpose) must refer back
 to its operator

---
 pykrylov/linop/linop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index e3eae44..88cef87 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -139,11 +139,13 @@ class LinearOperator(BaseLinearOperator):
                     if self.H is None and __conj is not None:
                         self.logger.debug('Inferring .H')
                         self.__H = __conj.T
+                        self.__H.__H = self
                 if self.H is not None:
                     self.__H.__T = __conj
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
+                        self.__T.__T = self
 
     def __set_transpose(self, matvec, transpose_of=None, matvec_transp=None, **kwargs):
 
-- 
2.43.0


From 7347792f5ef25ad2ac1056480fbbf1882be4edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 058/108] fix: the transpose of a complex Hermitian operator
 must know its own adjoint

---
 pykrylov/linop/linop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 88cef87..70ba8c0 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -146,6 +146,7 @@ class LinearOperator(BaseLinearOperator):
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
                         self.__T.__T = self
+                    __conj.__H = self.__T
 
     def __set_transpose(self, matvec, transpose_of=None, matvec_transp=None, **kwargs):
 
-- 
2.43.0


From 8caf5175f59f13f528995ff93c639a9d4831a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 059/108] fix: a complex symmetric Hermitian operator is its
 own adjoint

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 70ba8c0..294edf8 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -129,7 +129,7 @@ class LinearOperator(BaseLinearOperator):
                 self.__H = self.__T
             elif self.__T is None and self.__H is not None:
                 self.__T = self.__H
-        else:
+        elif not (self.symmetric and self.hermitian):
             if transpose_of is None and adjoint_of is None and conjugate_of is None:
                 # We're not in a recursive instantiation.
                 # Try to infer missing operators.
-- 
2.43.0


From 8d0cd2af80ebc26a0129e38217d7d1e187890604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 060/108] fix: the zeroth power of an operator must have the
 type of the operator

---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 294edf8..aa1d314 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -449,7 +449,7 @@ class LinearOperator(BaseLinearOperator):
         if self.nargin != self.nargout:
             raise ShapeError('Can only raise square operators to a power')
         if other == 0:
-            return IdentityOperator(self.nargin)
+            return IdentityOperator(self.nargin, dtype=self.dtype)
         if other == 1:
             return self
         return self * self**(other-1)
-- 
2.43.0


From 33c7803f81361204f9afdd669691a8e1f1c1e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 061/108] fix: an operator must not be multiplied by a string

---
 pykrylov/linop/linop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index aa1d314..9ef3bfb 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -310,6 +310,8 @@ class LinearOperator(BaseLinearOperator):
     def __mul_scalar(self, x):
         "Product between a linear operator and a scalar."
         result_type = np.result_type(self.dtype, type(x))
+        if result_type not in allowed_types:
+            raise ValueError('Cannot multiply')
 
         if x == 0:
             return ZeroOperator(self.nargin, self.nargout,
-- 
2.43.0


From 84518be3e1cbf28a07597e09cc11dfa819767a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 062/108] fix: BlockLinearOperator must not share the rows
 given by the caller

---
 pykrylov/linop/blkop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index f5fa995..1e48a0d 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -59,7 +59,7 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i].insert(0, self._blocks[j][i].H)
 
         else:
-            self._blocks = copy(blocks)
+            self._blocks = [copy(row) for row in blocks]
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockLinearOperator')
-- 
2.43.0


From 847703cf5caaae78a0e30c004527cd9fd10e24d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:04 +0000
Subject: [PATCH 063/108] fix: check_positive_definite must reject negative
 imaginary parts too

---
 pykrylov/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index acad88a..31fc713 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -100,7 +100,7 @@ def check_positive_definite(op, repeats=10, semi=False):
         w = op * v
         vw = np.dot(v, w)
         eps = machine_epsilon()
-        if np.imag(vw) > np.sqrt(eps) * np.abs(vw):
+        if np.abs(np.imag(vw)) > np.sqrt(eps) * np.abs(vw):
             return False
         vw = np.real(vw)
         if semi:
-- 
2.43.0


From a76c0bd9aa30d2199e58ad5ea3dcf1761cd21e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 064/108] fix: Newton steps of roots_quadratic must not spoil a
 double root

---
 pykrylov/tools/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index 31fc713..26f6099 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -54,7 +54,10 @@ def roots_quadratic(q2, q1, q0, tol=1.0e-8, nitref=1):
             if der == 0.0:
                 continue
             else:
-                root = root - val/der
+                new_root = root - val/der
+                if abs((a2 * new_root + a1) * new_root + a0) >= abs(val):
+                    break
+                root = new_root
         new_roots.append(root)
 
     return new_roots
-- 
2.43.0


From 8bff81d78fb523605a176472b869ff769f6604ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 065/108] fix: CGS must stop on a breakdown instead of
 returning NaN

---
 pykrylov/cgs/cgs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index 94f97f6..2ee9e0f 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -84,6 +84,8 @@ class CGS( KrylovMethod ):
 
             v = self.op * y ; nMatvec += 1
             sigma = np.vdot(r0,v)
+            if sigma == 0:      # Breakdown: keep the current solution.
+                break
             alpha = rho/sigma
             q = u - alpha * v
 
@@ -105,6 +107,8 @@ class CGS( KrylovMethod ):
                 continue
 
             rho_next = np.vdot(r0,r)
+            if rho_next == 0:   # Breakdown: keep the current solution.
+                break
             beta = rho_next/rho
             rho = rho_next
             u = r + beta * q
-- 
2.43.0


From c8ac251cc44f6a5889b0756445f1686d6a11ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 066/108] fix: TFQMR must stop on a breakdown instead of
 returning NaN

---
 pykrylov/tfqmr/tfqmr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index ef50e1a..a06ee91 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -88,6 +88,8 @@ class TFQMR( KrylovMethod ):
 
             k += 1
             sigma = np.vdot(r0,v)
+            if sigma == 0:      # Breakdown: keep the current solution.
+                break
             alpha = rho/sigma
 
             # First pass
@@ -128,6 +130,8 @@ class TFQMR( KrylovMethod ):
 
             # Final updates
             rho_next = np.vdot(r0,w)
+            if rho_next == 0:   # Breakdown: keep the current solution.
+                break
             beta = rho_next/rho
             rho = rho_next
 
-- 
2.43.0


From 176942baa93d600a32f0e55c3ba0b637f245807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 067/108] fix: BiCGSTAB must stop on a breakdown instead of
 returning NaN

---
 pykrylov/bicgstab/bicgstab.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 77a9e69..705f28c 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -100,7 +100,10 @@ class BiCGSTAB( KrylovMethod ):
 
             v = self.op * q ; nMatvec += 1
 
-            alpha = rho/np.vdot(r0, v)
+            sigma = np.vdot(r0, v)
+            if sigma == 0:      # Breakdown: keep the current solution.
+                break
+            alpha = rho/sigma
             s = r - alpha * v
 
             # Check for CGS termination
@@ -124,7 +127,11 @@ class BiCGSTAB( KrylovMethod ):
                 z = s
 
             t = self.op * z ; nMatvec += 1
-            omega = np.vdot(t,s)/np.vdot(t,t)
+            tt = np.vdot(t,t)
+            if tt == 0:         # Breakdown: keep the half step.
+                x += alpha * q
+                break
+            omega = np.vdot(t,s)/tt
             rho_next = -omega * np.vdot(r0,t)
 
             # Update residual
@@ -145,6 +152,9 @@ class BiCGSTAB( KrylovMethod ):
                 finished = True
                 continue
 
+            if rho_next == 0:   # Breakdown: keep the current solution.
+                break
+
 
         self.converged = residNorm <= threshold
         self.nMatvec = nMatvec
-- 
2.43.0


From f2c99bba10a094c70c4404e8c53db3ccbadff301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 068/108] fix: CG must stop on zero curvature and reject
 negative imaginary curvature

---
 pykrylov/cg/cg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 5a4ac71..07200fc 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -124,12 +124,16 @@ class CG( KrylovMethod ):
             pAp = np.vdot(p, Ap)
 
             if check_curvature:
-                if np.imag(pAp) > 1.0e-8 * np.abs(pAp) or np.real(pAp) <= 0:
+                if np.abs(np.imag(pAp)) > 1.0e-8 * np.abs(pAp) or np.real(pAp) <= 0:
                     self.logger.error('Coefficient operator is not positive definite')
                     self.infiniteDescent = p
                     definite = False
                     continue
 
+            # No step along a direction of zero curvature is defined.
+            if pAp == 0:
+                break
+
             # Compute step length
             alpha = ry/pAp
 
-- 
2.43.0


From cd27be704ce315708f1f2b2755036494d2491cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 069/108] fix: MINRES must not mistake a zero first diagonal
 for an ill-conditioned operator

---
 pykrylov/minres/minres.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index f48de4a..ce0b933 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -261,8 +261,6 @@ class Minres(KrylovMethod):
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
-                    gmax   = abs(alfa)        # alpha1
-                    gmin   = gmax             # alpha1
 
                 # Apply previous rotation Qk-1 to get
                 #   [deltak epslnk+1] = [cs  sn][dbark    0   ]
@@ -312,8 +310,8 @@ class Minres(KrylovMethod):
 
                 # Go round again.
 
-                gmax   = max(gmax, gamma)
-                gmin   = min(gmin, gamma)
+                gmax   = gamma if itn == 1 else max(gmax, gamma)
+                gmin   = gamma if itn == 1 else min(gmin, gamma)
                 z      = rhs1 / gamma
                 ynorm2 = z**2  +  ynorm2
                 rhs1   = rhs2 -  delta*z
-- 
2.43.0


From f01d1a8eef2961ebed096850ea1eb8f94499b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 070/108] fix: MINRES has not converged when it stops on an
 ill-conditioned operator

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ce0b933..2691e30 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -391,7 +391,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [-1,1,2,3,4,10] or (istop == 0 and beta1 == 0)
+        self.converged = istop in [-1,1,2,10] or (istop == 0 and beta1 == 0)
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From c02c7197c04d16a1db00a154443750be5a07a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 071/108] fix: MINRES must return the least-squares solution of
 an inconsistent system

---
 pykrylov/minres/minres.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 2691e30..6475171 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -278,6 +278,15 @@ class Minres(KrylovMethod):
                 root   = self.normof2(gbar, dbar)
                 Arnorm = phibar * root
 
+                # If the normal residual is already negligible, x solves the
+                # least-squares problem and no step along v is defined.
+
+                if root <= max(rtol, 10*eps) * sqrt(tnorm2):
+                    istop = 2
+                    Anorm = sqrt(tnorm2)
+                    rnorm = phibar
+                    break
+
                 # Compute the next plane rotation Qk
 
                 gamma  = self.normof2(gbar, beta)       # gammak
-- 
2.43.0


From 1e2d061bb81ffa8b12acb02e8c0b7f85bc2d6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 072/108] fix: SYMMLQ must not mistake a zero first diagonal
 for an ill-conditioned operator

---
 pykrylov/symmlq/symmlq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index abd753a..36c076f 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -216,8 +216,8 @@ class Symmlq(KrylovMethod) :
             #  Initialize other quantities.
             cgnorm = beta1 ; rhs2   = 0 ; tnorm  = alfa**2 + beta**2
             gbar   = alfa  ; bstep  = 0 ; ynorm2 = 0
-            dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa) + eps
-            rhs1   = beta1 ; x1cg   = 0 ; gmin   = gmax
+            dbar   = beta  ; snprod = 1 ; gmax   = 0
+            rhs1   = beta1 ; x1cg   = 0 ; gmin   = np.inf
             qrnorm = beta1
 
         # end  if beta1 > 0
@@ -258,10 +258,10 @@ class Symmlq(KrylovMethod) :
                 # T(k+1) is not, so we must be careful not to overestimate acond
 
                 if lqnorm < cgnorm:
-                    acond  = gmax / gmin
+                    acond  = max(gmax / gmin, 1.0)
                 else:
                     denom  = min(gmin, np.abs(diag))
-                    acond  = gmax / denom
+                    acond  = max(gmax, np.abs(diag)) / denom
 
                 zbar = rhs1 / diag
                 z    = (snprod * zbar + bstep) / beta1
-- 
2.43.0


From 70a5422aa93561a1ff20751bdbc21a8703a2278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 073/108] fix: SYMMLQ must not report convergence on an
 inconsistent system

---
 pykrylov/symmlq/symmlq.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 36c076f..4a0ed0a 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -245,6 +245,13 @@ class Symmlq(KrylovMethod) :
                 epsr   = anorm * ynorm * rtol
                 diag   = gbar
 
+                # If the operator is singular on the Krylov space, the system
+                # has no solution there.
+                if max(np.abs(gbar), beta) <= 10 * epsa:
+                    istop  = 4
+                    cgnorm = np.inf
+                    break
+
                 if diag == 0: diag = epsa
 
                 lqnorm = np.sqrt(rhs1**2 + rhs2**2)
-- 
2.43.0


From b1ebe47b947fc81f72bbc3c5bba7faec21bbbc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 074/108] fix: norm estimate of MINRES must not include the
 norm of the right-hand side

---
 pykrylov/minres/minres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 6475171..bedcbb5 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -254,7 +254,8 @@ class Minres(KrylovMethod):
                     istop = 9
                     break
                 beta   = sqrt(beta)
-                tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
+                tnorm2 = tnorm2 + alfa**2 + beta**2
+                if itn > 1: tnorm2 = tnorm2 + oldb**2   # oldb is beta1 at first.
 
                 if itn==1:                    # Initialize a few things.
                     if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
-- 
2.43.0


From 238b35ce6d8813376d3c47806de29d1dbbfb5e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 075/108] fix: MINRES must report the norm of its solution

---
 pykrylov/minres/minres.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index bedcbb5..de1c4d6 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -391,6 +391,10 @@ class Minres(KrylovMethod):
 
                 if show and (itn % 10)==0: print ' '
 
+        # The recurrence for ynorm is that of the SYMMLQ point. Report norm(x).
+
+        ynorm = norm(x)
+
         # Display final status.
 
         if show:
-- 
2.43.0


From 5c8963f37f3863e5f82ff0540b13e44bd1462e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 076/108] fix: MINRES must report the residual norm of zero
 when it makes no iteration

---
 pykrylov/minres/minres.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index de1c4d6..38becc8 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -179,9 +179,7 @@ class Minres(KrylovMethod):
 
         if beta1 > 0:
             beta1 = sqrt(beta1);       # Normalize y to get v1 later.
-        self.residNorm0 = beta1
-
-        self.residNorm0 = beta1        # Initial residual norm.
+        self.residNorm0 = rnorm = beta1   # Initial residual norm.
 
         # See if A is symmetric.
         if check:
-- 
2.43.0


From cb211275715ef818fe118cc18488dc2398f0237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 077/108] fix: iterates stored by SYMMLQ must include the step
 along the right-hand side

---
 pykrylov/symmlq/symmlq.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 4a0ed0a..3b877df 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -162,6 +162,7 @@ class Symmlq(KrylovMethod) :
             beta1 = np.sqrt(beta1)
             s     = 1.0 / beta1
             v     = s * y
+            v1    = v
 
             y = self.op * v ; nMatvec += 1
             if check:
@@ -347,12 +348,11 @@ class Symmlq(KrylovMethod) :
                 x += s*w + t*v
                 w *= sn ; w -= cs*v
 
-                if store_iterates:
-                    self.iterates.append(x.copy())
-
                 # Accumulate the step along the direction b, and go round again.
 
                 bstep  = snprod * cs * z  +  bstep
+                if store_iterates:
+                    self.iterates.append(x + bstep * v1)
                 snprod = snprod * sn
                 gmax   = max(gmax, gamma)
                 gmin   = min(gmin, gamma)
@@ -385,6 +385,9 @@ class Symmlq(KrylovMethod) :
             y = rhs.copy()
         x += bstep * y
 
+        if store_iterates and cgnorm < lqnorm:
+            self.iterates.append(x.copy())
+
         # Compute the final residual,  r1 = b - (A - shift*I)*x.
 
         y = self.op * x ; nMatvec += 1
-- 
2.43.0


From d29cee92422ba864bfa7eed7963c66c5157d152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 078/108] fix: CG must not keep the results of an earlier solve
 when it rejects the operator

---
 pykrylov/cg/cg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 07200fc..0cbfc3c 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -68,6 +68,10 @@ class CG( KrylovMethod ):
 
         # Forget about previous solves.
         self.converged = False
+        self.definite = None
+        self.nMatvec = 0
+        self.residNorm = self.residNorm0 = None
+        self.bestSolution = self.x = None
         self.residHistory = []
         self.resids = []
         self.iterates = []
-- 
2.43.0


From 1c912c0b36c64622e24f54fe7810f84fbc346bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 079/108] fix: check_symmetric must be able to check that a
 complex operator is Hermitian

---
 pykrylov/tools/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index 26f6099..2b73fbf 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -63,11 +63,12 @@ def roots_quadratic(q2, q1, q0, tol=1.0e-8, nitref=1):
     return new_roots
 
 
-def check_symmetric(op, repeats=10):
+def check_symmetric(op, repeats=10, hermitian=False):
     """Cheap symmetry check.
 
     Cheap check that a linear operator is symmetric. Supply `op`, a callable
     linear operator. A set of `repeats` random vectors will be generated.
+    Specify `hermitian=True` to check that a complex operator is Hermitian.
     This function returns `True` or `False`.
     """
     m, n = op.shape
@@ -75,14 +76,15 @@ def check_symmetric(op, repeats=10):
         return False
     eps = machine_epsilon()
     rng = np.random.RandomState(1)
+    dot = np.vdot if hermitian else np.dot
     for _ in xrange(repeats):
         x = rng.random_sample(n)
         w = op * x
         r = op * w
-        s = np.dot(w, w)
-        t = np.dot(x, r)
+        s = dot(w, w)
+        t = dot(x, r)
         z = abs(s - t)
-        epsa = (s + eps) * eps**(1.0/3)
+        epsa = (abs(s) + eps) * eps**(1.0/3)
         if z > epsa:
             return False
     return True
-- 
2.43.0


From 5e732894ef4851898759ef85012abc86f1b87494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 080/108] fix: CG must not reject Hermitian operators as not
 symmetric

---
 pykrylov/cg/cg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 0cbfc3c..f253afd 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -78,7 +78,7 @@ class CG( KrylovMethod ):
         self.infiniteDescent = None
 
         if check_sym:
-            if not check_symmetric(self.op):
+            if not check_symmetric(self.op, hermitian=True):
                 self.logger.error('Coefficient operator is not symmetric')
                 return
 
-- 
2.43.0


From a9e00d77ac7a56c4fb87703c707bf17b0bb0538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:41 +0000
Subject: [PATCH 081/108] fix: MINRES must not keep the status of an earlier
 solve

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 38becc8..7f6325f 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -404,6 +404,7 @@ class Minres(KrylovMethod):
             print last+self.msg[istop+1]
 
         self.converged = istop in [-1,1,2,10] or (istop == 0 and beta1 == 0)
+        self.status = self.msg[istop+1].strip()
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From 35bd1860cc36001ef996602e038e746b8e75dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 082/108] fix: histories of LSMR must start at the initial
 point

---
 pykrylov/lls/lsmr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index c89348e..d3dba1d 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -281,6 +281,11 @@ class LSMRFramework(KrylovMethod):
         # Reverse the order here from the original matlab code because
         # there was an error on return when arnorm==0
         normar = alpha * beta
+        if store_resids:
+            self.norms.append(xNrgNorm2)
+            self.resids.append(normr)
+            self.normal_eqns_resids.append(normar)
+
         if normar == 0:
             if show:
                 print msg[0]
@@ -295,10 +300,6 @@ class LSMRFramework(KrylovMethod):
             str3   = '  %8.1e %8.1e' %(  test1,  test2 )
             print ''.join([str1, str2, str3])
 
-        if store_resids:
-            self.resids.append(normr)
-            self.normal_eqns_resids.append(normar)
-
         # Main iteration loop.
         while itn < itnlim:
             itn = itn + 1
-- 
2.43.0


From 9ad15d2c726b045252bdc928136c307b1974581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 083/108] fix: residual history of MINRES must start at the
 initial residual

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 7f6325f..2629298 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -180,6 +180,7 @@ class Minres(KrylovMethod):
         if beta1 > 0:
             beta1 = sqrt(beta1);       # Normalize y to get v1 later.
         self.residNorm0 = rnorm = beta1   # Initial residual norm.
+        self.residHistory.append(rnorm)
 
         # See if A is symmetric.
         if check:
-- 
2.43.0


From 4dd9895d0dc1747cabf3b5ff5025ec7980dcfe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 084/108] fix: energy norms of CRAIG must include those of its
 first iterate

---
 pykrylov/lls/craig.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 642679e..e07a1b1 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -204,8 +204,6 @@ class CRAIGFramework(KrylovMethod):
 
         r = zeros(m)
         x = zeros(n)
-        rNrgNorm2 = 0.0
-        xNrgNorm2 = 0.0          # Squared energy norm of final solution.
         dErr = zeros(window)     # Truncated direct error terms.
         trncDirErr = 0           # Truncated direct error.
 
@@ -251,6 +249,8 @@ class CRAIGFramework(KrylovMethod):
         tau   = beta / rho
         r     = tau * d
         rnorm = tau * tau
+        rNrgNorm2 = tau * tau
+        dErr[0] = tau
 
         # Primal variable initialization.
         c     = alpha / rho
@@ -261,6 +261,7 @@ class CRAIGFramework(KrylovMethod):
         w     = c * v
         wbar  = s * v
         x     = zeta * w
+        xNrgNorm2 = zeta * zeta  # Squared energy norm of final solution.
         xnorm = eta * eta
 
         #rnorm  = zeta * zeta    # = ||b - Ax||^2_M + \|x\|^2_N.
-- 
2.43.0


From 74457dd1e06fe3ec91c2e374918608546ed36db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 085/108] fix: residuals stored by CRAIG-MR must be those of
 its iterates

---
 pykrylov/lls/craigmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 7d71362..7e04be1 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -123,6 +123,7 @@ class CRAIGMRFramework(KrylovMethod):
 
         if store_resids:
             self.norms.append(xNrgNorm2)
+            self.normal_eqns_resids.append(zeta_hat)
 
         # Main iteration loop.
         while itn < itnlim:
@@ -195,7 +196,7 @@ class CRAIGMRFramework(KrylovMethod):
 
             if store_resids:
                 self.norms.append(xNrgNorm2)
-                self.normal_eqns_resids.append(abs(zeta))
+                self.normal_eqns_resids.append(abs(zeta_hat))
 
             # See if it's time to stop.
             dErr[itn % window] = zeta
-- 
2.43.0


From 826dd913f8726f210f6c8ba0d5449612dd798450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 086/108] fix: CRAIG must report the norms of the r and x that
 it returns

---
 pykrylov/lls/craig.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index e07a1b1..e6e17d3 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -248,6 +248,9 @@ class CRAIGFramework(KrylovMethod):
         d     = u / rho
         tau   = beta / rho
         r     = tau * d
+        if M is not None:
+            Md = Mu / rho
+            Mr = tau * Md
         rnorm = tau * tau
         rNrgNorm2 = tau * tau
         dErr[0] = tau
@@ -262,10 +265,8 @@ class CRAIGFramework(KrylovMethod):
         wbar  = s * v
         x     = zeta * w
         xNrgNorm2 = zeta * zeta  # Squared energy norm of final solution.
-        xnorm = eta * eta
 
         #rnorm  = zeta * zeta    # = ||b - Ax||^2_M + \|x\|^2_N.
-        r1norm = xi * xi        # = ||b - Ax||^2_M.
         r2norm = rnorm
 
         head1  = '   Itn      x(1)       r1norm     r2norm '
@@ -350,6 +351,9 @@ class CRAIGFramework(KrylovMethod):
             d = (u - beta_hat * d) / alpha_hat
             tau = -beta_hat * tau / alpha_hat
             r += tau * d
+            if M is not None:
+                Md = (Mu - beta_hat * Md) / alpha_hat
+                Mr += tau * Md
 
             # Update x, w and wbar.
 
@@ -392,7 +396,6 @@ class CRAIGFramework(KrylovMethod):
             #xnorm   =   sqrt(xxnorm + zbar**2)
             #rnorm   += zeta * zeta               # inv(A)-norm of ||b-Ax||.
             rnorm   += tau * tau
-            xnorm   += eta * eta                 # C-norm of x.
             #gamma   =   normof2(gambar, theta)
             #cs2     =   gambar / gamma
             #sn2     =   theta  / gamma
@@ -418,7 +421,6 @@ class CRAIGFramework(KrylovMethod):
             # Although there is cancellation, it might be accurate enough.
 
             #r1sq    =   rnorm**2  -  dampsq * xxnorm
-            r1norm += xi * xi
             #if r1sq < 0: r1norm = - r1norm
             r2norm = rnorm
 
@@ -483,6 +485,9 @@ class CRAIGFramework(KrylovMethod):
             # End of iteration loop.
             # Print the stopping condition.
 
+        r1norm = dot(r, r) if M is None else dot(r, Mr)    # = ||r||^2_M.
+        xnorm  = norm(x)
+
         if show:
             print ' '
             print 'CRAIG finished'
-- 
2.43.0


From f696a83ab12973047cc535e2c9166e96033f55dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 087/108] fix: LSMR must not divide by a zero residual norm

---
 pykrylov/lls/lsmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index d3dba1d..41e7f09 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot, result_type
+from numpy import zeros, dot, inf, result_type
 from numpy.linalg import norm
 from math import sqrt
 
@@ -421,7 +421,7 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            test2   = normar/(normA*normr) if normA*normr > 0 else inf
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
-- 
2.43.0


From 4a823794cafb108c644e69aaa77ee504339a3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 088/108] fix: condition estimate of LSMR must not involve the
 initial value of its recurrence

---
 pykrylov/lls/lsmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 41e7f09..3938dd2 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -406,8 +406,8 @@ class LSMRFramework(KrylovMethod):
             normA2        = normA2 + alpha*alpha
 
             # Estimate cond(A).
-            maxrbar       = max(maxrbar,rhobarold)
             if itn>1:
+              maxrbar     = max(maxrbar,rhobarold)
               minrbar     = min(minrbar,rhobarold)
             condA         = max(maxrbar,rhotemp)/min(minrbar,rhotemp)
 
-- 
2.43.0


From 107a9224bc4c33f21cf9ea3e4f2c7ef9774c761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 089/108] fix: residual reported by CRAIG must be that of the
 quasi-definite system

---
 pykrylov/lls/craig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index e6e17d3..454d774 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -311,7 +311,7 @@ class CRAIGFramework(KrylovMethod):
             beta = sqrt(dot(u,Mu))   # norm(u)
 
             # Update residual of CRAIG's "other" normal equations.
-            Arnorm = abs(alpha * beta * s * zeta)
+            Arnorm = abs(beta * c * zeta)
 
             # Update residual estimate of SQD system.
             sqd_resid = beta * c * zeta
-- 
2.43.0


From ae55ce483a84d0d5ed76876bb5b490c2bcb164e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 090/108] fix: CRAIG must report the zero solution of a zero
 right-hand side as optimal

---
 pykrylov/lls/craig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 454d774..b74115f 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -511,7 +511,7 @@ class CRAIGFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.r = r
         self.istop = istop
-- 
2.43.0


From 94313702f88bcf57629433f3521ae8fd1b6d739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 091/108] fix: CRAIG-MR must recognize a zero right-hand side

---
 pykrylov/lls/craigmr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 7e04be1..c2d381e 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -125,8 +125,11 @@ class CRAIGMRFramework(KrylovMethod):
             self.norms.append(xNrgNorm2)
             self.normal_eqns_resids.append(zeta_hat)
 
+        bnorm = beta    # If zero, x=0 is the solution.
+        if itnlim <= 0 and bnorm > 0: istop = 7
+
         # Main iteration loop.
-        while itn < itnlim:
+        while itn < itnlim and bnorm > 0:
             itn = itn + 1
 
             # Perform the next step of the bidiagonalization to obtain the
@@ -234,7 +237,7 @@ class CRAIGMRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = istop in [0,1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From 338fba5632d16b4b6f274243e424cee3b1fbf689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 092/108] fix: LSMR must not claim that zero is a solution when
 it is given no iterations

---
 pykrylov/lls/lsmr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 3938dd2..d00188d 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -300,6 +300,8 @@ class LSMRFramework(KrylovMethod):
             str3   = '  %8.1e %8.1e' %(  test1,  test2 )
             print ''.join([str1, str2, str3])
 
+        if itnlim <= 0: istop = 7
+
         # Main iteration loop.
         while itn < itnlim:
             itn = itn + 1
-- 
2.43.0


From 726bc37206ac18e1c0b08b5c57d3d7c8db8e2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 093/108] fix: MINRES must not claim that zero is a solution
 when it is given no iterations

---
 pykrylov/minres/minres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 2629298..5db1b8d 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -216,6 +216,8 @@ class Minres(KrylovMethod):
         # ---------------------------------------------------------------------
         # Main iteration loop.
         # --------------------------------------------------------------------
+        if not done and itnlim <= 0: istop = 6
+
         if not done:                          # k = itn = 1 first time through
             while itn < itnlim:
                 itn = itn  +  1
-- 
2.43.0


From ff10bdd51a0c015303967610f19eca21a4fb795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:07 +0000
Subject: [PATCH 094/108] fix: LSQR must compute r1norm from the norm of its
 solution

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index ad63baf..c418869 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -350,7 +350,7 @@ class LSQRFramework(KrylovMethod):
             #    r1norm = sqrt(r2norm^2 - damp^2*||x||^2).
             # Although there is cancellation, it might be accurate enough.
 
-            r1sq    =   rnorm**2  -  dampsq * xxnorm
+            r1sq    =   rnorm**2  -  dampsq * xnorm**2
             r1norm  =   sqrt(abs(r1sq))
             if r1sq < 0: r1norm = - r1norm
             r2norm  =   rnorm
-- 
2.43.0


From 712f8efdd49ab203c32cda7b6c94c2bb3af04f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 095/108] fix: LSQR must include the last step in its estimate
 of norm(A)

---
 pykrylov/lls/lsqr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index c418869..962dfdb 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -255,12 +255,11 @@ class LSQRFramework(KrylovMethod):
             else:
                 u = Mu
             beta = sqrt(dot(u,Mu))   # norm(u)
+            Anorm = normof4(Anorm, alpha, beta, damp)
             if beta > 0:
                 u /= beta
                 if M is not None: Mu /= beta
 
-                Anorm = normof4(Anorm, alpha, beta, damp)
-
                 Nv = A.T*u - beta*Nv
                 if N is not None:
                     v = N(Nv)
-- 
2.43.0


From b300159602d677f5dfaa734028999af336c2232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 096/108] fix: MINRES must not mistake a large right-hand side
 for an eigenvector

---
 pykrylov/minres/minres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 5db1b8d..fe90839 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -259,8 +259,8 @@ class Minres(KrylovMethod):
                 if itn > 1: tnorm2 = tnorm2 + oldb**2   # oldb is beta1 at first.
 
                 if itn==1:                    # Initialize a few things.
-                    if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
-                        istop = -1            # Terminate later.
+                    if beta <= 10*eps*abs(alfa):  # beta2 = 0 or ~ 0.
+                        istop = -1                # Terminate later.
 
                     # tnorm2 = alfa**2  ??
 
-- 
2.43.0


From 4c9bf86fd0f89dbdba799377b78f0be9053010ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 097/108] fix: MINRES must not depend on the scale of the
 operator

---
 pykrylov/minres/minres.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index fe90839..8c135a7 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -292,7 +292,6 @@ class Minres(KrylovMethod):
                 # Compute the next plane rotation Qk
 
                 gamma  = self.normof2(gbar, beta)       # gammak
-                gamma  = max(gamma, eps)
                 cs     = gbar / gamma             # ck
                 sn     = beta / gamma             # sk
                 phi    = cs * phibar              # phik
-- 
2.43.0


From 9c707dd68c622e5882cbdef97381a4699e13358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 098/108] fix: SYMMLQ must not mistake a small operator for a
 multiple of the identity

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 3b877df..5aa25c8 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -200,7 +200,7 @@ class Symmlq(KrylovMethod) :
             #  Cause termination (later) if beta is essentially zero.
 
             beta = np.sqrt(beta)
-            if beta <= eps:
+            if beta <= eps * np.abs(alfa):
                 istop = -1
 
             #  See if the local reorthogonalization achieved anything.
-- 
2.43.0


From c002b200425bbb0e67b8aa34a2aed733a1315a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 099/108] fix: CG must not return NaN when it diverges

---
 pykrylov/cg/cg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index f253afd..344ec80 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -140,6 +140,8 @@ class CG( KrylovMethod ):
 
             # Compute step length
             alpha = ry/pAp
+            if not np.isfinite(alpha * np.linalg.norm(p)):  # Overflow.
+                break
 
             # Update estimate and residual
             x += alpha * p
-- 
2.43.0


From 6a44241453425a37984ec1ffca44e2cb09950bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 100/108] fix: TFQMR must not return NaN when it diverges

---
 pykrylov/tfqmr/tfqmr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index a06ee91..de00831 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -97,6 +97,8 @@ class TFQMR( KrylovMethod ):
             d *= theta * theta * eta / alpha
             d += z
             theta = np.linalg.norm(w)/residNorm
+            if not np.isfinite(theta + np.linalg.norm(d)):  # Overflow.
+                break
             c = 1.0 / np.sqrt(1 + theta*theta)
             residNorm *= theta * c
             eta = c * c * alpha
@@ -120,6 +122,8 @@ class TFQMR( KrylovMethod ):
             d *= theta * theta * eta / alpha
             d += z
             theta = np.linalg.norm(w)/residNorm
+            if not np.isfinite(theta + np.linalg.norm(d)):  # Overflow.
+                break
             c = 1.0 / np.sqrt(1 + theta*theta)
             residNorm *= theta * c
             eta = c * c * alpha
-- 
2.43.0


From a63a0ceffaeaa0ad6dd6e3328877c180e8fc8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 101/108] fix: MINRES must not compute norms of small integers
 in half precision

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 8c135a7..c0458ef 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -134,6 +134,7 @@ class Minres(KrylovMethod):
         self.residHistory = []     # Residual norms.
 
         result_type = np.result_type(A.dtype, b.dtype, 1.0)
+        b = b.astype(result_type)
         x = zeros(n, dtype=result_type)
         xNrgNorm2 = 0.0          # Squared energy norm of final solution.
         dErr = zeros(window)     # Truncated direct error terms.
-- 
2.43.0


From 4b3f1e2b647e17110b50d76230204af94ca6af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 102/108] fix: SYMMLQ must not compute norms of small integers
 in half precision

---
 pykrylov/symmlq/symmlq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 5aa25c8..409d0ba 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -84,6 +84,7 @@ class Symmlq(KrylovMethod) :
         # Set parameters
         n = rhs.shape[0]
         nMatvec = 0
+        rhs = rhs.astype(np.result_type(self.op.dtype, rhs.dtype, 1.0))
 
         matvec_max = kwargs.get('matvec_max', 2*n+2)
         rtol = kwargs.get('rtol', 1.0e-9)
-- 
2.43.0


From 663752197b584f09cb6c71528ce3173bcb2995b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 103/108] fix: LSQR measures the condition estimate in the norm
 of the weighted problem

---
 pykrylov/lls/lsqr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 962dfdb..300202c 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -207,7 +207,8 @@ class LSQRFramework(KrylovMethod):
         if alpha > 0:
             v /= alpha
             if N is not None: Nv /= alpha
-            w = v.copy()     # Should this be Nv ???
+            w = v.copy()
+            Nw = Nv.copy() if N is not None else w   # N w, to measure w
 
         x_is_zero = False   # Is x=0 the solution to the least-squares prob?
         Arnorm = alpha * beta
@@ -298,8 +299,9 @@ class LSQRFramework(KrylovMethod):
             dk      =   (1.0/rho)*w;
 
             x      += t1*w
+            ddnorm  = ddnorm + dot(dk,Nw)/rho   # norm(dk)**2
             w      *= t2 ; w += v
-            ddnorm  = ddnorm + norm(dk)**2
+            if N is not None: Nw *= t2 ; Nw += Nv
             if wantvar: var += dk*dk
 
             if store_iterates:
-- 
2.43.0


From cd74a42f5b9367e4fdc9893c2f47adcde07569c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 104/108] fix: LSMR measures the solution in the norm of the
 weighted problem in its stopping test

---
 pykrylov/lls/lsmr.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index d00188d..0db1236 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -245,6 +245,11 @@ class LSMRFramework(KrylovMethod):
         h    = v.copy()
         hbar = zeros(n)
         x    = zeros(n)
+        if N is not None:
+            # N h, N hbar and N x, to measure x in the weighted norm.
+            Nh    = Nv.copy() if beta > 0 else zeros(n)
+            Nhbar = zeros(n)
+            Nx    = zeros(n)
 
         if store_iterates:
             self.iterates.append(x.copy())
@@ -362,6 +367,10 @@ class LSMRFramework(KrylovMethod):
             hbar       = h - (thetabar*rho/(rhoold*rhobarold))*hbar
             x          = x + (zeta/(rho*rhobar))*hbar
             h          = v - (thetanew/rho)*h
+            if N is not None:
+                Nhbar  = Nh - (thetabar*rho/(rhoold*rhobarold))*Nhbar
+                Nx     = Nx + (zeta/(rho*rhobar))*Nhbar
+                Nh     = Nv - (thetanew/rho)*Nh
 
             if store_iterates:
                 self.iterates.append(x.copy())
@@ -418,6 +427,7 @@ class LSMRFramework(KrylovMethod):
             # Compute norms for convergence testing.
             normar  = abs(zetabar)
             normx   = norm(x)
+            normxN  = normx if N is None else sqrt(max(0, dot(x,Nx)))
 
             # Now use these norms to estimate certain other quantities,
             # some of which will be small near a solution.
@@ -425,8 +435,8 @@ class LSMRFramework(KrylovMethod):
             test1   = normr /normb
             test2   = normar/(normA*normr) if normA*normr > 0 else inf
             test3   =      1/condA
-            t1      =  test1/(1 + normA*normx/normb)
-            rtol    = btol + atol*normA*normx/normb
+            t1      =  test1/(1 + normA*normxN/normb)
+            rtol    = btol + atol*normA*normxN/normb
 
             if store_resids:
                 self.norms.append(xNrgNorm2)
-- 
2.43.0


From 59f5f7ba1461c3fe90d2574063e871f696faef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 105/108] fix: let SYMMLQ solve a system without unknowns

---
 pykrylov/symmlq/symmlq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 409d0ba..74931a8 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -136,7 +136,7 @@ class Symmlq(KrylovMethod) :
             y = self.precon * r1
         else:
             y = rhs.copy()
-        b1 = y[0] ; beta1 = np.dot(r1, y)
+        beta1 = np.dot(r1, y)
 
         # Ensure preconditioner is symmetric.
 
@@ -160,6 +160,7 @@ class Symmlq(KrylovMethod) :
             done = True
 
         if beta1 > 0:
+            b1    = y[0]
             beta1 = np.sqrt(beta1)
             s     = 1.0 / beta1
             v     = s * y
-- 
2.43.0


From e118d83eeb61932d865504459d706a16d80e751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 106/108] fix: let LSQR print its progress on a problem without
 unknowns

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 300202c..292251c 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -224,7 +224,7 @@ class LSQRFramework(KrylovMethod):
         head1  = '   Itn      x(1)       r1norm     r2norm '
         head2  = ' Compatible   LS      Norm A   Cond A'
 
-        if show:
+        if show and n > 0:
             print ' '
             print head1+head2
             test1  = 1.0
-- 
2.43.0


From bb8f54a1785a2d13510f45c750142971f0e12801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 107/108] fix: let CRAIG print its progress on a problem
 without unknowns

---
 pykrylov/lls/craig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index b74115f..6c0ed10 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -473,7 +473,7 @@ class CRAIGFramework(KrylovMethod):
             #if test1 <= 10*rtol  : prnt = True
             if istop !=  0       : prnt = True
 
-            if prnt and show:
+            if prnt and show and n > 0:
                 str1 = '%6g %12.5e'     % (  itn,   x[0])
                 #str2 = ' %10.3e %10.3e' % (r1norm, r2norm)
                 #str3 = '  %8.1e %8.1e'  % (test1,  test2)
-- 
2.43.0


From c3c214eaad96c4de3dba817c4b976139390da802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 108/108] fix: solvers forget the results of earlier solves
 before they start a new one

---
 pykrylov/bicgstab/bicgstab.py | 1 +
 pykrylov/cgs/cgs.py           | 1 +
 pykrylov/generic/generic.py   | 8 ++++++++
 pykrylov/lls/craig.py         | 2 ++
 pykrylov/lls/craigmr.py       | 2 ++
 pykrylov/lls/lsmr.py          | 2 ++
 pykrylov/lls/lsqr.py          | 2 ++
 pykrylov/minres/minres.py     | 1 +
 pykrylov/symmlq/symmlq.py     | 1 +
 pykrylov/tfqmr/tfqmr.py       | 1 +
 10 files changed, 21 insertions(+)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 705f28c..eec52c7 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -51,6 +51,7 @@ class BiCGSTAB( KrylovMethod ):
         """
         n = rhs.shape[0]
         nMatvec = 0
+        self._forget()
 
         # Initial guess is zero unless one is supplied
         result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index 2ee9e0f..e220da8 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -48,6 +48,7 @@ class CGS( KrylovMethod ):
         """
         n = rhs.shape[0]
         nMatvec = 0
+        self._forget()
 
         # Initial guess is zero unless one is supplied
         result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
diff --git a/pykrylov/generic/generic.py b/pykrylov/generic/generic.py
index b6cb14e..2f8b51b 100644
--- a/pykrylov/generic/generic.py
+++ b/pykrylov/generic/generic.py
@@ -86,6 +86,14 @@ class KrylovMethod(object):
         self.bestSolution = None
         self.x = self.bestSolution
 
+    def _forget(self):
+        # Forget the results of previous solves, so that a solve that is
+        # interrupted by an exception does not leave them behind.
+        self.residNorm = self.residNorm0 = None
+        self.nMatvec = 0
+        self.converged = False
+        self.bestSolution = self.x = None
+
     def _write(self, msg):
         # If levels other than info are needed they should be used explicitly.
         self.logger.info(msg)
diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 6c0ed10..8507e43 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -162,6 +162,8 @@ class CRAIGFramework(KrylovMethod):
         store_iterates = kwargs.get('store_iterates', False)
         window = kwargs.get('window', 5)
 
+        self._forget()
+        self.optimal = False
         self.norms  = []    # Squared energy norm of iterates.
         self.resids = []    # Squared least-squares objective function values.
         self.normal_eqns_resids = [] # Resids of normal equations (not squared).
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index c2d381e..c82b2e8 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -58,6 +58,8 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Reinitialize internal data for multiple solves.
         self.init_data()
+        self._forget()
+        self.optimal = False
 
         A = self.A
         b = b.squeeze()
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 0db1236..da2428e 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -171,6 +171,8 @@ class LSMRFramework(KrylovMethod):
         store_iterates = kwargs.get('store_iterates', False)
         window = kwargs.get('window', 5)
 
+        self._forget()
+        self.optimal = False
         self.resids = []             # Least-squares objective function values.
         self.normal_eqns_resids = [] # Residuals of normal equations.
         self.norms = []              # Squared energy norm of iterates.
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 292251c..5796c08 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -141,6 +141,8 @@ class LSQRFramework(KrylovMethod):
         store_iterates = kwargs.get('store_iterates', False)
         window = kwargs.get('window', 5)
 
+        self._forget()
+        self.optimal = False
         self.resids = []             # Least-squares objective function values.
         self.normal_eqns_resids = [] # Residuals of normal equations.
         self.dir_errors_window = []  # Direct error estimates.
diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index c0458ef..5921d05 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -129,6 +129,7 @@ class Minres(KrylovMethod):
         store_iterates = kwargs.get('store_iterates', False)
         window = kwargs.get('window', 5)
 
+        self._forget()
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
         self.residHistory = []     # Residual norms.
diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 74931a8..7ed187f 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -93,6 +93,7 @@ class Symmlq(KrylovMethod) :
         if shift == 0.0: shift = None
         eps = machine_epsilon()
         store_iterates = kwargs.get('store_iterates', False)
+        self._forget()
         self.iterates = []
 
         first = 'Enter SYMMLQ.   '
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index de00831..875a5f5 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -47,6 +47,7 @@ class TFQMR( KrylovMethod ):
         """
         n = rhs.shape[0]
         nMatvec = 0
+        self._forget()
 
         # Initial guess is zero unless one is supplied
         result_type = np.result_type(self.op.dtype, rhs.dtype, 1.0)
-- 
2.43.0

