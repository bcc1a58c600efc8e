From bfd78363001f2bddb6686cf232d55fa2a1381305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 01/40] fix: Huber.prox switches branch at alpha+tau

---
 pyproximal/proximal/Huber.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 2085c5b..5aa8ffe 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -36,8 +36,8 @@ class Huber(ProxOperator):
 
         \prox_{\tau H_\alpha(\cdot)}(\mathbf{x}) =
         \begin{cases}
-        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha \\
-        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha
+        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha + \tau \\
+        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha + \tau
         \end{cases}
 
     """
@@ -60,7 +60,7 @@ class Huber(ProxOperator):
     def prox(self, x: NDArray, tau: float) -> NDArray:
         y = np.zeros_like(x)
         xabs = np.abs(x)
-        mask = xabs > self.alpha
+        mask = xabs > self.alpha + tau
         y[~mask] = self.l2.prox(x[~mask], tau)
         y[mask] = self.l1.prox(x[mask], tau)
         # alternative from https://math.stackexchange.com/questions/1650411/
-- 
2.43.0


From 31a22af8ceff25c09a04d3a45f4849ca9abb580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 02/40] fix: L0 and L10 ball projections with zero radius
 return zero

---
 pyproximal/projection/L0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/L0.py b/pyproximal/projection/L0.py
index e470d28..d1c2c5b 100644
--- a/pyproximal/projection/L0.py
+++ b/pyproximal/projection/L0.py
@@ -34,7 +34,7 @@ class L0BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xshape = x.shape
         xf = x.copy().flatten()
-        xf[np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xf[np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xf.reshape(xshape)
 
 
@@ -71,7 +71,7 @@ class L10BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xc = x.copy()
         xf = np.linalg.norm(x, axis=0, ord=1)
-        xc[:, np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xc[:, np.argsort(np.abs(xf))[: max(xf.size - self.radius, 0)]] = 0
         return xc
 
 
-- 
2.43.0


From fe61172fefef4af65d9c6dcbecce3aa02d125e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 03/40] fix: L1BallProj leaves points inside the ball unchanged

---
 pyproximal/projection/L1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyproximal/projection/L1.py b/pyproximal/projection/L1.py
index e6991fd..e9c8ed9 100644
--- a/pyproximal/projection/L1.py
+++ b/pyproximal/projection/L1.py
@@ -49,6 +49,8 @@ class L1BallProj:
         self.simplex = SimplexProj(n, radius, maxiter, xtol)
 
     def __call__(self, x: NDArray) -> NDArray:
+        if np.sum(np.abs(x)) <= self.radius:
+            return x.copy()
         if np.iscomplexobj(x):
             return np.exp(1j * np.angle(x)) * self.simplex(np.abs(x))
         else:
-- 
2.43.0


From fcb93a24a5d7e97b10967cbb8da19b6b1706dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 04/40] fix: L2.prox with q does not modify its input

---
 pyproximal/proximal/L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index f38f53b..fa53e5f 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -265,7 +265,7 @@ class L2(ProxOperator):
             else:
                 y = x
                 if self.q is not None:
-                    y -= tau * self.alpha * self.q
+                    y = y - tau * self.alpha * self.q
                 x = regularized_inversion(
                     np.sqrt(tau * self.sigma) * self.Op,
                     np.sqrt(tau * self.sigma) * self.b,
@@ -290,7 +290,7 @@ class L2(ProxOperator):
         else:
             num = x
             if self.q is not None:
-                num -= tau * self.alpha * self.q
+                num = num - tau * self.alpha * self.q
             x = num / (1.0 + tau * self.sigma)
         return x
 
-- 
2.43.0


From 0f6b3af77c6ac440b76b755f9acb1e916cf370f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 05/40] fix: IntersectionProj does not modify its input

---
 pyproximal/projection/Intersection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index bdd765d..86202d9 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n)
+        x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From aacea2e171f40b6706072d4d31d7bb8495da1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 06/40] fix: Orthogonal.__call__ does not modify its input
 through an in-place Q

---
 pyproximal/proximal/Orthogonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Orthogonal.py b/pyproximal/proximal/Orthogonal.py
index b284d5c..29884eb 100644
--- a/pyproximal/proximal/Orthogonal.py
+++ b/pyproximal/proximal/Orthogonal.py
@@ -77,7 +77,7 @@ class Orthogonal(ProxOperator):
 
     def __call__(self, x: NDArray) -> bool | float | int:
         y = self.Q.matvec(x)
-        y += self.b
+        y = y + self.b
         f = self.f(y)
         return f
 
-- 
2.43.0


From ff6f3a9535abb695e19aafa3cb1cbc174c39a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 07/40] fix: primal-dual solvers do not modify the dual iterate
 through an in-place A

---
 pyproximal/optimization/primaldual.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index d98491b..f9e3d65 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -180,13 +180,13 @@ def PrimalDual(
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
         else:
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
@@ -360,7 +360,7 @@ def AdaptivePrimalDual(
 
         # proxf
         if z is not None:
-            ATy += z
+            ATy = ATy + z
         x = proxf.prox(x - tau * ATy, tau)
         Ax = A.matvec(x)
         Axhat = 2 * Ax - Axold
-- 
2.43.0


From 0ab8f784a87f92201c4f0439c89431bd2704b3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 08/40] fix: AdaptivePrimalDual primal residual with z is the
 plain residual (z cancels)

---
 pyproximal/optimization/primaldual.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index f9e3d65..1a43ffa 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -370,12 +370,7 @@ def AdaptivePrimalDual(
         ATy = A.rmatvec(y)
 
         # update steps
-        if z is not None:
-            p = float(
-                np.linalg.norm((xold - x) / tau - (ATyold - ATy) - A.rmatvec(z) + z)
-            )
-        else:
-            p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
+        p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
         d = float(np.linalg.norm((yold - y) / mu - (Axold - Ax)))
 
         if p > s * d * delta:
-- 
2.43.0


From b4b7769de1758488b08462121d3de0836e8db0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 09/40] fix: AdaptivePrimalDual starts the extrapolation from A
 x0

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 1a43ffa..f48ccf8 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -342,7 +342,7 @@ def AdaptivePrimalDual(
     # initialization
     x = x0.copy()
     y = np.zeros(A.shape[0], dtype=x.dtype)
-    Ax = np.zeros(A.shape[0], dtype=x.dtype)
+    Ax = A.matvec(x)
     ATy = np.zeros(A.shape[1], dtype=x.dtype)
     taus = np.zeros(niter + 1)
     mus = np.zeros(niter + 1)
-- 
2.43.0


From 45427c7014adb9748f591a5b838f3b26e52f1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 10/40] fix: PALM and iPALM backtracking of the y step uses
 proxg

---
 pyproximal/optimization/palm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index a8bca32..c3e4ff4 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -188,7 +188,7 @@ def PALM(
                 y = proxg.prox(y, 1.0 / dk)
         else:
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
@@ -373,7 +373,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 68c4502de0bb34898ce863a43c9465169ee0379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 11/40] fix: iPALM initialises the y-step backtracking when
 gammag is None

---
 pyproximal/optimization/palm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index c3e4ff4..08d0518 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -339,7 +339,7 @@ def iPALM(
     if gammaf is None:
         tauf = 1.0
         ck = 0.0
-    if gammaf is None:
+    if gammag is None:
         taug = 1.0
         dk = 0.0
 
-- 
2.43.0


From 25c9a3d410a7dc4125ef831bd4c7c5012f3425bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 12/40] fix: iPALM backtracking of the y step starts from the
 extrapolated point

---
 pyproximal/optimization/palm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 08d0518..93a7352 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -373,7 +373,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
+                [x, z], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From ab0e936f2ad668d73f587b7ee43dbedbe30148d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 13/40] fix: PALM and iPALM load x0 and y0 into H before
 iterating

---
 pyproximal/optimization/palm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 93a7352..003e9da 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -166,6 +166,8 @@ def PALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     for iiter in range(niter):
         # x step
         if gammaf is not None:
@@ -344,6 +346,8 @@ def iPALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     xold, yold = x0.copy(), y0.copy()
     for iiter in range(niter):
         # x step
-- 
2.43.0


From fe5bce669a7534e3c40f9f099b33c68228fe9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 14/40] fix: AndersonProximalGradient history starts with r0 in
 R and g0 in G

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fad1fe7..c1d2b1d 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -626,10 +626,10 @@ def AndersonProximalGradient(
     r = g - x0
     R, G = (
         [
-            g,
+            r,
         ],
         [
-            r,
+            g,
         ],
     )
     pf = proxf(x)
-- 
2.43.0


From a34a8e0b69eb1ca8bee8f6a5c9a6fb4ad48039db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 15/40] fix: AndersonProximalGradient safeguard compares with f
 at the accepted iterate

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index c1d2b1d..e75a4e6 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -678,6 +678,7 @@ def AndersonProximalGradient(
             else:
                 x = proxg.prox(g, epsg[iiter] * tau)
                 y = g
+                pf = proxf(x)
 
         # run callback
         if callback is not None:
-- 
2.43.0


From e1b3b586ebb92d679b67d83b06ea320a7655282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 16/40] fix: ProximalGradient relaxation with eta acts on the
 extrapolated point y

---
 pyproximal/optimization/primal.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index e75a4e6..d53fc49 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -379,17 +379,15 @@ def ProximalGradient(
             if eta == 1.0:
                 x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
             else:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
+                x = y + eta * (
+                    proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau) - y
                 )
         else:
             x, tau = _backtracking(
                 y, tau, proxf, proxg, epsg[iiter], beta=beta, niterback=niterback
             )
             if eta != 1.0:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+                x = y + eta * (x - y)
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-- 
2.43.0


From 41dd5fc2b77782dcf70145fd5e8c83e97d77fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 17/40] fix: ADMML2 with gfirst updates the dual with A applied
 to the new x

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index d53fc49..1f4de78 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1335,6 +1335,7 @@ def ADMML2(
                 ],
                 **kwargs_solver,
             )[0]
+            Ax = A @ x
         else:
             # solve augumented system
             x = regularized_inversion(
-- 
2.43.0


From 9057008bcab0e7961f09e7e537bbfb18d075cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 18/40] fix: LinearizedADMM starts from A x0 also when z0 is
 given

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 1f4de78..58af5cc 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1467,7 +1467,7 @@ def LinearizedADMM(
     """
     # initialize variables
     x, z = _x0z0_init(x0, z0, A, Opname="A")
-    Ax = A.matvec(x) if z0 is None else z
+    Ax = A.matvec(x)
     ncp = get_array_module(x)
     u = ncp.zeros_like(z)
 
-- 
2.43.0


From cbe8577fcf45884cc48ee6b1f2077f393f352771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 19/40] fix: PPXA starts from the weighted mean of its
 auxiliary vectors

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 58af5cc..4be07f0 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1940,7 +1940,7 @@ def PPXA(  # pylint: disable=invalid-name
     else:
         y = ncp.full((m, x0.size), x0)  # y1_0 = y2_0 = ... = ym_0 = x0
 
-    x = ncp.mean(y, axis=0)
+    x = ncp.sum(w[:, None] * y, axis=0)
     x_old = x.copy()
 
     # iterate
-- 
2.43.0


From 7d71077da872da7e098f514947b8dbf6cebed70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 20/40] fix: PPXA and ConsensusADMM accept tol=None

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 4be07f0..c4aef35 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1961,7 +1961,7 @@ def PPXA(  # pylint: disable=invalid-name
                 print(f"{iiter + 1:6d}  {ncp.real(to_numpy(x[0])):12.5e}  {pf:10.3e}")
 
         # break if tolerance condition is met
-        if ncp.abs(x - x_old).max() < tol:
+        if tol is not None and ncp.abs(x - x_old).max() < tol:
             break
 
         x_old = x
@@ -2095,7 +2095,7 @@ def ConsensusADMM(  # pylint: disable=invalid-name
                 )
 
         # break if tolerance condition is met
-        if ncp.abs(x_bar - x_bar_old).max() < tol:
+        if tol is not None and ncp.abs(x_bar - x_bar_old).max() < tol:
             break
 
         x_bar_old = x_bar
-- 
2.43.0


From 108222e6a3d3d3f06401e5203aaaffe0d623fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 21/40] fix: GeneralizedProximalGradient checks the weights up
 to rounding

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index c4aef35..35b231c 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -804,7 +804,7 @@ def GeneralizedProximalGradient(
     # check if weights sum to 1
     if weights is None:
         weights = np.ones(len(proxgs)) / len(proxgs)
-    if len(weights) != len(proxgs) or np.sum(weights) != 1.0:
+    if len(weights) != len(proxgs) or not np.isclose(np.sum(weights), 1.0):
         msg = f"omega={weights} must be an array of size {len(proxgs)} summing to 1"
         raise ValueError(msg)
 
-- 
2.43.0


From 7474fe8e4ba929c7aba3b38125838d930380156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 22/40] fix: parallel Dykstra does not modify the weights of
 the caller

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 3596435..683b030 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -104,7 +104,7 @@ def parallel_dykstra_prox(
     m = len(prox_ops)
     z = ncp.stack([x0.copy() for _ in range(m)])
     w = ncp.asarray(weights, dtype=float)
-    w /= w.sum()
+    w = w / w.sum()
 
     for _ in range(niter):
         x_old = x.copy()
-- 
2.43.0


From 736b6a3094ecfe8b5950dc430e02fd829793e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 23/40] fix: L21_plus_L1.prox handles zero groups and any
 grouping axis

---
 pyproximal/proximal/L21_plus_L1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 10dcbd4..536870c 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -47,8 +47,9 @@ class L21_plus_L1(ProxOperator):
         l1 = np.maximum(np.abs(x) - thresh * self.rho, 0)
         # Axis defines what dimension to perform grouping over
         aux_l21 = np.sqrt(
-            np.sum(np.maximum(np.abs(x) - thresh * self.rho, 0) ** 2, axis=axis)
+            np.sum(np.maximum(np.abs(x) - thresh * self.rho, 0) ** 2, axis=axis, keepdims=True)
         )
+        aux_l21[aux_l21 == 0] = 1.0  # l1 is zero in these groups
         l21 = np.maximum(1 - thresh * (1 - self.rho) / aux_l21, 0)
         x = np.nan_to_num(x / np.abs(x)) * l1 * l21
         return x
-- 
2.43.0


From 658e43ba9ad5742a16d8e9dd1bd934831c8b7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 24/40] fix: QuadraticEnvelopeCardIndicator.prox keeps the r0
 largest entries when tau>=1

---
 pyproximal/proximal/QuadraticEnvelope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index a07ee16..37957cb 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -1,7 +1,7 @@
 import numpy as np
-from pylops.optimization.cls_sparsity import _hardthreshold
 from pylops.utils.typing import IntNDArray, NDArray, ShapeLike
 
+from pyproximal.projection import L0BallProj
 from pyproximal.ProxOperator import ProxOperator, _check_tau
 
 
@@ -189,7 +189,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
     def prox(self, y: NDArray, tau: float) -> NDArray:
         rho = 1 / tau
         if rho <= 1:
-            return _hardthreshold(y, tau)
+            return L0BallProj(self.r0)(y)
         if y.size <= self.r0:
             return y
 
-- 
2.43.0


From 881b4e24017d9f90096d9ee12335742ba3446fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 25/40] fix: spectral penalties evaluate complex matrices with
 the conjugate transpose

---
 pyproximal/proximal/Nuclear.py              | 2 +-
 pyproximal/proximal/QuadraticEnvelope.py    | 2 +-
 pyproximal/proximal/SingularValuePenalty.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/Nuclear.py b/pyproximal/proximal/Nuclear.py
index 149c5c0..74fd7a3 100644
--- a/pyproximal/proximal/Nuclear.py
+++ b/pyproximal/proximal/Nuclear.py
@@ -62,7 +62,7 @@ class Nuclear(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
+        eigs = np.linalg.eigvalsh(np.conj(X.T) @ X)
         eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
         return float(np.sum(np.flip(self.sigma) * np.sqrt(eigs)))
 
diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 37957cb..fe9b728 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -282,7 +282,7 @@ class QuadraticEnvelopeRankL2(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
+        eigs = np.linalg.eigvalsh(np.conj(X.T) @ X)
         eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
         return float(
             np.sum(self.penalty(np.sqrt(eigs)))
diff --git a/pyproximal/proximal/SingularValuePenalty.py b/pyproximal/proximal/SingularValuePenalty.py
index 9019327..837cb54 100644
--- a/pyproximal/proximal/SingularValuePenalty.py
+++ b/pyproximal/proximal/SingularValuePenalty.py
@@ -47,7 +47,7 @@ class SingularValuePenalty(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
+        eigs = np.linalg.eigvalsh(np.conj(X.T) @ X)
         eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
         return float(np.sum(self.penalty(np.sqrt(eigs))))
 
-- 
2.43.0


From e11441060b707da8ea86ed51c0164b06bf30d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 26/40] fix: weighted Nuclear value uses the weights of the
 min(M, N) singular values

---
 pyproximal/proximal/Nuclear.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Nuclear.py b/pyproximal/proximal/Nuclear.py
index 74fd7a3..322f7d6 100644
--- a/pyproximal/proximal/Nuclear.py
+++ b/pyproximal/proximal/Nuclear.py
@@ -62,9 +62,12 @@ class Nuclear(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(np.conj(X.T) @ X)
+        eigs = np.linalg.eigvalsh(np.conj(X.T) @ X)[-min(X.shape) :]
         eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(np.flip(self.sigma) * np.sqrt(eigs)))
+        sigma = self.sigma
+        if isinstance(sigma, np.ndarray) and sigma.size > 1:
+            sigma = sigma[: eigs.size]
+        return float(np.sum(np.flip(sigma) * np.sqrt(eigs)))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-- 
2.43.0


From 1de877e8346538be67f4470bfec717d47f6d5b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 27/40] fix: QuadraticEnvelopeCard.prox threshold grows with
 tau for tau>1

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index fe9b728..b4a8b67 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -89,7 +89,7 @@ class QuadraticEnvelopeCard(ProxOperator):
         r = np.abs(x)
         idx = r < np.sqrt(2 * self.mu)
         if tau >= 1:
-            r[idx] = 0
+            r[r < np.sqrt(2 * self.mu * tau)] = 0
         else:
             r[idx] = np.maximum(0, (r[idx] - tau * np.sqrt(2 * self.mu)) / (1 - tau))
         return r * np.sign(x)
-- 
2.43.0


From fd7ed570d096c2b31a50f2cb550d57eab12d699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 28/40] fix: L1.proxdual uses the Moreau identity for complex
 inputs

---
 pyproximal/proximal/L1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 42129ae..33f63ed 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -147,7 +147,7 @@ class L1(ProxOperator):
 
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
-        if not isinstance(self.gdual, np.ndarray):
+        if not isinstance(self.gdual, np.ndarray) and not np.iscomplexobj(x):
             x = self.box(x)
         else:
             x = self._proxdual_moreau(x, tau)
-- 
2.43.0


From 89337a98f6b8495c68a8f09ce1a060dc2fb4cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 29/40] fix: gradient tests leave their inputs unchanged and
 perturb real inputs along reals

---
 pyproximal/utils/gradtest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 96ec9c7..9786bf1 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -93,13 +93,14 @@ def gradtest_proximal(
 
     # choose location of perturbation, whether to act on x or y and on real or imag part
     iqx = np.random.randint(0, n)
-    r_or_i = np.random.randint(0, 2)
+    r_or_i = np.random.randint(0, 2) if np.iscomplexobj(x) else 0
 
     delta1: float | complex = delta
     if r_or_i != 0:
         delta1 = delta * 1j
 
     # extract gradient value to test
+    x = x.copy()
     x[iqx] = x[iqx] + delta1
     grad = g[iqx]
 
@@ -202,7 +203,7 @@ def gradtest_bilinear(
     ny = Op.sizey
 
     # extract x and y from Op
-    x, y = Op.x.ravel(), Op.y.ravel()
+    x, y = Op.x.flatten(), Op.y.flatten()
 
     # compute function at x and y
     f = Op(x, y)
-- 
2.43.0


From 248607def0e6e7fb3252eecf6ab03bebc9298069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 30/40] fix: QuadraticEnvelopeCardIndicator value defined for
 r0=1

---
 pyproximal/proximal/QuadraticEnvelope.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index b4a8b67..3e092b6 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -173,10 +173,8 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
         xs = np.sort(np.abs(x))[::-1]
         sums = np.cumsum(xs[::-1])
         sums = sums[-self.r0 :] / np.arange(1, self.r0 + 1)
-        tmp = np.diff(sums) > 0
-        k_star = int(np.argmax(tmp))
-        if k_star == 0 and not tmp[k_star]:
-            k_star = self.r0 - 1
+        # if sums never increases, the last index (r0 - 1) is selected
+        k_star = int(np.argmax(np.append(np.diff(sums) > 0, True)))
         return float(
             0.5
             * (
-- 
2.43.0


From 5a59cd56e1b7ffa9ee18858bb5c7469446a575bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 31/40] fix: Geman.prox keeps the stationary point when the
 cubic has a nearly double root

---
 pyproximal/proximal/Geman.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index 371591d..81257db 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -83,8 +83,9 @@ class Geman(ProxOperator):
     ) -> tuple[NDArray, NDArray]:
         f = -((c - b**2.0 / 3.0) ** 3.0) / 27.0
         g = (2.0 * b**3.0 - 9.0 * b * c + 27.0 * d) / 27.0
-        idx = g**2.0 / 4.0 - f <= 0
+        # f > 0, allow for round-off when the cubic has a (nearly) double root
+        idx = g**2.0 / 4.0 - f <= 1e-12 * f
         sqrtf = np.sqrt(f[idx])
-        k = np.arccos(-(g[idx] / (2 * sqrtf)))
+        k = np.arccos(np.clip(-(g[idx] / (2 * sqrtf)), -1.0, 1.0))
         loc_mins = 2 * sqrtf ** (1 / 3.0) * np.cos(k / 3.0) - b[idx] / 3.0
         return idx, loc_mins
-- 
2.43.0


From e043b48cffa42794137bfcbe303aabcd19338386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 32/40] fix: IntersectionProj does not stop while Dykstra
 corrections still change

---
 pyproximal/projection/Intersection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index 86202d9..ac8b13f 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -55,7 +55,7 @@ class IntersectionProj:
         x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
-            xold = x.copy()
+            xold, x12old = x.copy(), x12.copy()
             for i1 in range(self.k - 1):
                 for i2 in range(i1 + 1, self.k):
                     xtilde = x[i2] - x[i1] + x12[i1, i2]
@@ -68,6 +68,11 @@ class IntersectionProj:
                     x[i1] = x[i1] + 0.5 * (xdtilde - x12[i1, i2])
                     x[i2] = x[i2] - 0.5 * (xdtilde - x12[i1, i2])
                     x12[i1, i2] = xdtilde
-            if max(np.sum(np.abs(x - xold), axis=0)) < self.tol:
+            # the iterate of Dykstra's algorithm may stall for some iterations
+            # while the corrections still change
+            if (
+                max(np.sum(np.abs(x - xold), axis=0)) < self.tol
+                and np.max(np.abs(x12 - x12old)) < self.tol
+            ):
                 break
         return x.ravel()
-- 
2.43.0


From c7c9e8271b71282dcb91537a5a34ef4a8079fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 33/40] fix: adaptive SR3 does not divide by zero when the
 inner LSQR is exact

---
 pyproximal/optimization/sr3.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 10f3381..3ff0662 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -61,9 +61,13 @@ def _lsqr(
     data -= Op.matvec(x0)
     x = x0
     beta = np.linalg.norm(data)
+    if beta == 0:
+        return x
     u = data / beta
     v = Op.rmatvec(u)
     alpha = np.linalg.norm(v)
+    if alpha == 0:
+        return x
     v = v / alpha
     w = v
     phi_bar = beta
@@ -71,10 +75,12 @@ def _lsqr(
     for _ in range(iter_lim):
         u = Op.matvec(v) - alpha * u
         beta = np.linalg.norm(u)
-        u = u / beta
+        if beta > 0:
+            u = u / beta
         v = Op.rmatvec(u) - beta * v
         alpha = np.linalg.norm(v)
-        v = v / alpha
+        if alpha > 0:
+            v = v / alpha
         rho = np.sqrt(rho_bar**2 + beta**2)
         c = rho_bar / rho
         s = beta / rho
@@ -87,6 +93,9 @@ def _lsqr(
         z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
         if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
             return x
+        if alpha == 0:
+            # exact least-squares solution reached
+            return x
         w = v - (theta / rho) * w
         z_old = z
     return x
-- 
2.43.0


From faa26b77ac8c73cae0aa7b2abcc7c89a568aea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 34/40] fix: TV does not declare a gradient it does not have

---
 pyproximal/proximal/TV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 2fd6035..a00d3a5 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -47,7 +47,7 @@ class TV(ProxOperator):
         rtol: float = 1e-4,
         **kwargs: Any,
     ) -> None:
-        super().__init__(None, True)
+        super().__init__(None, False)
         self.dims = (0,) if dims is None else dims
         self.ndim = 1 if dims is None else len(dims)
         self.sigma = sigma
-- 
2.43.0


From 10ec0028de826be5c6d48db665bdfa3ac4127a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 35/40] fix: TV accepts dims=None for one-dimensional inputs

---
 pyproximal/proximal/TV.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index a00d3a5..8a59871 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -48,7 +48,7 @@ class TV(ProxOperator):
         **kwargs: Any,
     ) -> None:
         super().__init__(None, False)
-        self.dims = (0,) if dims is None else dims
+        self.dims = (-1,) if dims is None else dims
         self.ndim = 1 if dims is None else len(dims)
         self.sigma = sigma
         self.niter = niter
@@ -60,7 +60,7 @@ class TV(ProxOperator):
         x = x.reshape(self.dims)
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
             dx = derivOp @ x
             y = np.sum(np.abs(dx), axis=0)
@@ -101,7 +101,7 @@ class TV(ProxOperator):
         sol = x
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
         else:
             gradOp = Gradient(x.shape, edge=False, dtype=x.dtype, kind="forward")
-- 
2.43.0


From 3b70f24e929207ed53c6a12ca3d0a98fe94e39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 36/40] fix: QuadraticEnvelopeRankL2.prox does not index past
 the last singular value

---
 pyproximal/proximal/QuadraticEnvelope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 3e092b6..cd719d8 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -299,14 +299,14 @@ class QuadraticEnvelopeRankL2(ProxOperator):
         ind = np.argsort(r, kind="quicksort")
         p = r[ind]
 
-        a = (n - self.r0) / rho
+        a = max(n - self.r0, 0) / rho
         b = (rho + 1) / rho * np.sum(yk[self.r0 :])
 
         # Base case
         zk = yk.copy()
         zk[self.r0 :] = (1 + rho) * yk[self.r0 :]
 
-        for k, ii in enumerate(ind):
+        for k, ii in enumerate(ind[:-1]):
             if ii < self.r0:
                 a = a + (rho + 1) / rho
                 b = b + (rho + 1) / rho * yk[ii]
-- 
2.43.0


From 75cc7e05f308dafc71846d76c8666c6ff1604360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 37/40] fix: SingularValuePenalty value counts only the
 singular values of wide matrices

---
 pyproximal/proximal/SingularValuePenalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/SingularValuePenalty.py b/pyproximal/proximal/SingularValuePenalty.py
index 837cb54..1a6a056 100644
--- a/pyproximal/proximal/SingularValuePenalty.py
+++ b/pyproximal/proximal/SingularValuePenalty.py
@@ -47,7 +47,7 @@ class SingularValuePenalty(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(np.conj(X.T) @ X)
+        eigs = np.linalg.eigvalsh(np.conj(X.T) @ X)[-min(X.shape) :]
         eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
         return float(np.sum(self.penalty(np.sqrt(eigs))))
 
-- 
2.43.0


From d7b42dfe816677c3ce0451294447056d7be037ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:31 +0000
Subject: [PATCH 38/40] fix: Log1.prox of complex vectors uses |x| + delta
 under the root (NaN and a dependence on the phase before)

---
 pyproximal/proximal/Log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 5a9d10b..8b4a3c4 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -172,7 +172,7 @@ class Log1(ProxOperator):
                     np.abs(x[np.abs(x) > thresh])
                     - self.delta
                     + np.sqrt(
-                        np.abs(x[np.abs(x) > thresh] + self.delta) ** 2 - 2 * tau1
+                        (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2 - 2 * tau1
                     )
                 )
             )
-- 
2.43.0


From ee43c3b0ffc81b7236c865f61bca0fa90a7c0c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:16 +0000
Subject: [PATCH 39/40] fix: backtracking of the proximal gradient solvers uses
 the real inner product for complex models

---
 pyproximal/optimization/primal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 35b231c..da3a5e4 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -37,7 +37,9 @@ def _backtracking(
     def ftilde(x: NDArray, y: NDArray, f: ProxOperator, tau: float) -> float:
         xy = x - y
         return float(
-            f(y) + np.dot(f.grad(y), xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(y)
+            + np.real(np.vdot(f.grad(y), xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From da096330f8ecd724bdc9106a8c3058468e2d30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:16 +0000
Subject: [PATCH 40/40] fix: backtracking of PALM uses the real inner product
 for complex factors

---
 pyproximal/optimization/palm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 003e9da..ed9b91e 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -35,7 +35,9 @@ def _backtracking(
     ) -> float:
         xy = x - y[ix]
         return float(
-            f(*y) + np.dot(g, xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(*y)
+            + np.real(np.vdot(g, xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0

