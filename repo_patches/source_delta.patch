From f073e35bd341e7813ed20af693c80b21c9eec548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 01/26] fix: return the feasibility test under the 'Reject'
 constraint of the samplers

---
 stochopy/sample/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/_common.py b/stochopy/sample/_common.py
index 79ab58a..f841e1a 100644
--- a/stochopy/sample/_common.py
+++ b/stochopy/sample/_common.py
@@ -4,6 +4,6 @@ import numpy as np
 def in_search_space(x, lower, upper, constraints):
     """Determine feasibility of a sample."""
     if constraints == "Reject":
-        np.logical_and(np.all(x >= lower), np.all(x <= upper))
+        return np.logical_and(np.all(x >= lower), np.all(x <= upper))
     else:
         return True
-- 
2.43.0


From f6056d1a29e138e82ec5534ad45cdf5e246fd9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 02/26] fix: infinite recursion in HMC when a gradient function
 is given

---
 stochopy/sample/hmc/_hmc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 82199ac..b0dacf3 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -112,9 +112,9 @@ def sample(
         raise TypeError()
 
     if jac is None:
-        jac = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
+        grad = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
     else:
-        jac = lambda x: jac(x, *args)
+        grad = lambda x: jac(x, *args)
 
     # Seed
     if seed is not None:
@@ -147,12 +147,12 @@ def sample(
         q0 = q.copy()
         p0 = p.copy()
 
-        p -= 0.5 * stepsize * jac(q)  # First half momentum step
+        p -= 0.5 * stepsize * grad(q)  # First half momentum step
         q += stepsize * p  # First full position step
         for _ in range(nleap):
-            p -= stepsize * jac(q)  # Momentum
+            p -= stepsize * grad(q)  # Momentum
             q += stepsize * p  # Position
-        p -= 0.5 * stepsize * jac(q)  # Last half momentum step
+        p -= 0.5 * stepsize * grad(q)  # Last half momentum step
 
         accept = False
         if in_search_space(q, lower, upper, constraints):
-- 
2.43.0


From 89b8ee4bff5988660ac7acd48489d4b5876c62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 03/26] fix: do not rescale the caller's stepsize array in
 place in the samplers

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index b0dacf3..2164906 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -105,7 +105,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = stepsize * (0.5 * (upper - lower))
 
     # Jacobian
     if not (jac is None or hasattr(jac, "__call__")):
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index cd47e83..80347d2 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -86,7 +86,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = stepsize * (0.5 * (upper - lower))
 
     # Number of dimensions to perturb per iteration
     if not 0.0 <= perc <= 1.0:
-- 
2.43.0


From 37b7f34ede5b95dfd4ceb8deaa730d79091ed1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 04/26] fix: do not evolve the caller's x0 array in place in
 CPSO, PSO and DE

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 stochopy/optimize/de/_de.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 4ff9398..089800e 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -216,7 +216,7 @@ def cpso(
         delta = np.log(1.0 + 0.003 * popsize) / np.max((0.2, np.log(0.01 * maxiter)))
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     V = np.zeros((popsize, ndim))
     pbest = X.copy()
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index d1185ed..db11acc 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -205,7 +205,7 @@ def de(
     de_iter = de_sync if sync else de_async
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     U = np.empty((popsize, ndim))
 
     # Evaluate initial population
-- 
2.43.0


From d2703960df36d1ace47b41e39b362a6b0b0cbd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 05/26] fix: record the initial population of NA in physical
 coordinates

---
 stochopy/optimize/na/_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 97b1bdc..7b69a50 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -190,13 +190,13 @@ def na(
         if nout > 0:
             xall = np.empty((maxiter, nout, ndim))
             funall = np.empty((maxiter, nout))
-            xall[0] = X[:nout].copy()
+            xall[0] = unnormalize(X[:nout])
             funall[0] = pfit[:nout].copy()
 
         else:
             xall = np.empty((maxiter, 1, ndim))
             funall = np.empty((maxiter, 1))
-            xall[0] = gbest
+            xall[0] = unnormalize(gbest)
             funall[0] = gfit
 
     # First iteration for callback
-- 
2.43.0


From 0badbc05dc9849f96e4dc6b2fd77d679fc31d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 06/26] fix: default callback of NA

---
 stochopy/optimize/na/_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 7b69a50..df1b975 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -23,7 +23,7 @@ def minimize(
     backend=None,
     return_all=False,
     verbosity=1.0,
-    callback=True,
+    callback=None,
 ):
     """
     Minimize an objective function using Neighborhood Algorithm (NA).
-- 
2.43.0


From b524d939f78025fb0f76d53033a25fa850146b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 07/26] fix: include the initial sample in the best solution of
 the samplers

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 2164906..3247be5 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -140,7 +140,7 @@ def sample(
 
     # Leap-frog algorithm
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     for i in range(1, maxiter):
         q = xall[i - 1].copy()
         p = np.random.randn(ndim)  # Random momentum
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 80347d2..87d850a 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -119,7 +119,7 @@ def sample(
     # Metropolis-Hastings algorithm
     i = 1
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
             jmax = min(ndim, j + ndim_per_iter - 1)
-- 
2.43.0


From 17fdbdbc796fac312738cb12008c6376ee4f9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 08/26] fix: last block of dimensions perturbed by MCMC overran
 the array

---
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 87d850a..d197a96 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -122,7 +122,7 @@ def sample(
     imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
-            jmax = min(ndim, j + ndim_per_iter - 1)
+            jmax = min(ndim, j + ndim_per_iter) - 1
             perturbation = np.random.randn(jmax - j + 1) * stepsize[j : jmax + 1]
 
             xall[i] = xall[i - 1].copy()
-- 
2.43.0


From b2bb43399e03c08923c016fb9b4e302c24f94f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 09/26] fix: history passed to the samplers' callback lagged
 one sample behind

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 3247be5..c86c13f 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -182,7 +182,7 @@ def sample(
                 accept_ratio=n_accepted / (i + 1),
             )
             if return_all:
-                res.update({"xall": xall[:i], "funall": funall[:i]})
+                res.update({"xall": xall[: i + 1], "funall": funall[: i + 1]})
 
             callback(xall[i], res)
 
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index d197a96..c155694 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -151,7 +151,7 @@ def sample(
                     accept_ratio=n_accepted / i,
                 )
                 if return_all:
-                    res.update({"xall": xall[: i - 1], "funall": funall[: i - 1]})
+                    res.update({"xall": xall[:i], "funall": funall[:i]})
 
                 callback(xall[i - 1], res)
 
-- 
2.43.0


From 09df25f96b7aaccbbc2308dc413e298bbc09cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 10/26] fix: termination detected within a generation was
 forgotten with immediate updating

---
 stochopy/optimize/cpso/_cpso.py | 4 +++-
 stochopy/optimize/de/_de.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 089800e..b81d8e0 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -384,6 +384,7 @@ def pso_async(
     """Asynchronous PSO."""
     popsize = len(X)
 
+    status = None
     for i in range(popsize):
         # Mutation
         X[i], V[i] = mutation(
@@ -391,9 +392,10 @@ def pso_async(
         )
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], istatus = selection_async(
             it, X, gbest, gfit, pbest, pbestfit, maxiter, xtol, ftol, fun, i
         )
+        status = istatus if istatus is not None else status
 
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index db11acc..a3a9d3d 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -372,6 +372,7 @@ def de_async(
     """Asynchronous DE."""
     popsize, ndim = X.shape
 
+    status = None
     for i in range(popsize):
         # Mutation
         V = mut(delete_shuffle_async(i, popsize), F, X, gbest)
@@ -383,9 +384,10 @@ def de_async(
         U[i] = cons(np.where(np.logical_or(mask, r1[i] <= CR), V, X[i]))
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], istatus = selection_async(
             it, U, gbest, gfit, X, pbestfit, maxiter, xtol, ftol, fun, i
         )
+        status = istatus if istatus is not None else status
 
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
-- 
2.43.0


From 3502ec252d244a0e3419ba24df4c724e056e0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 11/26] fix: restarted particles of CPSO could beat large
 function values with a placeholder

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index b81d8e0..342c612 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -423,7 +423,7 @@ def restart(it, X, V, pbest, gbest, pbestfit, lower, upper, gamma, delta, maxite
             V[idx] = np.zeros((nw, ndim))
             X[idx] = np.random.uniform(lower, upper, (nw, ndim))
             pbest[idx] = X[idx].copy()
-            pbestfit[idx] = np.full(nw, 1.0e30)
+            pbestfit[idx] = np.full(nw, np.inf)
 
     return X, V, pbest, pbestfit
 
-- 
2.43.0


From 233f594885fd1db67565f4feeccc42da5ff4857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 12/26] fix: record the function values of the population, not
 of the trials, in DE

---
 stochopy/optimize/de/_de.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index a3a9d3d..1d17439 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -270,12 +270,12 @@ def de(
         if return_all:
             if nout > 0:
                 xall[it - 1] = X[:nout].copy()
-                funall[it - 1] = pfit[:nout].copy()
+                funall[it - 1] = pbestfit[:nout].copy()
 
             else:
-                idx = pfit.argmin()
+                idx = pbestfit.argmin()
                 xall[it - 1] = X[idx].copy()
-                funall[it - 1] = pfit[idx].copy()
+                funall[it - 1] = pbestfit[idx].copy()
 
         converged = status is not None
 
-- 
2.43.0


From 9010aff0f0df3962b82bbb39e71bafb0ce1e4274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 13/26] fix: unknown parallel backends were silently ignored

---
 stochopy/optimize/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index d81155e..3331ba2 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -97,7 +97,7 @@ def optimizer(optfun):
                 res = optfun(fun, args, sync, workers, backend, *optargs)
 
         else:
-            parallel = backend == "mpi"
+            parallel = backend == "mpi" or workers not in {0, 1}
             fun = wrapper(fun, args, sync, backend, parallel)
             res = optfun(fun, args, sync, workers, backend, *optargs)
 
-- 
2.43.0


From 8eb42dcefa33fba73082808118f392d1dc1745cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 14/26] fix: CPSO, PSO, DE and NA performed two iterations with
 maxiter=1

---
 stochopy/optimize/cpso/_cpso.py | 3 ++-
 stochopy/optimize/de/_de.py     | 3 ++-
 stochopy/optimize/na/_na.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 342c612..d2361f0 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -255,7 +255,8 @@ def cpso(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 1d17439..2350ebd 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -243,7 +243,8 @@ def de(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index df1b975..9dde7e8 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -209,7 +209,8 @@ def na(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
-- 
2.43.0


From 73349dc95cbf67d51e3d1c41215b4dc43d890c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 15/26] fix: lower bounds were ignored when weighting the
 boundary penalty

---
 stochopy/optimize/cmaes/_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 0009593..3178d5d 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -51,7 +51,7 @@ def Penalize(
     # Corrected mean
     ti = np.logical_or(xmean < -ones, xmean > ones)
     tx = np.where(xmean < -ones, -ones, xmean)
-    tx = np.where(xmean > ones, ones, xmean)
+    tx = np.where(xmean > ones, ones, tx)
 
     # Set initial weights
     if iniphase and ti.any():
-- 
2.43.0


From 9108d4ed0c86fd347f8c045b3188cd897f450d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 16/26] fix: boundary penalty of the first iteration read
 uninitialized memory

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 00f1e15..b511317 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -178,7 +178,7 @@ def cmaes(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = int(muperc * popsize)
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 032d32c..3fffd07 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -179,7 +179,7 @@ def vdcma(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = int(muperc * popsize)
-- 
2.43.0


From af42a8b5d7bb724e75cb9bf1007a768b7157547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 17/26] fix: stagnation tests of CMA-ES and VD-CMA looked at
 iterations not yet performed

---
 stochopy/optimize/cmaes/_cmaes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index b511317..f1ef558 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -408,8 +408,8 @@ def converge(
     # EqualFunValues: stop if the range of fitness values is zero
     elif (
         it >= ilim
-        and arbestfitness[it - ilim : it + 1].max()
-        - arbestfitness[it - ilim : it + 1].min()
+        and arbestfitness[it - ilim : it].max()
+        - arbestfitness[it - ilim : it].min()
         < 1.0e-10
     ):
         status = -5
@@ -421,8 +421,8 @@ def converge(
     # TolFun: stop if fun-changes smaller than 1e-12
     elif (
         it > 2
-        and np.append(arfitness, arbestfitness).max()
-        - np.append(arfitness, arbestfitness).min()
+        and np.append(arfitness, arbestfitness[:it]).max()
+        - np.append(arfitness, arbestfitness[:it]).min()
         < 1.0e-12
     ):
         status = -7
-- 
2.43.0


From db7a8b1a88e2ebc6a807056556c1a69d1a87ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 18/26] fix: MPI ranks drew different random numbers and
 diverged without a seed

---
 stochopy/optimize/_common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index 3331ba2..4155c41 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -55,6 +55,11 @@ def optimizer(optfun):
                         mpi_size = mpi_comm.Get_size()
                         mpi_double = MPI.DOUBLE
 
+                        # All ranks must draw the same random numbers
+                        np.random.set_state(
+                            mpi_comm.bcast(np.random.get_state(), root=0)
+                        )
+
                         def wrapper(x):
                             popsize = len(x)
                             f = np.zeros(popsize)
-- 
2.43.0


From d432ca3c02594e75877ec8e91a29fd4764409ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 19/26] fix: state passed to the callback of HMC lacked nfev

---
 stochopy/sample/hmc/_hmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index c86c13f..d122bf1 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -132,7 +132,9 @@ def sample(
 
     # First iteration for callback
     if callback is not None:
-        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=1.0)
+        res = SampleResult(
+            x=xall[0], fun=funall[0], nfev=fun.nfev, nit=1, accept_ratio=1.0
+        )
         if return_all:
             res.update({"xall": xall[:1], "funall": funall[:1]})
 
@@ -178,6 +180,7 @@ def sample(
             res = SampleResult(
                 x=xall[imin],
                 fun=funall[imin],
+                nfev=fun.nfev,
                 nit=i + 1,
                 accept_ratio=n_accepted / (i + 1),
             )
-- 
2.43.0


From 88d65c1ad201c9e24ba0565b46006888afd7e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 20/26] fix: DE crashed with population sizes too small for the
 strategy

---
 stochopy/optimize/de/_de.py       | 4 ++--
 stochopy/optimize/de/_strategy.py | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 2350ebd..34f3b5d 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -3,7 +3,7 @@ import numpy as np
 from .._common import lhs, messages, optimizer, selection_async, selection_sync
 from .._helpers import OptimizeResult, register
 from ._constraints import _constraints_map
-from ._strategy import _strategy_map
+from ._strategy import _popsize_min, _strategy_map
 
 __all__ = [
     "minimize",
@@ -119,7 +119,7 @@ def minimize(
             raise ValueError()
 
     # Population size
-    if popsize < 2:
+    if popsize < _popsize_min[strategy]:
         raise ValueError()
 
     if x0 is not None and len(x0) != popsize:
diff --git a/stochopy/optimize/de/_strategy.py b/stochopy/optimize/de/_strategy.py
index ff95f5a..5f156e6 100644
--- a/stochopy/optimize/de/_strategy.py
+++ b/stochopy/optimize/de/_strategy.py
@@ -44,3 +44,12 @@ _strategy_map = {
     "best1bin": best1bin,
     "best2bin": best2bin,
 }
+
+
+# Minimum population size (current solution is excluded from mutation)
+_popsize_min = {
+    "rand1bin": 4,
+    "rand2bin": 6,
+    "best1bin": 3,
+    "best2bin": 5,
+}
-- 
2.43.0


From e363b3a1a0522be7e0d669e092725f8372c7505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 21/26] fix: CMA-ES and VD-CMA returned NaN when no parent was
 selected

---
 stochopy/optimize/cmaes/_cmaes.py | 6 +++++-
 stochopy/optimize/vdcma/_vdcma.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index f1ef558..8f32dc1 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -105,6 +105,10 @@ def minimize(
         if np.ndim(x0) != 1 or len(x0) != len(bounds):
             raise ValueError()
 
+    # Population size
+    if popsize < 2:
+        raise ValueError()
+
     # CMA-ES parameters
     if sigma <= 0.0:
         raise ValueError()
@@ -181,7 +185,7 @@ def cmaes(
     xold = xmean.copy()
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 3fffd07..52425a4 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -106,6 +106,10 @@ def minimize(
         if np.ndim(x0) != 1 or len(x0) != len(bounds):
             raise ValueError()
 
+    # Population size
+    if popsize < 2:
+        raise ValueError()
+
     # VDCMA parameters
     if sigma <= 0.0:
         raise ValueError()
@@ -182,7 +186,7 @@ def vdcma(
     xold = xmean.copy()
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
-- 
2.43.0


From 6a56e06dda7483ab31d61d54ebf73e006a55a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 22/26] fix: HMC documented a parameter that it does not accept

---
 stochopy/sample/hmc/_hmc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index d122bf1..908a5aa 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -42,8 +42,6 @@ def sample(
         Number of leap-frog steps.
     stepsize : scalar or array_like, optional, default 0.01
         Leap-frog step size (as a fraction of feasible space defined by ``bounds``).
-    perc : scalar, optional, default 1.0
-        Number of dimensions to perturb at each iteration (as a fraction of total number of variables).
     seed : int or None, optional, default None
         Seed for random number generator.
     jac : callable or None, optional, default None
-- 
2.43.0


From 53db0f80040900b3c5c758d7887da3edbfbe0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 23/26] fix: documented default value of args was rejected

---
 stochopy/optimize/_helpers.py     | 2 +-
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/cpso/_cpso.py   | 2 +-
 stochopy/optimize/de/_de.py       | 2 +-
 stochopy/optimize/na/_na.py       | 2 +-
 stochopy/optimize/pso/_pso.py     | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 stochopy/sample/_helpers.py       | 2 +-
 stochopy/sample/hmc/_hmc.py       | 2 +-
 stochopy/sample/mcmc/_mcmc.py     | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/stochopy/optimize/_helpers.py b/stochopy/optimize/_helpers.py
index 5474f34..6a533a2 100644
--- a/stochopy/optimize/_helpers.py
+++ b/stochopy/optimize/_helpers.py
@@ -53,7 +53,7 @@ def minimize(fun, bounds, x0=None, args=(), method="de", options=None, callback=
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the optimizing argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial guess. Depending on the solver, array of real elements of size (``ndim``,) or with shape (``popsize``, ``ndim``), where ``ndim`` is the number of independent variables and ``popsize`` is the total population size if the solver is population-based.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     method : str, optional, default 'de'
         Type of solver. Should be one of:
diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 8f32dc1..9f63fc0 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -39,7 +39,7 @@ def minimize(
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the optimizing argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial mean. Array of real elements of size (``ndim``,), where ``ndim`` is the number of independent variables.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     maxiter : int, optional, default 100
         The maximum number of generations over which the entire population is evolved.
diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index d2361f0..2b72bc6 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -42,7 +42,7 @@ def minimize(
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the optimizing argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial population. Array of real elements with shape (``popsize``, ``ndim``), where ``ndim`` is the number of independent variables. If ``x0`` is not specified, the population is initialized using Latin Hypercube sampling.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     maxiter : int, optional, default 100
         The maximum number of generations over which the entire population is evolved.
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 34f3b5d..7cd34e0 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -42,7 +42,7 @@ def minimize(
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the optimizing argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial population. Array of real elements with shape (``popsize``, ``ndim``), where ``ndim`` is the number of independent variables. If ``x0`` is not specified, the population is initialized using Latin Hypercube sampling.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     maxiter : int, optional, default 100
         The maximum number of generations over which the entire population is evolved.
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 9dde7e8..c96e04d 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -36,7 +36,7 @@ def minimize(
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the optimizing argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial population. Array of real elements with shape (``popsize``, ``ndim``), where ``ndim`` is the number of independent variables. If ``x0`` is not specified, the population is initialized using Latin Hypercube sampling.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     maxiter : int, optional, default 100
         The maximum number of generations over which the entire population is evolved.
diff --git a/stochopy/optimize/pso/_pso.py b/stochopy/optimize/pso/_pso.py
index 648fd54..2efa90a 100644
--- a/stochopy/optimize/pso/_pso.py
+++ b/stochopy/optimize/pso/_pso.py
@@ -38,7 +38,7 @@ def minimize(
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the optimizing argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial population. Array of real elements with shape (``popsize``, ``ndim``), where ``ndim`` is the number of independent variables. If ``x0`` is not specified, the population is initialized using Latin Hypercube sampling.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     maxiter : int, optional, default 100
         The maximum number of generations over which the entire population is evolved.
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 52425a4..54d1aa1 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -40,7 +40,7 @@ def minimize(
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the optimizing argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial mean. Array of real elements of size (``ndim``,), where ``ndim`` is the number of independent variables.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     maxiter : int, optional, default 100
         The maximum number of generations over which the entire population is evolved.
diff --git a/stochopy/sample/_helpers.py b/stochopy/sample/_helpers.py
index 68f56bc..d9c577d 100644
--- a/stochopy/sample/_helpers.py
+++ b/stochopy/sample/_helpers.py
@@ -47,7 +47,7 @@ def sample(fun, bounds, x0=None, args=(), method="mcmc", options=None, callback=
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the sampling argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial sample. Array of real elements of size (``ndim``,), where ``ndim`` is the number of independent variables.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     method : str, optional, default 'mcmc'
         Type of sampler. Should be one of:
diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 908a5aa..e9c0978 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -34,7 +34,7 @@ def sample(
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the sampling argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial sample. Array of real elements of size (``ndim``,), where ``ndim`` is the number of independent variables.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     maxiter : int, optional, default 100
         Total number of samples to generate.
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index c155694..45623c4 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -32,7 +32,7 @@ def sample(
         Bounds for variables. ``(min, max)`` pairs for each element in ``x``, defining the finite lower and upper bounds for the sampling argument of ``fun``. It is required to have ``len(bounds) == len(x)``. ``len(bounds)`` is used to determine the number of parameters in ``x``.
     x0 : array_like or None, optional, default None
         Initial sample. Array of real elements of size (``ndim``,), where ``ndim`` is the number of independent variables.
-    args : tuple, optional, default None
+    args : tuple, optional, default ()
         Extra arguments passed to the objective function.
     maxiter : int, optional, default 100
         Total number of samples to generate.
-- 
2.43.0


From d03dc5108d2d90e1a6983b117a44ea911d38737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 24/26] fix: samplers reported acceptance ratio 1 before any
 proposal

The first callback state claimed accept_ratio=1.0 while no proposal had
been made; with maxiter=1 it contradicted the returned result (0.0).
---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index e9c0978..ba2ba5d 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -131,7 +131,7 @@ def sample(
     # First iteration for callback
     if callback is not None:
         res = SampleResult(
-            x=xall[0], fun=funall[0], nfev=fun.nfev, nit=1, accept_ratio=1.0
+            x=xall[0], fun=funall[0], nfev=fun.nfev, nit=1, accept_ratio=0.0
         )
         if return_all:
             res.update({"xall": xall[:1], "funall": funall[:1]})
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 45623c4..f0d06b4 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -110,7 +110,7 @@ def sample(
 
     # First iteration for callback
     if callback is not None:
-        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=1.0)
+        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=0.0)
         if return_all:
             res.update({"xall": xall[:1], "funall": funall[:1]})
 
-- 
2.43.0


From 05a7b5aa1ea3e96e025a7c0d2401b9173d8f6a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 25/26] fix: step size of the wrong shape was refused only
 after an evaluation

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index ba2ba5d..ce60974 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -100,7 +100,7 @@ def sample(
     if np.ndim(stepsize) == 0:
         stepsize = np.full(ndim, stepsize)
 
-    if len(stepsize) != ndim:
+    if np.shape(stepsize) != (ndim,):
         raise ValueError()
 
     stepsize = stepsize * (0.5 * (upper - lower))
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index f0d06b4..b70b282 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -83,7 +83,7 @@ def sample(
     if np.ndim(stepsize) == 0:
         stepsize = np.full(ndim, stepsize)
 
-    if len(stepsize) != ndim:
+    if np.shape(stepsize) != (ndim,):
         raise ValueError()
 
     stepsize = stepsize * (0.5 * (upper - lower))
-- 
2.43.0


From 6a5abc73f4b0f29289a92edfcd4b0149474c5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 26/26] fix: samplers silently ignored an unknown constraints
 name

---
 stochopy/sample/hmc/_hmc.py   | 4 ++++
 stochopy/sample/mcmc/_mcmc.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index ce60974..742e8db 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -105,6 +105,10 @@ def sample(
 
     stepsize = stepsize * (0.5 * (upper - lower))
 
+    # Constraints
+    if constraints not in {None, "Reject"}:
+        raise ValueError()
+
     # Jacobian
     if not (jac is None or hasattr(jac, "__call__")):
         raise TypeError()
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index b70b282..a43e83e 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -88,6 +88,10 @@ def sample(
 
     stepsize = stepsize * (0.5 * (upper - lower))
 
+    # Constraints
+    if constraints not in {None, "Reject"}:
+        raise ValueError()
+
     # Number of dimensions to perturb per iteration
     if not 0.0 <= perc <= 1.0:
         raise ValueError()
-- 
2.43.0

