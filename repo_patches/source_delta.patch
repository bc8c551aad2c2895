From 8a3f35f72e9a6274d481ce6901dae1abe6ce8881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:42 +0000
Subject: [PATCH 01/61] fix: lagged variables in the constraint equation
 entered with the wrong sign

---
 pydsge/gensys.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 456947a..bc3bee2 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -248,8 +248,9 @@ def gen_sys(
 
     # y-space is the space of the original variables augmented by the shocks
     c_arg = list(vv0).index(str(self.const_var))
-    fc0 = -fc0 / fb0[c_arg]
-    fb0 = -fb0 / fb0[c_arg]
+    fbc = fb0[c_arg]
+    fc0 = -fc0 / fbc
+    fb0 = -fb0 / fbc
 
     # create auxiliary vars for those both in A & C
     if verbose > 1:
@@ -291,7 +292,7 @@ def gen_sys(
     CC0 = np.block([[CC0, DD0], [np.zeros((dimeps, AA0.shape[1]))]])
     fb0 = np.pad(fb0, (0, dimeps))
     if fd0 is not None:
-        fc0 = -np.hstack((fc0, fd0))
+        fc0 = np.hstack((fc0, -fd0 / fbc))
     else:
         fc0 = np.pad(fc0, (0, dimeps))
 
-- 
2.43.0


From f9ac43049adae97e52c92c70a3927f5a5b13b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 02/61] fix: lag of a forward-looking variable in the
 constraint equation was mistaken for the variable itself

---
 pydsge/gensys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index bc3bee2..511cee6 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -260,7 +260,7 @@ def gen_sys(
         print("[gen_sys:]".ljust(15, " ") + f" Backward-looking variables: {bwd_vars}", flush=True)
 
 
-    inall = ~fast0(AA0, 0) & ~fast0(CC0, 0)
+    inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
 
     if verbose > 1:
         hyb_vars = [self.variables[i].name for i, e in enumerate(inall) if e]
@@ -282,6 +282,8 @@ def gen_sys(
         BB0[-sum(inall):, : -sum(inall)][:, inall] = -np.eye(sum(inall))
         CC0[:, -sum(inall):] = CC0[:, : -sum(inall)][:, inall]
         CC0[:, : -sum(inall)][:, inall] = 0
+        fc0[-sum(inall):] = fc0[: -sum(inall)][inall]
+        fc0[: -sum(inall)][inall] = 0
 
     if verbose > 1:
         print("[gen_sys:]".ljust(15, " ") + f" {sum(inall)} auxiliary variables have been added", flush=True)
-- 
2.43.0


From 915fa3302a3d6618e2dc0d9821c0d5cedbe33047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:08 +0000
Subject: [PATCH 03/61] fix: leads of three and more periods were all treated
 as a lead of two

---
 pydsge/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 9797a5c..8a3b545 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -863,7 +863,10 @@ class DSGE(Model):
             for i in np.arange(2, abs(max_lead_endo[v]) + 1):
                 var_l = Variable(v.name + "_LEAD" + str(i - 1))
 
-                var_l_1 = v(+1)
+                if i == 2:
+                    var_l_1 = v(+1)
+                else:
+                    var_l_1 = Variable(v.name + "_LEAD" + str(i - 2), date=+1)
 
                 subs_dict[Variable(v.name, date=+i)] = var_l(+1)
                 var_ordering.append(var_l)
-- 
2.43.0


From 063781aabcc0f1406e42d9d4988f3ee0ab77f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 04/61] fix: models without control variables could not be
 compiled

---
 pydsge/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 990141c..7fa8a6d 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -50,7 +50,7 @@ def preprocess_jittable(S, T, V, W, h, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_
     k_max += 1
 
     T22 = T[dimq:, dimq:]
-    if nl.cond(T22) > 1 / si_eps:
+    if dimp and nl.cond(T22) > 1 / si_eps:
         print(
             "[preprocess:]".ljust(15, " ")
             + " WARNING: at least one control indetermined"
-- 
2.43.0


From 9654ff29599e0f4d380990c0db9ce22bc3fd105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:16 +0000
Subject: [PATCH 05/61] fix: transition function failed for models without
 endogenous states

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2e8278e..4232587 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -81,7 +81,7 @@ def t_func(
         bterm,
         x_bar,
         *self.hx,
-        state[-dimq + dimeps:],
+        state[len(state) - dimq + dimeps:],
         shocks,
         set_l,
         set_k,
-- 
2.43.0


From 601fc03355444fdc7aa54ee6c2c042d0f6aa97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:40 +0000
Subject: [PATCH 06/61] fix: shocks whose loadings are all zero corrupted the
 state vector

---
 pydsge/gensys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 511cee6..bea017d 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -302,6 +302,7 @@ def gen_sys(
         print("[gen_sys:]".ljust(15, " ") + f" {dimeps} shocks have been added", flush=True)
 
     inq = ~fast0(CC0, 0) | ~fast0(fc0)
+    inq[-dimeps:] = True  # shocks are always part of the state, even if their loadings are zero
     inp = (~fast0(AA0, 0) | ~fast0(BB0, 0)) & ~inq
 
     # check dimensionality
-- 
2.43.0


From 573cacb1a1120fc7a915b2b5ee0f8fa1fa63ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 07/61] fix: set_par mistook a string as long as a parameter
 vector for one

---
 pydsge/mpile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index cc2be92..2ff025c 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -311,7 +311,7 @@ def set_par(
         self, "par") else np.array(self.par_fix)
 
     if setpar is None:
-        if dummy is None:
+        if dummy is None or isinstance(dummy, str):
             par = get_par(
                 self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args
             )
-- 
2.43.0


From bace6af41d794316bae11e3ca2bdd0038ddf50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 08/61] fix: get_par and get_cov changed the current parameters

---
 pydsge/mpile.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 2ff025c..e8f2646 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -174,8 +174,7 @@ def get_par(
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
         if dummy == "cov_mat":
-            gen_sys(self, pars, **args)
-            p = self.QQ(self.ppar)
+            p = self.QQ(self.pcompile(list(pars)))
             if verbose:
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
@@ -190,13 +189,17 @@ def get_par(
                 )
 
         else:
-            old_par = self.par
             pars = self.par_fix
-            self.par = self.par_fix
             if dummy == "prior":
-                par_cand = prior_sampler(
-                    self, nsamples=nsamples, verbose=verbose, debug=debug, **args
-                )
+                # trying the draws alters the parameters of the model
+                old_par = self.par
+                self.par = self.par_fix
+                try:
+                    par_cand = prior_sampler(
+                        self, nsamples=nsamples, verbose=verbose, debug=debug, **args
+                    )
+                finally:
+                    self.set_par(old_par)
             elif dummy in ("post", "posterior"):
                 par_cand = posterior_sampler(
                     self, nsamples=nsamples, verbose=verbose, **args
@@ -239,7 +242,6 @@ def get_par(
                         par_cand[i] = self.par_fix[self.prior_arg][i]
 
             else:
-                self.par = old_par
                 raise KeyError(
                     "Parameter or parametrization '%s' does not fit/exist." % dummy
                 )
-- 
2.43.0


From fb3bdaa5118873ee0517d1908583b31f0e27f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 09/61] fix: a rejected parametrization left the model
 half-updated

---
 pydsge/mpile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index e8f2646..03b9cc3 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -344,7 +344,13 @@ def set_par(
         raise SyntaxError(
             "Parameter '%s' is not defined for this model." % dummy)
 
-    gen_sys(self, par=list(par), verbose=verbose, **args)
+    backup = self.__dict__.copy()
+    try:
+        gen_sys(self, par=list(par), verbose=verbose, **args)
+    except Exception:
+        self.__dict__.clear()
+        self.__dict__.update(backup)
+        raise
 
     if hasattr(self, "filter"):
         Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
-- 
2.43.0


From f83e02e730a0cf37693db8f8a799e4c30caf49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 10/61] fix: traj was off by one in the duration of the spell

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 4232587..245b08e 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -513,7 +513,7 @@ def traj(self, state, l=None, k=None, verbose=True):
 
     tmat, tterm = self.precalc_tmat
 
-    return tmat[:, l, k - 1] @ state + tterm[:, l, k - 1]
+    return tmat[:, l, k] @ state + tterm[:, l, k]
 
 
 def k_map(self, state, l=None, k=None, verbose=True):
-- 
2.43.0


From cdd035e9f888fe97e4e9392720a90b2950392578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 11/61] fix: traj and k_map used the system of previous
 parameters

---
 pydsge/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 7fa8a6d..eeac59b 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -192,6 +192,8 @@ def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel=False, verbose=
     self.precalc_mat = preprocess_jit_loc(
         PU, MU, PR, MR, gg, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_max
     )
+    # these are now outdated, and are recalculated if needed
+    self.__dict__.pop("precalc_tmat", None)
 
     if verbose:
         print(
-- 
2.43.0


From 39481246bdea650965cf6c57ce418c284527b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 12/61] fix: observables of a single state vector could not be
 calculated

---
 pydsge/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 245b08e..b49dd31 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -141,8 +141,7 @@ def o_func(self, state, covs=None, pars=None):
         )
 
     if np.ndim(state) <= 1:
-        data = self.data.index if hasattr(self, "data") else None
-        obs = pd.DataFrame(obs, index=data, columns=self.observables)
+        obs = pd.Series(obs, index=self.observables)
 
     if covs is None:
         return obs
-- 
2.43.0


From 99b2d01193f592da87e091c6963e71db8cf7f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 13/61] fix: intervals of observables ignored the covariances
 of states

---
 pydsge/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index b49dd31..cddb166 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -150,7 +150,8 @@ def o_func(self, state, covs=None, pars=None):
     std = np.sqrt(var)
     iv95 = np.stack((state - 1.96 * std, state, state + 1.96 * std))
 
-    std_obs = (np.hstack((self.hx[0], self.hx[1])) @ std.T).T
+    H = np.hstack((self.hx[0], self.hx[1]))
+    std_obs = np.sqrt(np.diagonal(H @ covs @ H.T, axis1=1, axis2=2))
     iv95_obs = np.stack((obs - 1.96 * std_obs, obs, obs + 1.96 * std_obs))
 
     return iv95_obs, iv95
-- 
2.43.0


From 6158bed3450265e2c99854a31d613bd21e03d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 14/61] fix: o_func with given parameters altered the model

---
 pydsge/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index cddb166..e4a0fe0 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -116,6 +116,7 @@ def o_func(self, state, covs=None, pars=None):
 
     if pars is not None:
 
+        old_par = self.get_par()
         obs = []
         for sti, par in zip(state, pars):
             self.set_par(par, get_hx_only=True)
@@ -126,6 +127,8 @@ def o_func(self, state, covs=None, pars=None):
             )
             obs.append(ob)
 
+        self.set_par(old_par, get_hx_only=True)
+
         return np.array(obs)
 
     try:
-- 
2.43.0


From 1d4eaa4170a2e118a3eace93dbb0d6acf5631e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 15/61] fix: setting a small l_max required to also set k_max

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index bea017d..1236aac 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -214,7 +214,7 @@ def gen_sys(
 
     # set default values of l_max & k_max
     if l_max is not None:
-        if l_max < 2 and k_max > 0:
+        if l_max < 2 and (k_max is None or k_max > 0):
             print(
                 "[get_sys:]".ljust(15, " ")
                 + " `l_max` must be at least 2 (is %s). Correcting..." % l_max
-- 
2.43.0


From 6c974555db563dc72e9b876e58ae5a273161bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 16/61] fix: calling irfs for models from gen_sys_from_dict

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index e4a0fe0..e3e5196 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -208,7 +208,7 @@ def irfs(
             shocklist,
         ]
 
-    if not hasattr(self, "par"):
+    if self.set_par is not None and not hasattr(self, "par"):
         gen_sys(self, verbose=verbose, **args)
 
     if hasattr(self, "pool"):
-- 
2.43.0


From 3c15591659a71f3196309f92aca8901b611d27f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 17/61] fix: gen_sys_from_dict without observables

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 1236aac..291e573 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -240,7 +240,7 @@ def gen_sys(
 
     # start
     vv0 = self.vv
-    ZZ0 = None if not len(ZZ0) else ZZ0
+    ZZ0 = None if ZZ0 is None or not len(ZZ0) else ZZ0
 
     # z-space is the space of the original variables
     dimx = len(vv0)
-- 
2.43.0


From 46b01c27f295534c14b14ef0eb46203149027ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 18/61] fix: gen_sys_from_dict altered the given dict and
 shared cached objects

---
 pydsge/gensys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 291e573..3371c3a 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -8,6 +8,7 @@ import sys
 import numpy as np
 import scipy.linalg as sl
 import cloudpickle as cpickle
+from copy import deepcopy
 from grgrlib import fast0, ouc, klein, speed_kills
 from .engine import preprocess
 from .clsmethods import Model
@@ -23,8 +24,7 @@ def gen_sys_from_dict(
     global processed_mdicts
 
     # add l/k max to dict
-    mdict["l_max"] = l_max
-    mdict["k_max"] = k_max
+    mdict = dict(mdict, l_max=l_max, k_max=k_max)
 
     # check if dict has already been processed. If so, load it
     if not force_processing and "processed_mdicts" in globals():
@@ -35,7 +35,7 @@ def gen_sys_from_dict(
                     "[get_sys:]".ljust(15, " ")
                     + " Model dict was already processed. Loading from cache."
                 )
-            return processed_mdicts[mdict_dump]
+            return deepcopy(processed_mdicts[mdict_dump])
     else:
         processed_mdicts = {}
 
@@ -95,7 +95,7 @@ def gen_sys_from_dict(
         verbose,
     )
 
-    processed_mdicts[cpickle.dumps(mdict)] = res_sys
+    processed_mdicts[cpickle.dumps(mdict)] = deepcopy(res_sys)
 
     return res_sys
 
-- 
2.43.0


From 0d755f5fe87d4cde72e20580f553bce897be2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 19/61] fix: operations after prep_estim without a pool failed

---
 pydsge/estimation.py | 4 ++--
 pydsge/filtering.py  | 2 +-
 pydsge/mcmc.py       | 2 +-
 pydsge/mpile.py      | 2 +-
 pydsge/tools.py      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index 87225ad..9e9372e 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -250,7 +250,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 
     import pathos
 
-    if hasattr(self, "pool"):
+    if hasattr(self, "pool") and self.pool:
         ncores = ncores or self.pool.ncpus
         self.pool.close()
     else:
@@ -281,7 +281,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 @property
 def mapper(self):
 
-    if hasattr(self, "pool") and not self.debug:
+    if hasattr(self, "pool") and self.pool and not self.debug:
         return self.pool.imap
     else:
         return map
diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 519c53c..6f00b8f 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -357,7 +357,7 @@ def extract(
     fname = self.filter.name
     verbose = max(verbose, debug)
 
-    if hasattr(self, "pool"):
+    if hasattr(self, "pool") and self.pool:
         from .estimation import create_pool
 
         create_pool(self)
diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 734adc7..da3a0d0 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -79,7 +79,7 @@ def mcmc(
 
         self.pool = None
 
-    elif hasattr(self, "pool"):
+    elif hasattr(self, "pool") and self.pool:
 
         from .estimation import create_pool
 
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 03b9cc3..b0ff1b6 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -73,7 +73,7 @@ def prior_sampler(
 
     self.debug |= debug
 
-    if not debug and hasattr(self, "pool"):
+    if not debug and hasattr(self, "pool") and self.pool:
 
         from .estimation import create_pool
         create_pool(self)
diff --git a/pydsge/tools.py b/pydsge/tools.py
index e3e5196..faf8c04 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -211,7 +211,7 @@ def irfs(
     if self.set_par is not None and not hasattr(self, "par"):
         gen_sys(self, verbose=verbose, **args)
 
-    if hasattr(self, "pool"):
+    if hasattr(self, "pool") and self.pool:
         from .estimation import create_pool
 
         create_pool(self)
@@ -419,7 +419,7 @@ def simulate(
 
     self.debug |= debug
 
-    if hasattr(self, "pool"):
+    if hasattr(self, "pool") and self.pool:
         from .estimation import create_pool
 
         create_pool(self)
-- 
2.43.0


From 9e397cf382b000216e017332cbe46aa0da84b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 20/61] fix: load_rdict did not find what save_rdict stored

---
 pydsge/clsmethods.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 34a8df6..ae8c000 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -182,15 +182,13 @@ def load_rdict(self, path=None, suffix=""):
     if path is None:
         path = self.name + "_res"
 
-    path += suffix
-
-    if path[-4] != ".npz":
-        path += ".npz"
+    if path[-4:] == ".npz":
+        path = path[:-4]
 
     if not os.path.isabs(path):
         path = os.path.join(self.path, path)
 
-    return dict(np.load(path, allow_pickle=True))
+    return dict(np.load(path + suffix + ".npz", allow_pickle=True))
 
 
 def traceplot_m(self, chain=None, prior_names=None, **args):
-- 
2.43.0


From 53e2cb7619c63418f0b00062a33d81995d1fcc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 21/61] fix: observables that contain lags were silently wrong

---
 pydsge/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 8a3b545..c87ec0e 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -340,6 +340,11 @@ class DSGE(Model):
             eq = self["obs_equations"][str(obs)]
             ZZ1[eq_i, 0] = eq.subs(subs_dict)
 
+            if any(x.date < 0 for x in eq.atoms(Variable)):
+                raise NotImplementedError(
+                    "Lagged variables in observables are not implemented: %s" % obs
+                )
+
             curr_var = filter(lambda x: x.date >= 0, eq.atoms(Variable))
 
             for v in curr_var:
-- 
2.43.0


From 603f5c32e18e39dee22bcb0234429cfb0603bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 22/61] fix: search for the equilibrium left the tables if
 k_max is zero

---
 pydsge/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index eeac59b..145ced5 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -293,6 +293,10 @@ def find_lk(bmat, bterm, x_bar, q):
             loop_type = False
 
             while True:
+                if k == k_max - 1:
+                    # set error flag 'no solution + k_max reached'
+                    flag = 2
+                    break
                 k += 1
                 if not loop_type:
                     # first iterate until r < r_bar
@@ -300,10 +304,6 @@ def find_lk(bmat, bterm, x_bar, q):
                 elif check_cnst(bmat, bterm, 4, 0, k, q) - x_bar > 0:
                     # then iterate until r > r_bar again
                     break
-                if k == k_max - 1:
-                    # set error flag 'no solution + k_max reached'
-                    flag = 2
-                    break
     else:
         l = 0
 
-- 
2.43.0


From 52d792e9594f0be8ddc1ff103bd359d590b01232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 23/61] fix: simulate without a source failed

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index faf8c04..2e3d92a 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -468,7 +468,7 @@ def simulate(
     res = wrap(
         self.mapper(runner, zip(*sample)),
         unit=" sample(s)",
-        total=len(source["pars"]),
+        total=len(pars),
         dynamic_ncols=True,
     )
 
-- 
2.43.0


From bc3bfe7d4aa59a9c38f650e930d51805ad78fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 24/61] fix: simulate and irfs mislabelled variables if
 parameters change their ordering

---
 pydsge/tools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2e3d92a..0bc1140 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -218,6 +218,7 @@ def irfs(
 
     st = time.time()
     nstates = self.dimx
+    vv0 = self.vv
 
     l_max, k_max = self.lks
 
@@ -250,6 +251,11 @@ def irfs(
                 L[:] = np.nan
                 return X, K, L, 4, 4
 
+            if not np.array_equal(pelf.vv, vv0):
+                raise Exception(
+                    "The ordering of variables has changed given different parameters."
+                )
+
         st_vec = state if state is not None else np.zeros(nstates)
 
         supererrflag = False
@@ -413,6 +419,7 @@ def simulate(
     init = init if init is not None else source["init"]
 
     sample = pars, resi, init
+    vv0 = self.vv if hasattr(self, "vv") else None
 
     if verbose:
         st = time.time()
@@ -438,7 +445,7 @@ def simulate(
 
         if pelf.set_par is not None:
             _, vv = pelf.set_par(par, return_vv=True, **args)
-            if not np.all(vv == pelf.vv):
+            if vv0 is not None and not np.array_equal(vv, vv0):
                 raise Exception(
                     "The ordering of variables has changed given different parameters."
                 )
-- 
2.43.0


From 2639b8e0930d93ffbf72711b2aa5ca0c82fec7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 25/61] fix: irfs ignored the constraint before the first shock

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 0bc1140..7f3cea6 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -276,7 +276,7 @@ def irfs(
 
             # force_init_equil will force recalculation of l,k only if the shock vec is not empty
             # but loop must be skipped if no shock is provided at all (e.g. if samplinf from a state distribution)
-            if force_init_equil and not np.any(shk_vec) and np.any([s[2] for s in new_shocklist]):
+            if force_init_equil and t and not np.any(shk_vec) and np.any([s[2] for s in new_shocklist]):
                 set_k_eff = (l - 1, k) if l else (l, max(k - 1, 0))
 
                 _, (l_endo, k_endo), flag = pelf.t_func(
-- 
2.43.0


From b21e7fdb21af5ad228eaa3f0938b867afc580100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 26/61] fix: a cached model was returned for a file with a
 different functions file or path

---
 pydsge/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index c87ec0e..766c888 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -31,8 +31,7 @@ def crawl_cached_models(mtxt, ftxt):
 
             use_cached = cached_models[i].fdict["yaml_raw"] == mtxt
 
-            if ftxt is not None:
-                use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
+            use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
 
             if use_cached:
                 processed_raw_model = cached_models[i]
@@ -522,6 +521,7 @@ class DSGE(Model):
             if verbose:
                 print("[DSGE:]".ljust(15, " ") + " Model is already parsed, reusing parsed model")
             pmodel = deepcopy(processed_raw_model)
+            pmodel.path = os.path.dirname(mfile)
 
         else:
 
@@ -582,7 +582,7 @@ class DSGE(Model):
         fdict = dict(np.load(npzfile, allow_pickle=True))
 
         mtxt = str(fdict["yaml_raw"])
-        ftxt = str(fdict.get("ffile_raw"))
+        ftxt = str(fdict["ffile_raw"]) if "ffile_raw" in fdict else None
 
         try:
             if force_parse:
-- 
2.43.0


From a393406451c673764589d19571670b87d81705b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 27/61] fix: models saved without data could not be loaded

---
 pydsge/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 766c888..e8cf96f 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -623,7 +623,8 @@ class DSGE(Model):
         pmodel.fdict = fdict
         pmodel.name = str(fdict["name"])
         pmodel.path = os.path.dirname(npzfile)
-        pmodel.data = cpickle.loads(fdict["data"])
+        if "data" in fdict:
+            pmodel.data = cpickle.loads(fdict["data"])
         pmodel.fdict["model_dump"] = cpickle.dumps(pmodel, protocol=4)
 
         # pmodel.debug = platform == "darwin" or platform == "win32"
-- 
2.43.0


From 47d439d3e23eb862f3c1de1eeb95c3b578aea784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 28/61] fix: mcmc failed after sampling if tune was not given

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index da3a0d0..bfc2f3b 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -162,8 +162,8 @@ def mcmc(
 
     if temp == 1:
 
-        log_probs = sampler.get_log_prob()[-tune:]
-        chain = sampler.get_chain()[-tune:]
+        log_probs = sampler.get_log_prob()[-self.tune:]
+        chain = sampler.get_chain()[-self.tune:]
         chain = chain.reshape(-1, chain.shape[-1])
 
         arg_max = log_probs.argmax()
-- 
2.43.0


From 5967ba48fe14fb1f133530c7cb489fdff19c0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 29/61] fix: the mode found by mcmc was not transformed when
 using the prior transformation

---
 pydsge/mcmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index bfc2f3b..78f6e51 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -170,6 +170,9 @@ def mcmc(
         mode_f = log_probs.flat[arg_max]
         mode_x = chain[arg_max].flatten()
 
+        if self.bptrans:
+            mode_x = self.bptrans(mode_x)
+
         self.fdict["mode_x"] = mode_x
         self.fdict["mode_f"] = mode_f
 
-- 
2.43.0


From 0f4808a681944fc87a27edb0219032d59014f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 30/61] fix: mcmc could not create initial walkers

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 78f6e51..943960d 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -110,12 +110,12 @@ def mcmc(
                 "prior_mean",
                 asdict=False,
                 full=False,
-                nsample=nwalks,
+                nsamples=nwalks,
                 verbose=verbose > 1,
             )
         else:
             p0 = get_par(
-                self, "best", asdict=False, full=False, nsample=nwalks, verbose=verbose > 1
+                self, "best", asdict=False, full=False, nsamples=nwalks, verbose=verbose > 1
             )
     elif not resume:
         nwalks = p0.shape[0]
-- 
2.43.0


From cbef6ecdc27c0b32dd60b0843a1d778bbecafc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 31/61] fix: get_sample ignored the given chain and did not
 take the recent draws

---
 pydsge/clsmethods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index ae8c000..1f5ae9a 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -331,14 +331,14 @@ def load_data(self, df, start=None, end=None):
 def get_sample(self, size, chain=None):
     """Get a (preferably recent) sample from the chain"""
 
-    chain = None or self.get_chain()
+    chain = self.get_chain() if chain is None else chain
     clen, nwalks, npar = chain.shape
     recent = int(np.ceil(60 / nwalks))
 
     if recent > clen:
         raise Exception("Requested sample size is larger than chain")
 
-    sample = chain[:, -recent, :].reshape(-1, npar)
+    sample = chain[-recent:].reshape(-1, npar)
     res = np.random.choice(np.arange(recent * nwalks), size, False)
 
     return sample[res]
-- 
2.43.0


From 331b188816593411e1fb34a6914bb4af404c1497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:25 +0000
Subject: [PATCH 32/61] fix: load_data selected the wrong rows for a numeric
 index

---
 pydsge/clsmethods.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 1f5ae9a..ae255b5 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -310,11 +310,13 @@ def load_data(self, df, start=None, end=None):
 
         d = df[self.observables]
 
-    if start is not None:
-        start = str(start)
+    if not pd.api.types.is_numeric_dtype(d.index):
 
-    if end is not None:
-        end = str(end)
+        if start is not None:
+            start = str(start)
+
+        if end is not None:
+            end = str(end)
 
     d = d.loc[start:end]
 
-- 
2.43.0


From a795af36910fb2f4d7a42b2d43d46b9029f91269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:53 +0000
Subject: [PATCH 33/61] fix: irfs ignored a given vector of parameters that are
 all zero

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 7f3cea6..68f1815 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -242,7 +242,7 @@ def irfs(
         K = np.empty(T)
         L = np.empty(T)
 
-        if np.any(par):
+        if par is not None:
             try:
                 pelf.set_par(par, **args)
             except ValueError:
-- 
2.43.0


From 8250e36bdbe200c803ce1785900c143c4cb89c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:01 +0000
Subject: [PATCH 34/61] fix: models in which the constrained variable affects
 no other variable could not be compiled

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 3371c3a..53fae99 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -303,7 +303,7 @@ def gen_sys(
 
     inq = ~fast0(CC0, 0) | ~fast0(fc0)
     inq[-dimeps:] = True  # shocks are always part of the state, even if their loadings are zero
-    inp = (~fast0(AA0, 0) | ~fast0(BB0, 0)) & ~inq
+    inp = (~fast0(AA0, 0) | ~fast0(BB0, 0) | ~fast0(fb0)) & ~inq
 
     # check dimensionality
     dimq = sum(inq)
-- 
2.43.0


From f43236e4427cdb68cb77afd03b063b7a565bdb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:01 +0000
Subject: [PATCH 35/61] fix: parametrizations that violate the rank condition
 were accepted

---
 pydsge/gensys.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 53fae99..193e2d4 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -373,6 +373,11 @@ def gen_sys(
         else:
             omg, lam = klein(PU, MU, nstates=dimq,
                              verbose=verbose, force=False)
+
+            # counting eigenvalues is not sufficient for existence
+            sol = np.vstack((np.eye(dimq), omg))
+            if not fast0(PU @ sol @ lam - MU @ sol, 2, 1e-4):
+                raise ValueError("Rank condition not satisfied: no stable solution.")
     else:
         omg, lam = solution
 
-- 
2.43.0


From 067887b924c2cc2ee5c7675d30389b76f15e44ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 36/61] fix: info failed for models without a chain

---
 pydsge/clsmethods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index ae255b5..5a94abc 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -272,7 +272,7 @@ def info_m(self, verbose=True, **args):
         res += "Parameters: %s\n" % cshp[2]
         res += "Chains: %s\n" % cshp[1]
         res += "Last %s of %s samples\n" % (tune, cshp[0])
-    except (AttributeError, KeyError):
+    except (AttributeError, KeyError, NameError):
         pass
 
     if verbose:
-- 
2.43.0


From e17c1a172e501913dc82e2376bae51add63bd4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:27 +0000
Subject: [PATCH 37/61] fix: the stored description was lost when loading a
 model

---
 pydsge/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index e8cf96f..ce2c228 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -622,6 +622,8 @@ class DSGE(Model):
 
         pmodel.fdict = fdict
         pmodel.name = str(fdict["name"])
+        if "description" in fdict:
+            pmodel.description = str(fdict["description"])
         pmodel.path = os.path.dirname(npzfile)
         if "data" in fdict:
             pmodel.data = cpickle.loads(fdict["data"])
-- 
2.43.0


From 46670a232d995e99cfdaa47fe2f729f364ba80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:49 +0000
Subject: [PATCH 38/61] fix: the linear filter was not repeatable if there are
 as many states as shocks

---
 pydsge/filtering.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 6f00b8f..f4f22e5 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -181,18 +181,19 @@ def run_filter(
         self.filter.F = F
         self.filter.H = np.hstack((self.hx[0], self.hx[1])), self.hx[2]
 
-        if self.filter.Q.shape[0] == self.neps:
+        Q = self.filter.Q
+        if Q.shape[0] == self.neps:
             E = np.vstack(
                 (pmat[1, 0][:, -self.neps:], qmat[1, 0]
                  [: -self.neps, -self.neps:])
             )
-            self.filter.Q = E @ self.filter.Q @ E.T
+            Q = E @ Q @ E.T
 
         if self.filter.init_cov is None:
             p4 = sl.solve_discrete_lyapunov(
-                F[dimp:, dimp:], self.filter.Q[dimp:, dimp:]
+                F[dimp:, dimp:], Q[dimp:, dimp:]
             )
-            self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:] + self.filter.Q
+            self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:] + Q
         else:
             self.filter.P = self.filter.init_cov
 
@@ -238,11 +239,12 @@ def run_filter(
 
     if self.filter.name == "KalmanFilter":
 
-        means, covs, ll = self.filter.batch_filter(self.Z)
+        Qs = [Q] * len(self.Z)
+        means, covs, ll = self.filter.batch_filter(self.Z, Qs=Qs)
 
         if smoother:
             means, covs, _, _ = self.filter.rts_smoother(
-                means, covs, inv=lambda x: np.linalg.pinv(x, rcond=rcond)
+                means, covs, Qs=Qs, inv=lambda x: np.linalg.pinv(x, rcond=rcond)
             )
 
         if get_ll:
-- 
2.43.0


From 673d827aace2841077298a02753722fa0032d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:45 +0000
Subject: [PATCH 39/61] fix: the reduced-form filter failed if parameters alter
 the number of states

---
 pydsge/filtering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index f4f22e5..c3eee5b 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -215,6 +215,12 @@ def run_filter(
         self.filter.t_func = lambda *x: self.t_func(*x, get_obs=True)
         self.filter.o_func = None
 
+        # the number of states may depend on parameters
+        dimx = self.dimq - self.dimeps
+        if self.filter.dim_x != dimx:
+            self.filter.dim_x = dimx
+            self.filter.x = np.zeros(dimx)
+
         if self.filter.init_cov is None:
             qmat = self.precalc_mat[1]
             F = qmat[1, 0][: -self.neps, : -self.neps]
-- 
2.43.0


From 760518009d3a87dd01bafd9a8fe71d5ea4e8a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:30 +0000
Subject: [PATCH 40/61] fix: extract failed if parameters alter the number of
 states

---
 pydsge/filtering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index c3eee5b..bd33c61 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -411,7 +411,6 @@ def extract(
     filter_get_eps = serializer(self.get_eps_lin)
 
     dimeps = self.dimeps
-    dimp = self.dimp
 
     # win explodes with 2**32
     seeds = np.random.randint(2 ** 31, size=nsamples)
@@ -438,6 +437,9 @@ def extract(
             return par, res[0], resid, 0
 
         np.random.shuffle(res)
+        # the number of states may depend on parameters
+        (q, _), _ = t_func(res[0, 0], get_obs=True)
+        dimp = res.shape[-1] - len(q)
         sample = np.dstack((obs_func(res), res[..., dimp:]))
         inits = res[:, 0, :]
 
-- 
2.43.0


From 79954fa5ca1d6d70aed6e1798a13b9b3032e90fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:53 +0000
Subject: [PATCH 41/61] fix: extract left the model at the last sample if not
 run in parallel

---
 pydsge/filtering.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index bd33c61..99f7b7d 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -399,8 +399,10 @@ def extract(
 
     self.debug |= debug
 
+    old_par = None
     if sample[0] is not None:
         set_par = serializer(self.set_par)
+        old_par, old_lks = self.par, self.lks
 
     t_func = serializer(self.t_func)
     edim = len(self.shocks)
@@ -489,7 +491,12 @@ def extract(
         total=len(sample),
         dynamic_ncols=True,
     )
-    pars, init, resid, flags = map2arr(res)
+    try:
+        pars, init, resid, flags = map2arr(res)
+    finally:
+        # without a pool, the samples were set in this very instance
+        if old_par is not None:
+            self.set_par(old_par, l_max=old_lks[0] - 1, k_max=old_lks[1])
 
     if hasattr(self, "pool") and self.pool:
         self.pool.close()
-- 
2.43.0


From e528ee5ebfff0f40f03faf16f3c8afcaec27e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:45 +0000
Subject: [PATCH 42/61] fix: the modified harmonic mean failed or was wrong if
 a pool exists

---
 pydsge/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 7f0ae45..3d5d61a 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -242,9 +242,9 @@ def mdd(
         mdd = ew.mdd_laplace(chain, lprobs, calc_hess=True, **args)
     elif method == "mhm":
         mstr = "modified harmonic mean"
-        pool = self.pool if hasattr(self, "pool") else None
+        # the batches of a pool would all contain the first draws of the chain
         mdd = ew.mdd_harmonic_mean(
-            chain, lprobs, pool=pool, verbose=verbose > 1, **args)
+            chain, lprobs, pool=None, verbose=verbose > 1, **args)
     else:
         raise NotImplementedError(
             "[mdd:]".ljust(15, " ")
-- 
2.43.0


From e03e8a7b45b46c8d05182e241038ede92c045439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:34 +0000
Subject: [PATCH 43/61] fix: nhd mislabelled variables if parameters change
 their ordering

---
 pydsge/stats.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 3d5d61a..a5a048f 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -158,12 +158,18 @@ def nhd(self, eps_dict, linear=False, **args):
     hd = np.empty((nsamples, self.dimeps, self.data.shape[0], self.dimx))
     means = np.empty((nsamples, self.data.shape[0], self.dimx))
     rcons = np.empty(self.dimeps)
+    vv0 = self.vv
 
     # not paralellized
     for i in tqdm.tqdm(range(nsamples), unit=" sample(s)", dynamic_ncols=True):
 
         self.set_par(pars[i], **args)
 
+        if not np.array_equal(self.vv, vv0):
+            raise Exception(
+                "The ordering of variables has changed given different parameters."
+            )
+
         pmat, qmat, pterm, qterm, bmat, bterm = self.precalc_mat
         qmat = qmat[:, :, : -self.dimeps]
         qterm = qterm[..., : -self.dimeps]
-- 
2.43.0


From a389f8813f25ae1299458ffaa79e402101d6bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:48 +0000
Subject: [PATCH 44/61] fix: nhd left the model at the last sample

---
 pydsge/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index a5a048f..c6d48b0 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -159,6 +159,7 @@ def nhd(self, eps_dict, linear=False, **args):
     means = np.empty((nsamples, self.data.shape[0], self.dimx))
     rcons = np.empty(self.dimeps)
     vv0 = self.vv
+    old_par, old_lks = self.par, self.lks
 
     # not paralellized
     for i in tqdm.tqdm(range(nsamples), unit=" sample(s)", dynamic_ncols=True):
@@ -206,6 +207,9 @@ def nhd(self, eps_dict, linear=False, **args):
                         np.hstack((pterm[l, k], qterm[l, k]))
                     )
 
+    # the samples were set in this very instance
+    self.set_par(old_par, l_max=old_lks[0] - 1, k_max=old_lks[1])
+
     # as a list of DataFrames
     hd = [
         pd.DataFrame(h, index=self.data.index, columns=self.vv) for h in hd.mean(axis=0)
-- 
2.43.0


From f665a5d023d59f7904d43f1cd72384c76e77bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:51 +0000
Subject: [PATCH 45/61] fix: nhd failed for models without endogenous states

---
 pydsge/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index c6d48b0..864775d 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -191,7 +191,7 @@ def nhd(self, eps_dict, linear=False, **args):
                 eps = np.zeros(self.dimeps)
                 eps[s] = resid[s]
 
-                v = np.hstack((hd[i, s, t, -self.dimq + self.dimeps:], eps))
+                v = np.hstack((hd[i, s, t, self.dimp:], eps))
                 p = pmat[l, k] @ v
                 q = qmat[l, k] @ v
                 hd[i, s, t + 1, :] = np.hstack((p, q))
-- 
2.43.0


From 19109312844baeed75e43915b21e3b0f3ee1696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:37 +0000
Subject: [PATCH 46/61] fix: post_mean failed if a chain was given

---
 pydsge/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 864775d..b28f4a3 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -274,8 +274,9 @@ def mdd(
 def post_mean(self, chain=None, tune=None):
     """Calculate the mean of the posterior distribution"""
 
-    tune = tune or self.get_tune
-    chain = chain or self.get_chain()[-tune:]
+    if chain is None:
+        tune = tune or self.get_tune
+        chain = self.get_chain()[-tune:]
 
     return chain.reshape(-1, chain.shape[-1]).mean(axis=0)
 
-- 
2.43.0


From aff419ecff0bb36d1fe53a91069962e73633e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:38 +0000
Subject: [PATCH 47/61] fix: get_sample failed for samples of more than 60
 draws and for short chains

---
 pydsge/clsmethods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 5a94abc..c509ee4 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -335,9 +335,9 @@ def get_sample(self, size, chain=None):
 
     chain = self.get_chain() if chain is None else chain
     clen, nwalks, npar = chain.shape
-    recent = int(np.ceil(60 / nwalks))
+    recent = min(int(np.ceil(max(60, size) / nwalks)), clen)
 
-    if recent > clen:
+    if size > clen * nwalks:
         raise Exception("Requested sample size is larger than chain")
 
     sample = chain[-recent:].reshape(-1, npar)
-- 
2.43.0


From 6f0d6018de6b4639c469e595c3f9aa9ceb35cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:32 +0000
Subject: [PATCH 48/61] fix: k_map ignored a given l of zero

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 68f1815..661d47b 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -534,7 +534,7 @@ def k_map(self, state, l=None, k=None, verbose=True):
         pmat, qmat, pterm, qterm, bmat, bterm = self.precalc_mat
         l_endo, k, flag = find_lk(bmat, bterm, x_bar, state)
 
-        l = l or l_endo
+        l = l_endo if l is None else l
 
         if verbose:
             if flag == 0:
-- 
2.43.0


From 1c01aae7e385b4cb2c6569d369279df80c69f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:51 +0000
Subject: [PATCH 49/61] fix: gfevd could not process the results of extract

---
 pydsge/stats.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index b28f4a3..9bddc0c 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -69,7 +69,11 @@ def gfevd(
     """
     np.random.seed(seed)
 
-    states = eps_dict["means"]
+    if "means" in eps_dict:
+        states = eps_dict["means"]
+    else:
+        # `extract` only returns initial states and shocks
+        states = self.simulate(eps_dict, linear=linear, **args)[0]
     if np.ndim(states) == 2:
         states = np.expand_dims(states, 0)
     states = states[:, :-1, :]
-- 
2.43.0


From f1b3a13f352ed1f4be8080a33635dcf8bae17398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:51 +0000
Subject: [PATCH 50/61] fix: gfevd left the model at the last sample

---
 pydsge/stats.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 9bddc0c..84e51c7 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -95,6 +95,9 @@ def gfevd(
     sample = zip(resids[draw], states[draw], pars[draw])
     gis = np.zeros((len(self.shocks), len(self.vv)))
 
+    vv0 = self.vv
+    old_par, old_lks = self.par, self.lks
+
     wrap = tqdm.tqdm if verbose else (lambda x, **kwarg: x)
 
     for s in wrap(sample, total=nsamples, unit="draws", dynamic_ncols=True):
@@ -102,6 +105,11 @@ def gfevd(
         if s[2] is not None:
             self.set_par(s[2], **args)
 
+            if not np.array_equal(self.vv, vv0):
+                raise Exception(
+                    "The ordering of variables has changed given different parameters."
+                )
+
         for e in self.shocks:
 
             ei = self.shocks.index(e)
@@ -115,6 +123,9 @@ def gfevd(
             ].to_numpy()[-1]
             gis[ei] += (irfs - void) ** 2
 
+    # the samples were set in this very instance
+    self.set_par(old_par, l_max=old_lks[0] - 1, k_max=old_lks[1])
+
     gis /= np.sum(gis, axis=0)
 
     vd = pd.DataFrame(gis, index=self.shocks, columns=self.vv)
-- 
2.43.0


From 722670209a9b94bad37c63e15d8887ad3a600932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 51/61] fix: box_check compared the complete parameter vector
 with the bounds of the estimated parameters

---
 pydsge/mpile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index b0ff1b6..6e83b8f 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -379,6 +379,10 @@ def box_check(self, par=None):
     if par is None:
         par = self.par
 
+    par = np.array(par)
+    if len(par) == len(self.par_fix):
+        par = par[self.prior_arg]
+
     for i, name in enumerate(self.fdict["prior_names"]):
 
         lb, ub = self.fdict["prior_bounds"]
-- 
2.43.0


From dc811d5189c99b2648bbb7a70c05c29cb50455dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:02 +0000
Subject: [PATCH 52/61] fix: irfs compared imposed durations with the maxima of
 other parameters

---
 pydsge/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 661d47b..bdbb3aa 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -220,8 +220,6 @@ def irfs(
     nstates = self.dimx
     vv0 = self.vv
 
-    l_max, k_max = self.lks
-
     # accept all sorts of inputs
     new_shocklist = []
 
@@ -256,6 +254,9 @@ def irfs(
                     "The ordering of variables has changed given different parameters."
                 )
 
+        # these may depend on `args`
+        l_max, k_max = pelf.lks
+
         st_vec = state if state is not None else np.zeros(nstates)
 
         supererrflag = False
-- 
2.43.0


From a16faaa98db7e65a3c0414c86859bb88d0b07ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:02 +0000
Subject: [PATCH 53/61] fix: durations beyond the maxima were read from memory
 behind the tables

---
 pydsge/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index bdbb3aa..ede5241 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -69,6 +69,10 @@ def t_func(
         set_l = int(not bool(set_k))
         set_k = int(set_k)
 
+    # compiled code does not check this
+    if set_l >= pmat.shape[0] or set_k >= pmat.shape[1]:
+        raise IndexError("set_k exceeds the maximal durations.")
+
     if return_flag is None:
         return_flag = True
 
-- 
2.43.0


From 6203f424d9aac19550c2fb6ff58792d8115fc0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:54 +0000
Subject: [PATCH 54/61] fix: extract repeated failing attempts with the same
 seed

---
 pydsge/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 99f7b7d..74cbe06 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -458,7 +458,7 @@ def extract(
                     X=sample,
                     init_states=inits,
                     verbose=max(len(sample) == 1, verbose - 1),
-                    seed=seed_loc,
+                    seed=seed_loc + natt,
                     nsamples=1,
                     **npasargs
                 )
-- 
2.43.0


From 6e941c6c38951044205e760b5f34954e5a3a0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:54 +0000
Subject: [PATCH 55/61] fix: gen_sys_from_dict failed when asked for detailed
 reports

---
 pydsge/gensys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 193e2d4..2344b3e 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -254,8 +254,8 @@ def gen_sys(
 
     # create auxiliary vars for those both in A & C
     if verbose > 1:
-        fwd_vars = [self.variables[i].name for i, e in enumerate(~fast0(AA0, 0)) if e]
-        bwd_vars = [self.variables[i].name for i, e in enumerate(~fast0(CC0, 0)) if e]
+        fwd_vars = [vv0[i] for i, e in enumerate(~fast0(AA0, 0)) if e]
+        bwd_vars = [vv0[i] for i, e in enumerate(~fast0(CC0, 0)) if e]
         print("[gen_sys:]".ljust(15, " ") + f" Forward-looking variables: {fwd_vars}", flush=True)
         print("[gen_sys:]".ljust(15, " ") + f" Backward-looking variables: {bwd_vars}", flush=True)
 
@@ -263,7 +263,7 @@ def gen_sys(
     inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
 
     if verbose > 1:
-        hyb_vars = [self.variables[i].name for i, e in enumerate(inall) if e]
+        hyb_vars = [vv0[i] for i, e in enumerate(inall) if e]
         print("[gen_sys:]".ljust(15, " ") + f" Hybrid variables: {hyb_vars}", flush=True)
 
     if np.any(inall):
@@ -310,7 +310,7 @@ def gen_sys(
     dimp = sum(inp)
 
     if verbose > 1:
-        missing_vars = [self.variables[i].name for i, e in enumerate(~(inq | inp)) if e]
+        missing_vars = [vv0[i] for i, e in enumerate(~(inq | inp)) if e]
         print("[gen_sys:]".ljust(15, " ") + f" Variables that went AWOL: {missing_vars}", flush=True)
 
     # create hx. Do this early so that the procedure can be stopped if get_hx_only
-- 
2.43.0


From 9b5c38a070e771d6cd822599f22d10d880221eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:54 +0000
Subject: [PATCH 56/61] fix: failing decompositions left the model at one of
 the samples

---
 pydsge/stats.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 84e51c7..415aadc 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -9,6 +9,7 @@ import emcwrap as ew
 import pandas as pd
 import scipy.stats as ss
 import scipy.optimize as so
+from functools import wraps
 from scipy.special import gammaln
 from grgrlib import timeprint
 from grgrlib.stats import mode
@@ -55,6 +56,22 @@ def pmdm_report(self, x_max, res_max, n=np.inf, printfunc=print):
     return
 
 
+def keep_par(func):
+    """Return to the current parameters when done, also if something fails"""
+
+    @wraps(func)
+    def wrapper(self, *args, **kwargs):
+
+        old_par, old_lks = self.par, self.lks
+        try:
+            return func(self, *args, **kwargs)
+        finally:
+            self.set_par(old_par, l_max=old_lks[0] - 1, k_max=old_lks[1])
+
+    return wrapper
+
+
+@keep_par
 def gfevd(
     self, eps_dict, horizon=1, nsamples=None, linear=False, seed=0, verbose=True, **args
 ):
@@ -96,7 +113,6 @@ def gfevd(
     gis = np.zeros((len(self.shocks), len(self.vv)))
 
     vv0 = self.vv
-    old_par, old_lks = self.par, self.lks
 
     wrap = tqdm.tqdm if verbose else (lambda x, **kwarg: x)
 
@@ -123,9 +139,6 @@ def gfevd(
             ].to_numpy()[-1]
             gis[ei] += (irfs - void) ** 2
 
-    # the samples were set in this very instance
-    self.set_par(old_par, l_max=old_lks[0] - 1, k_max=old_lks[1])
-
     gis /= np.sum(gis, axis=0)
 
     vd = pd.DataFrame(gis, index=self.shocks, columns=self.vv)
@@ -162,6 +175,7 @@ def mbcs_index(self, vd, verbose=True):
     return mbs
 
 
+@keep_par
 def nhd(self, eps_dict, linear=False, **args):
     """Calculates the normalized historic decomposition, based on normalized counterfactuals"""
 
@@ -174,7 +188,6 @@ def nhd(self, eps_dict, linear=False, **args):
     means = np.empty((nsamples, self.data.shape[0], self.dimx))
     rcons = np.empty(self.dimeps)
     vv0 = self.vv
-    old_par, old_lks = self.par, self.lks
 
     # not paralellized
     for i in tqdm.tqdm(range(nsamples), unit=" sample(s)", dynamic_ncols=True):
@@ -222,9 +235,6 @@ def nhd(self, eps_dict, linear=False, **args):
                         np.hstack((pterm[l, k], qterm[l, k]))
                     )
 
-    # the samples were set in this very instance
-    self.set_par(old_par, l_max=old_lks[0] - 1, k_max=old_lks[1])
-
     # as a list of DataFrames
     hd = [
         pd.DataFrame(h, index=self.data.index, columns=self.vv) for h in hd.mean(axis=0)
-- 
2.43.0


From ce1215c08238c5070481e59f2660fbc96c5ef030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:54 +0000
Subject: [PATCH 57/61] fix: obs left the model half-way between parameters if
 a sample failed

---
 pydsge/tools.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index ede5241..3669fa7 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -122,16 +122,17 @@ def o_func(self, state, covs=None, pars=None):
 
         old_par = self.get_par()
         obs = []
-        for sti, par in zip(state, pars):
-            self.set_par(par, get_hx_only=True)
-            ob = (
-                sti[:, : self.dimp] @ self.hx[0].T
-                + sti[:, self.dimp:] @ self.hx[1].T
-                + self.hx[2]
-            )
-            obs.append(ob)
-
-        self.set_par(old_par, get_hx_only=True)
+        try:
+            for sti, par in zip(state, pars):
+                self.set_par(par, get_hx_only=True)
+                ob = (
+                    sti[:, : self.dimp] @ self.hx[0].T
+                    + sti[:, self.dimp:] @ self.hx[1].T
+                    + self.hx[2]
+                )
+                obs.append(ob)
+        finally:
+            self.set_par(old_par, get_hx_only=True)
 
         return np.array(obs)
 
-- 
2.43.0


From a756ecb6fefd432fcb2a302b9633abb4c0c60ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:11 +0000
Subject: [PATCH 58/61] fix: irfs altered the given list of shocks

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 3669fa7..cfb49c0 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -232,7 +232,7 @@ def irfs(
         if isinstance(vec, str):
             vec = (vec, 1, 0)
         elif len(vec) == 2:
-            vec += (0,)
+            vec = (*vec, 0)
         new_shocklist.append(vec)
 
     pickled_self = dill.dumps(self, recurse=True)
-- 
2.43.0


From 6a2a3894892bd8d8dddf04ec1d9d813831014dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:11 +0000
Subject: [PATCH 59/61] fix: the filter kept the given initial covariances
 without copying them

---
 pydsge/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 74cbe06..a83d8b4 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -164,7 +164,7 @@ def run_filter(
     dimp = self.dimp
 
     if init_cov is not None:
-        self.filter.init_cov = init_cov
+        self.filter.init_cov = np.array(init_cov)
 
     # assign current transition & observation functions (of parameters)
     if self.filter.name == "KalmanFilter":
-- 
2.43.0


From db69870ad3c1009ce99863aef306fd9bb7f88665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:11 +0000
Subject: [PATCH 60/61] fix: altering returned parameters altered the mode and
 the initial values of the model

---
 pydsge/mpile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 6e83b8f..69da0b4 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -207,7 +207,7 @@ def get_par(
             elif dummy == "posterior_mean" or dummy == "post_mean":
                 par_cand = post_mean(self)
             elif dummy in ("mode", "mcmc_mode", "mode_mcmc", "posterior_mode", "post_mode"):
-                par_cand = self.fdict["mode_x"]
+                par_cand = np.array(self.fdict["mode_x"])
             elif dummy == "calib":
                 par_cand = self.par_fix[self.prior_arg].copy()
             elif dummy == "prior_mean":
@@ -236,7 +236,7 @@ def get_par(
                             par_cand.append(self.prior[pp][(-2)])
 
             elif dummy == "init":
-                par_cand = self.fdict["init_value"]
+                par_cand = list(self.fdict["init_value"])
                 for i in range(self.ndim):
                     if par_cand[i] is None:
                         par_cand[i] = self.par_fix[self.prior_arg][i]
-- 
2.43.0


From 19dfac64a8c079071b8f7821c78944b93b4be163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:11 +0000
Subject: [PATCH 61/61] fix: set_par with given npar failed for models without
 priors

---
 pydsge/mpile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 69da0b4..7179fdc 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -328,7 +328,7 @@ def set_par(
     elif dummy in pars_str:
         if npar is not None:
             npar = npar.copy()
-            if len(npar) == len(self.prior_arg):
+            if len(npar) != len(self.par_fix):
                 npar[self.prior_names.index(dummy)] = setpar
             else:
                 npar[pars_str.index(dummy)] = setpar
-- 
2.43.0

