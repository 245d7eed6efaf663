From da510504e90cd217cdc5ba13daef29e4256ada6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 01/25] fix: keep points on the edge of a bounded parameter
 finite in the forward transform

The clipped fraction was computed and thrown away, so x == low or x == high mapped to -inf/+inf.
---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index e1f9b3b..049c053 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -390,7 +390,7 @@ class Reparameterize:
         Transformed input data
         """
         p = (x[:, self.mask_both] - self.low[self.mask_both]) / (self.high[self.mask_both] - self.low[self.mask_both])
-        np.clip(p, 1e-13, 1.0 - 1e-13)
+        p = np.clip(p, 1e-13, 1.0 - 1e-13)
 
         if self.transform == "logit":
             u = np.log(p / (1.0 - p))
-- 
2.43.0


From 879351cd5b0eb6491c94fab788b08a08f6415ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 02/25] fix: bounds=None means unbounded, not the empty
 interval [inf, inf]

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 049c053..bde2e28 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -54,7 +54,7 @@ class Reparameterize:
         self.ndim = n_dim
 
         if bounds is None:
-            bounds = np.full((self.ndim, 2), np.inf)
+            bounds = np.tile([-np.inf, np.inf], (self.ndim, 1))
         elif len(bounds) == 2 and not np.shape(bounds) == (2, 2):
             bounds = np.tile(np.array(bounds, dtype=np.float32).reshape(2, 1), self.ndim).T
         assert_array_float(bounds)
-- 
2.43.0


From ec01689471f6d58f134d38660b2c155bbb81694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 03/25] fix: results follow the whole history after a run is
 continued

compute_results cached its dictionary for ever, so results read before a second run() stayed stale.
---
 pocomc/particles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pocomc/particles.py b/pocomc/particles.py
index b96656c..c657f32 100644
--- a/pocomc/particles.py
+++ b/pocomc/particles.py
@@ -141,6 +141,9 @@ class Particles:
                 Array of shape (n_particles,) containing the inverse
                 temperature of each particle.
         """
+        # Results computed before this update are now out of date
+        self.results_dict = None
+
         for key in data.keys():
             if key in self.past.keys():
                 value = data.get(key)
-- 
2.43.0


From f53545d9dcd39e91166724dd2aeafb9e56a059fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 04/25] fix: resuming during warm-up does not record the first
 prior batches twice

---
 pocomc/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 7c7f2ff..fd3b575 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -440,7 +440,8 @@ class Sampler:
             self.scaler.fit(self.prior_samples)
 
         if self.warmup:
-            for i in range(self.n_prior//self.n_active):
+            # A resumed run continues with the first batch that is not recorded yet
+            for i in range(self.t, self.n_prior//self.n_active):
                 if save_every is not None:
                     if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                         self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
-- 
2.43.0


From c960319666a2ad99bd83323dd20904bcba846367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 05/25] fix: record the iteration index of every iteration, not
 only of the warm-up ones

---
 pocomc/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index fd3b575..3ff2b1e 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -730,6 +730,7 @@ class Sampler:
             Dictionary containing the updated particles.
         """
         # Update iteration index
+        current_particles["iter"] = self.t
         self.t += 1
         self.pbar.update_iter()
 
-- 
2.43.0


From f0afe80ef572e769295b29de23efd842d5c676b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 06/25] fix: likelihood calls of the evidence estimate stay
 counted when a run is continued

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 3ff2b1e..c3db4d0 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -627,7 +627,7 @@ class Sampler:
         current_particles["efficiency"] = results.get('efficiency') / (2.38 / self.n_dim ** 0.5)
         current_particles["steps"] = results.get('steps')
         current_particles["accept"] = results.get('accept')
-        current_particles["calls"] = current_particles.get("calls") + results.get('calls')
+        current_particles["calls"] = self.calls + results.get('calls')
         self.calls = current_particles.get("calls")
         self.proposal_scale = results.get('proposal_scale')
 
-- 
2.43.0


From 8c7552287f9257f4d77503665d0345847d8ebdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 07/25] fix: scale the training noise by the mean
 nearest-neighbour distance of all samples

---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index ec4e00b..2b8c179 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -242,7 +242,7 @@ class Flow:
             for i in range(n_samples):
                 min_dist = torch.linalg.norm(x[i] - x, axis=1)
                 min_dists[i] = torch.min(min_dist[min_dist > 0.0])
-            mean_min_dist = torch.mean(min_dist)
+            mean_min_dist = torch.mean(min_dists)
 
         if validation_split > 0.0:
             x_train = x[:int(validation_split * n_samples)]
-- 
2.43.0


From cc0982b8c359f5cbc4f497f79272b4671695a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 08/25] fix: blobs of object dtype (e.g. strings) can be
 evolved

An element of an object array has no dtype; take dtype and item shape from the array.
---
 pocomc/mcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 2455f26..4de92e9 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -111,7 +111,7 @@ def preconditioned_pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -279,7 +279,7 @@ def preconditioned_rwm(state_dict: dict,
         # Compute log-likelihood, log-prior, and log-posterior
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -440,7 +440,7 @@ def pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -594,7 +594,7 @@ def rwm(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
-- 
2.43.0


From cb532e0ceb70c730aa23fdcd50ce3020e3746789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 09/25] fix: proposal scale of preconditioned_rwm stays
 non-negative, as in rwm

---
 pocomc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 4de92e9..a151667 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -311,7 +311,7 @@ def preconditioned_rwm(state_dict: dict,
             blobs[mask] = blobs_prime[mask]
 
         # Adapt scale parameter using diminishing adaptation
-        sigma = sigma + 1 / (i + 1) * (np.mean(alpha) - 0.234)
+        sigma = np.abs(sigma + 1 / (i + 1) * (np.mean(alpha) - 0.234))
 
         # Update progress bar if available
         if progress_bar is not None:
-- 
2.43.0


From e01ac41ecd7beab6d82c26d96e6cfb11087a8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:10 +0000
Subject: [PATCH 10/25] fix: save_state creates missing parent directories of a
 nested output_dir

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index c3db4d0..4062b8d 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1031,7 +1031,7 @@ class Sampler:
             Path to save state.
         """
         print(f'Saving PMC state to {path}')
-        Path(path).parent.mkdir(exist_ok=True)
+        Path(path).parent.mkdir(parents=True, exist_ok=True)
         temp_path = Path(path).with_suffix('.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
-- 
2.43.0


From 9f753d52299659b48ba26cda9955a3a0db74679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 11/25] fix: systematic_resample cannot run past the last
 weight

Weights that sum to slightly less than one (rounding) left the last positions
above the final cumulative sum and raised IndexError.
---
 pocomc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 1d0c872..62107c3 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -178,7 +178,7 @@ def systematic_resample(size: np.ndarray,
     cumulative_sum = weights[0]
     indeces = np.empty(size, dtype=int)
     for i in range(size):
-        while positions[i] > cumulative_sum:
+        while positions[i] > cumulative_sum and j < len(weights) - 1:
             j += 1
             cumulative_sum += weights[j]
         indeces[i] = j
-- 
2.43.0


From f49a362dc9a10e22bcef2620c6b246e3a8a7177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 12/25] fix: validation_split is the fraction of samples used
 for validation, as documented

It was used as the training fraction.
---
 pocomc/flow.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index 2b8c179..dc7c4ea 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -245,14 +245,15 @@ class Flow:
             mean_min_dist = torch.mean(min_dists)
 
         if validation_split > 0.0:
-            x_train = x[:int(validation_split * n_samples)]
-            x_valid = x[int(validation_split * n_samples):]
+            n_train = n_samples - int(validation_split * n_samples)
+            x_train = x[:n_train]
+            x_valid = x[n_train:]
             if weights is None:
                 train_dl = DataLoader(TensorDataset(x_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid), batch_size, shuffle)
             else:
-                weights_train = weights[:int(validation_split * n_samples)]
-                weights_valid = weights[int(validation_split * n_samples):]
+                weights_train = weights[:n_train]
+                weights_valid = weights[n_train:]
                 train_dl = DataLoader(TensorDataset(x_train, weights_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid, weights_valid), batch_size, shuffle)
             validation = True
-- 
2.43.0


From 715a63c5b5144562f0018de4ade570ee16c2bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 13/25] fix: flow draws outside of the prior support count as
 zero weight in the evidence

They were dropped from the average, so the evidence was overestimated by the
reciprocal of the fraction of draws inside the support.
---
 pocomc/sampler.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 4062b8d..982b797 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -896,17 +896,15 @@ class Sampler:
         # compute log prior
         logp = self.log_prior(x_q)
 
-        # keep only finite values
-        x_q = x_q[np.isfinite(logp)]
-        logdetj = logdetj[np.isfinite(logp)]
-        logq = logq[np.isfinite(logp)]
-        logp = logp[np.isfinite(logp)]
+        # draws outside of the prior support have zero weight
+        finite = np.isfinite(logp)
 
         # compute log likelihood
-        logl, _ = self._log_like(x_q)
+        logl, _ = self._log_like(x_q[finite])
 
         # compute log weights
-        logw = logl + logp + logdetj - logq 
+        logw = np.full(len(logp), -np.inf)
+        logw[finite] = logl + logp[finite] + logdetj[finite] - logq[finite]
 
         # compute log evidence
         logz = np.logaddexp.reduce(logw) - np.log(len(logw))
@@ -914,7 +912,7 @@ class Sampler:
         # compute error on log evidence
         dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
 
-        self.calls += len(logw)
+        self.calls += len(logl)
         self.pbar.update_stats(dict(calls=self.calls))
 
         self.logz = logz
-- 
2.43.0


From 5ae7c9d3344730029a74469f38ef4eb5b3349c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 14/25] fix: random-walk Metropolis works for one-dimensional
 problems

np.cov is 0-dimensional for a single parameter and the Cholesky factorisation failed.
---
 pocomc/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/geometry.py b/pocomc/geometry.py
index f97a621..30f56cc 100644
--- a/pocomc/geometry.py
+++ b/pocomc/geometry.py
@@ -42,10 +42,10 @@ class Geometry:
         # Learn normal distribution
         if weights is None:
             self.normal_mean = np.mean(theta, axis=0)
-            self.normal_cov = np.cov(theta.T)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T))
         else:
             self.normal_mean = np.average(theta, axis=0, weights=weights)
-            self.normal_cov = np.cov(theta.T, aweights=weights)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T, aweights=weights))
 
         # Learn t distribution
         if weights is not None:
-- 
2.43.0


From e4138d2c37b7a1cc3b4c38073bd9f090e9747bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 15/25] fix: pool=1 runs in serial mode instead of failing with
 AttributeError

---
 pocomc/sampler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 982b797..5978b8c 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -267,9 +267,13 @@ class Sampler:
         self.pool = pool
         if pool is None:
             self.distribute = map
-        elif isinstance(pool, int) and pool > 1:
-            self.pool = Pool(pool)
-            self.distribute = self.pool.map
+        elif isinstance(pool, int):
+            if pool > 1:
+                self.pool = Pool(pool)
+                self.distribute = self.pool.map
+            else:
+                self.pool = None
+                self.distribute = map
         else:
             self.distribute = pool.map
 
-- 
2.43.0


From 799d312bc02852c9015a53fcd124ad38710b4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 16/25] fix: resuming keeps the pool of the resuming sampler

A state saved in serial mode stored pool=None and silently turned the pool of
the sampler that loads it off.
---
 pocomc/sampler.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 5978b8c..6b64d12 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1038,13 +1038,9 @@ class Sampler:
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
             del state['pbar']  # Cannot be pickled
-            try:
-                # deal with pool
-                if state['pool'] is not None:
-                    del state['pool']  # remove pool
-                    del state['distribute']  # remove `pool.map` function hook
-            except BaseException as e:
-                print(e)
+            # The pool belongs to the process, a resumed sampler uses its own
+            state.pop('pool', None)  # remove pool
+            state.pop('distribute', None)  # remove `pool.map` function hook
 
             dill.dump(file=f, obj=state)
             f.flush()
-- 
2.43.0


From 65234c7a17bc6fd356fab3541c6e0535908bc623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 17/25] fix: prior particles with NaN log-likelihood are
 replaced in warm-up like infinite ones

A single NaN made all importance weights NaN; the MCMC kernels already reject NaN.
---
 pocomc/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 6b64d12..1444b98 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -457,8 +457,8 @@ class Sampler:
                 logl, blobs = self._log_like(x)
                 self.calls += self.n_active
 
-                # Resample prior particles with infinite likelihoods
-                inf_logl_mask = np.isinf(logl)
+                # Resample prior particles with infinite or undefined likelihoods
+                inf_logl_mask = ~np.isfinite(logl)
                 if np.any(inf_logl_mask):
                     all_idx = np.arange(len(x))
                     infinite_idx = all_idx[inf_logl_mask]
-- 
2.43.0


From 72c6bb0731c914566800766c2e4b9487db9c0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:48 +0000
Subject: [PATCH 18/25] fix: prior draws without a finite likelihood lower the
 evidence

They are replaced in warm-up, which makes the recorded batch a draw from the
prior restricted to the usable region; its normalisation is the usable fraction,
not one. The SMC evidence was overestimated by the reciprocal of that fraction.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 1444b98..6aa9c37 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -475,7 +475,7 @@ class Sampler:
                 self.current_particles = dict(u=u,x=x,logl=logl,logp=logp,logdetj=logdetj,
                                     logw=-1e300 * np.ones(self.n_active), blobs=blobs, iter=self.t,
                                     calls=self.calls, steps=1, efficiency=1.0, ess=self.n_effective, 
-                                    accept=1.0, beta=0.0, logz=0.0)
+                                    accept=1.0, beta=0.0, logz=np.log(1.0 - np.mean(inf_logl_mask)))
                 
                 self.particles.update(self.current_particles)
 
-- 
2.43.0


From 9957347f846c23601af66f26a66bb8324bdb064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:19 +0000
Subject: [PATCH 19/25] fix: reflections that overshoot the opposite bound are
 repeated until the parameter is in range

---
 pocomc/scaler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index bde2e28..013d896 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -149,10 +149,12 @@ class Reparameterize:
             x = x.copy()
             for i in self.reflective:
                 for j in range(len(x)):
-                    while x[j, i] > self.high[i]:
-                        x[j, i] = self.high[i] - x[j, i] + self.high[i]
-                    while x[j, i] < self.low[i]:
-                        x[j, i] = self.low[i] + self.low[i] - x[j, i]
+                    # A reflection about one bound can overshoot the other one
+                    while np.isfinite(x[j, i]) and (x[j, i] > self.high[i] or x[j, i] < self.low[i]):
+                        if x[j, i] > self.high[i]:
+                            x[j, i] = self.high[i] - x[j, i] + self.high[i]
+                        else:
+                            x[j, i] = self.low[i] + self.low[i] - x[j, i]
 
         return x
 
-- 
2.43.0


From 0e8c03bae6171e52433ae50d5d0d4b7d20a3f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:20 +0000
Subject: [PATCH 20/25] fix: save_state must not write its temporary file over
 the checkpoint itself

with_suffix('.temp') replaces the suffix, so a checkpoint path that ends in
.temp is truncated in place and a crash during the save destroys it. Append
the suffix to the file name instead.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 6aa9c37..05679a3 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1034,7 +1034,7 @@ class Sampler:
         """
         print(f'Saving PMC state to {path}')
         Path(path).parent.mkdir(parents=True, exist_ok=True)
-        temp_path = Path(path).with_suffix('.temp')
+        temp_path = Path(path).with_name(Path(path).name + '.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
             del state['pbar']  # Cannot be pickled
-- 
2.43.0


From 05f3dd5e045fe799a51edaa5617a6fb9ab2bd184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:23 +0000
Subject: [PATCH 21/25] fix: sample-size measures and trimming must not
 normalise the caller's weights in place

---
 pocomc/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 62107c3..32f53e9 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -31,7 +31,7 @@ def trim_weights(samples, weights, ess=0.99, bins=1000):
     """
 
     # normalize weights
-    weights /= np.sum(weights)
+    weights = weights / np.sum(weights)
     # compute untrimmed ess
     ess_total = 1.0 / np.sum(weights**2.0)
     # define percentile grid
@@ -67,7 +67,7 @@ def effective_sample_size(weights):
     ess : ``float``
         Effective sample size.
     """
-    weights /= np.sum(weights)
+    weights = weights / np.sum(weights)
     return 1.0 / np.sum(weights**2.0)
 
 
@@ -89,7 +89,7 @@ def unique_sample_size(weights, k=None):
     """
     if k is None:
         k = len(weights)
-    weights /= np.sum(weights)
+    weights = weights / np.sum(weights)
     return np.sum(1.0 - (1.0 - weights)**k)
 
 
-- 
2.43.0


From 56b8a167491ba9625fc13555fc8d4e04c6e9a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 22/25] fix: torch_double_to_float must cast float64 input also
 without a warning

---
 pocomc/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 32f53e9..8263ffc 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -307,8 +307,9 @@ def torch_double_to_float(x: torch.Tensor, warn: bool = True):
     -------
         Single precision (Float32) torch tensor.
     """
-    if x.dtype == torch.float64 and warn:
-        warnings.warn(f"Float64 data is currently unsupported, casting to Float32. Output will also have type Float32.")
+    if x.dtype == torch.float64:
+        if warn:
+            warnings.warn(f"Float64 data is currently unsupported, casting to Float32. Output will also have type Float32.")
         return x.float()
     elif x.dtype == torch.float32:
         return x
-- 
2.43.0


From b589d588a750c68ff6d381f0826a2a808f55298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 23/25] fix: regularisation of the flow used an attribute that
 zuko flows do not have

---
 pocomc/flow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index dc7c4ea..496d3fc 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -405,7 +405,8 @@ def regularization_loss(model, laplace_scale=None, gaussian_scale=None):
     total_laplace = 0.0
     total_gaussian = 0.0
 
-    for i, transform in enumerate(model.transforms):
+    # A flow has one transform, which is usually a composition of several
+    for transform in getattr(model.transform, "transforms", [model.transform]):
         if hasattr(transform, "hyper"):
             for parameter_name, parameter in transform.hyper.named_parameters():
                 if parameter_name.endswith('weight'):
-- 
2.43.0


From 6068f042f4ef79cee82a5c271e3211356af724ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:22 +0000
Subject: [PATCH 24/25] fix: the kernels leave the caller's blobs unchanged

Every other array of the state is cloned at the start of a kernel; the blobs
were taken over without a copy and accepted proposals were written into the
array of the caller.
---
 pocomc/mcmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index a151667..e997174 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -39,6 +39,7 @@ def preconditioned_pcn(state_dict: dict,
         have_blobs = False
     else:
         have_blobs = True
+        blobs = np.copy(blobs)
 
     # Get functions
     log_like = function_dict.get('loglike')
@@ -217,6 +218,7 @@ def preconditioned_rwm(state_dict: dict,
         have_blobs = False
     else:
         have_blobs = True
+        blobs = np.copy(blobs)
 
     # Get functions
     log_like = function_dict.get('loglike')
@@ -375,6 +377,7 @@ def pcn(state_dict: dict,
         have_blobs = False
     else:
         have_blobs = True
+        blobs = np.copy(blobs)
 
     # Get functions
     log_like = function_dict.get('loglike')
@@ -539,6 +542,7 @@ def rwm(state_dict: dict,
         have_blobs = False
     else:
         have_blobs = True
+        blobs = np.copy(blobs)
 
     # Get functions
     log_like = function_dict.get('loglike')
-- 
2.43.0


From 7ae19ef4f485bb848b2fa19ea470857ba98b3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 25/25] fix: no likelihood call in a step without usable
 proposals

With integer blobs the missing blobs of the empty evaluation cannot be stored
(TypeError), and vectorised likelihoods were called with an empty array.
---
 pocomc/mcmc.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index e997174..af56f9a 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -113,9 +113,11 @@ def preconditioned_pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
-            logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
         
         # Update likelihood call counter
@@ -282,9 +284,11 @@ def preconditioned_rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
-            logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
 
         # Update likelihood call counter
@@ -444,9 +448,11 @@ def pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
-            logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
         
         # Update likelihood call counter
@@ -599,9 +605,11 @@ def rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs.dtype, blobs.shape[1:])))
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
-            logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
+            if np.any(finite_mask):
+                logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
 
         # Update likelihood call counter
-- 
2.43.0

