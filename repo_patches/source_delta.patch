From 5b69a4e24a3bb9f8141b7b71b5273bf98f5de3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 01/38] fix: recompute sampler.results after new particles are
 stored

Particles.compute_results cached its dictionary for ever, so results read
before continuing a run hid every iteration added afterwards.
---
 pocomc/particles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pocomc/particles.py b/pocomc/particles.py
index b96656c..b19dbc8 100644
--- a/pocomc/particles.py
+++ b/pocomc/particles.py
@@ -146,6 +146,8 @@ class Particles:
                 value = data.get(key)
                 # Save to past states
                 self.past.get(key).append(value)
+        # Results computed so far no longer describe the stored particles
+        self.results_dict = None
 
     def pop(self, key):
         """
@@ -162,6 +164,7 @@ class Particles:
         after the resampling step.
         """
         _ = self.past.get(key).pop()
+        self.results_dict = None
 
     def get(self, key, index=None, flat=False):
         """
-- 
2.43.0


From d3cd355eb0f00192a100d9d780b1fc89f68bd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 02/38] fix: resume an interrupted warm-up where it stopped

Resuming from a state saved during warm-up started again with the first
batch of prior samples, storing (and evaluating) the finished batches twice.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 7c7f2ff..a053f96 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -440,7 +440,7 @@ class Sampler:
             self.scaler.fit(self.prior_samples)
 
         if self.warmup:
-            for i in range(self.n_prior//self.n_active):
+            for i in range(self.t, self.n_prior//self.n_active):
                 if save_every is not None:
                     if (self.t - t0) % int(save_every) == 0 and self.t != t0:
                         self.save_state(Path(self.output_dir) / f'{self.output_label}_{self.t}.state')
-- 
2.43.0


From c8d1cab7bef490b6b21d4704b38c94c610223b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 03/38] fix: apply the clipping of two-sided bounded parameters

The result of np.clip was discarded, so a sample lying exactly on a bound
was mapped to infinity and made the fitted mean and scale NaN.
---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index e1f9b3b..049c053 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -390,7 +390,7 @@ class Reparameterize:
         Transformed input data
         """
         p = (x[:, self.mask_both] - self.low[self.mask_both]) / (self.high[self.mask_both] - self.low[self.mask_both])
-        np.clip(p, 1e-13, 1.0 - 1e-13)
+        p = np.clip(p, 1e-13, 1.0 - 1e-13)
 
         if self.transform == "logit":
             u = np.log(p / (1.0 - p))
-- 
2.43.0


From f6ba696a9387abd31868bc827d9f118b8b9aa57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 04/38] fix: Reparameterize with bounds=None or one shared pair
 of bounds

bounds=None set the lower bound to +inf, so every input was out of bounds;
a shared pair was rounded to single precision, so inputs between the given
and the rounded bound were rejected.
---
 pocomc/scaler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 049c053..f407d87 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -54,9 +54,9 @@ class Reparameterize:
         self.ndim = n_dim
 
         if bounds is None:
-            bounds = np.full((self.ndim, 2), np.inf)
+            bounds = np.tile(np.array([-np.inf, np.inf]), (self.ndim, 1))
         elif len(bounds) == 2 and not np.shape(bounds) == (2, 2):
-            bounds = np.tile(np.array(bounds, dtype=np.float32).reshape(2, 1), self.ndim).T
+            bounds = np.tile(np.array(bounds, dtype=np.float64).reshape(2, 1), self.ndim).T
         assert_array_float(bounds)
 
         self.low = bounds.T[0]
-- 
2.43.0


From 682c108fb5b351effd14e2dbbd3b4e812b385e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 05/38] fix: count flow samples outside the prior support in
 the evidence

They were dropped from the importance-sampling average as well as from its
denominator, which overestimates the evidence for priors whose support is
not a box.
---
 pocomc/sampler.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index a053f96..f896051 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -894,17 +894,15 @@ class Sampler:
         # compute log prior
         logp = self.log_prior(x_q)
 
-        # keep only finite values
-        x_q = x_q[np.isfinite(logp)]
-        logdetj = logdetj[np.isfinite(logp)]
-        logq = logq[np.isfinite(logp)]
-        logp = logp[np.isfinite(logp)]
+        # samples outside the support of the prior have zero weight
+        finite = np.isfinite(logp)
 
         # compute log likelihood
-        logl, _ = self._log_like(x_q)
+        logl, _ = self._log_like(x_q[finite])
 
         # compute log weights
-        logw = logl + logp + logdetj - logq 
+        logw = np.full(len(x_q), -np.inf)
+        logw[finite] = logl + logp[finite] + logdetj[finite] - logq[finite]
 
         # compute log evidence
         logz = np.logaddexp.reduce(logw) - np.log(len(logw))
@@ -912,7 +910,7 @@ class Sampler:
         # compute error on log evidence
         dlogz = np.std([np.logaddexp.reduce(logw[np.random.choice(len(logw), len(logw))]) - np.log(len(logw)) for _ in range(np.maximum(n,1000))])
 
-        self.calls += len(logw)
+        self.calls += np.sum(finite)
         self.pbar.update_stats(dict(calls=self.calls))
 
         self.logz = logz
-- 
2.43.0


From b4fee91bdad644091cb47271117f16e9f9fa0563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 06/38] fix: keep the evidence likelihood calls when a run is
 continued

The call counter was reset to its value before the evidence estimate by
the first iteration of a continued run.
---
 pocomc/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index f896051..29d3cbf 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -626,8 +626,8 @@ class Sampler:
         current_particles["efficiency"] = results.get('efficiency') / (2.38 / self.n_dim ** 0.5)
         current_particles["steps"] = results.get('steps')
         current_particles["accept"] = results.get('accept')
-        current_particles["calls"] = current_particles.get("calls") + results.get('calls')
-        self.calls = current_particles.get("calls")
+        self.calls += results.get('calls')
+        current_particles["calls"] = self.calls
         self.proposal_scale = results.get('proposal_scale')
 
         return current_particles
-- 
2.43.0


From 167ba01239adbb47bcbf83300cf0e014165df4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 07/38] fix: store the iteration index of iterations after the
 warm-up

results['iter'] repeated the index of the last warm-up batch for ever.
---
 pocomc/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 29d3cbf..03ec422 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -729,6 +729,7 @@ class Sampler:
             Dictionary containing the updated particles.
         """
         # Update iteration index
+        current_particles["iter"] = self.t
         self.t += 1
         self.pbar.update_iter()
 
-- 
2.43.0


From ddb451d441aad473b10c2d0bfeefe78a40669b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 08/38] fix: MCMC with string and other object blobs

The kernels took the dtype of the proposal blobs from the first blob, which
has none when the blobs are kept as objects.
---
 pocomc/mcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 2455f26..c7f156f 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -111,7 +111,7 @@ def preconditioned_pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -279,7 +279,7 @@ def preconditioned_rwm(state_dict: dict,
         # Compute log-likelihood, log-prior, and log-posterior
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -440,7 +440,7 @@ def pcn(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
@@ -594,7 +594,7 @@ def rwm(state_dict: dict,
         # Evaluate likelihood
         logl_prime = np.empty(n_walkers)
         if have_blobs:
-            blobs_prime = np.empty(n_walkers, dtype=np.dtype((blobs[0].dtype, blobs[0].shape)))
+            blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
             logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
         else:
             logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
-- 
2.43.0


From d21083006886452b2fb213d71ea213dbb6fa4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 09/38] fix: do not evaluate the likelihood when every proposal
 is invalid

The kernels called it with an empty batch, and crashed assigning its missing
blobs.
---
 pocomc/mcmc.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index c7f156f..dec86b2 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -112,9 +112,11 @@ def preconditioned_pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
-        else:
-            logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
+        if np.any(finite_mask):
+            if have_blobs:
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            else:
+                logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
         
         # Update likelihood call counter
@@ -280,9 +282,11 @@ def preconditioned_rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
-        else:
-            logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
+        if np.any(finite_mask):
+            if have_blobs:
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            else:
+                logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
 
         # Update likelihood call counter
@@ -441,9 +445,11 @@ def pcn(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
-        else:
-            logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
+        if np.any(finite_mask):
+            if have_blobs:
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            else:
+                logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
         
         # Update likelihood call counter
@@ -595,9 +601,11 @@ def rwm(state_dict: dict,
         logl_prime = np.empty(n_walkers)
         if have_blobs:
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
-            logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
-        else:
-            logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
+        if np.any(finite_mask):
+            if have_blobs:
+                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+            else:
+                logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
 
         # Update likelihood call counter
-- 
2.43.0


From 45ef2ed41cb654616b16f834a62c0882b45dbbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 10/38] fix: random-walk Metropolis in one dimension

np.cov of a single parameter is 0-dimensional and has no Cholesky factor.
---
 pocomc/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/geometry.py b/pocomc/geometry.py
index f97a621..30f56cc 100644
--- a/pocomc/geometry.py
+++ b/pocomc/geometry.py
@@ -42,10 +42,10 @@ class Geometry:
         # Learn normal distribution
         if weights is None:
             self.normal_mean = np.mean(theta, axis=0)
-            self.normal_cov = np.cov(theta.T)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T))
         else:
             self.normal_mean = np.average(theta, axis=0, weights=weights)
-            self.normal_cov = np.cov(theta.T, aweights=weights)
+            self.normal_cov = np.atleast_2d(np.cov(theta.T, aweights=weights))
 
         # Learn t distribution
         if weights is not None:
-- 
2.43.0


From 8a0e6916911113dc04602f03cf3617a1251d58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 11/38] fix: keep systematic_resample inside the weights

When the rounded weights sum to slightly less than one, a position beyond
their cumulative sum ran past the last sample.
---
 pocomc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 1d0c872..62107c3 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -178,7 +178,7 @@ def systematic_resample(size: np.ndarray,
     cumulative_sum = weights[0]
     indeces = np.empty(size, dtype=int)
     for i in range(size):
-        while positions[i] > cumulative_sum:
+        while positions[i] > cumulative_sum and j < len(weights) - 1:
             j += 1
             cumulative_sum += weights[j]
         indeces[i] = j
-- 
2.43.0


From b9ed14773a248716ce2355a0e55f89ac64e2eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 12/38] fix: end trim_weights when no sample is left to keep

With ess=1.0 the ratio of the untrimmed weights may round to less than one,
and the search went on past the end of the percentile grid.
---
 pocomc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/tools.py b/pocomc/tools.py
index 62107c3..d9bb9c4 100644
--- a/pocomc/tools.py
+++ b/pocomc/tools.py
@@ -46,7 +46,7 @@ def trim_weights(samples, weights, ess=0.99, bins=1000):
         weights_trimmed = weights[mask]
         weights_trimmed /= np.sum(weights_trimmed)
         ess_trimmed = 1.0 / np.sum(weights_trimmed**2.0)
-        if ess_trimmed / ess_total >= ess:
+        if ess_trimmed / ess_total >= ess or i == 0:
             break 
         i -= 1
     
-- 
2.43.0


From 80ee70848d3a2ee907d2dd63977ee8ffb6ecb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 13/38] fix: treat NaN likelihoods of prior and flow samples as
 zero

The MCMC kernels already reject them; in the warm-up and in the evidence one
NaN made all weights NaN.
---
 pocomc/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 03ec422..b3a9ca9 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -453,7 +453,7 @@ class Sampler:
                 self.calls += self.n_active
 
                 # Resample prior particles with infinite likelihoods
-                inf_logl_mask = np.isinf(logl)
+                inf_logl_mask = ~np.isfinite(logl)
                 if np.any(inf_logl_mask):
                     all_idx = np.arange(len(x))
                     infinite_idx = all_idx[inf_logl_mask]
@@ -904,6 +904,7 @@ class Sampler:
         # compute log weights
         logw = np.full(len(x_q), -np.inf)
         logw[finite] = logl + logp[finite] + logdetj[finite] - logq[finite]
+        logw[np.isnan(logw)] = -np.inf
 
         # compute log evidence
         logz = np.logaddexp.reduce(logw) - np.log(len(logw))
-- 
2.43.0


From f860225323cb828cc9ffcdfb389ab185cc0a4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 14/38] fix: SMC evidence when part of the prior has zero
 likelihood

Prior samples with zero likelihood are replaced by other ones, so the warm-up
particles represent the prior restricted to the allowed region; its
normalisation was missing from the evidence.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index b3a9ca9..c523743 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -470,7 +470,7 @@ class Sampler:
                 self.current_particles = dict(u=u,x=x,logl=logl,logp=logp,logdetj=logdetj,
                                     logw=-1e300 * np.ones(self.n_active), blobs=blobs, iter=self.t,
                                     calls=self.calls, steps=1, efficiency=1.0, ess=self.n_effective, 
-                                    accept=1.0, beta=0.0, logz=0.0)
+                                    accept=1.0, beta=0.0, logz=np.log(np.mean(~inf_logl_mask)))
                 
                 self.particles.update(self.current_particles)
 
-- 
2.43.0


From ace8a67c758800e139f3bdc8578d20720a42620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 15/38] fix: use validation_split as the fraction of validation
 samples

It was used as the fraction of training samples.
---
 pocomc/flow.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index ec4e00b..827591d 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -245,14 +245,15 @@ class Flow:
             mean_min_dist = torch.mean(min_dist)
 
         if validation_split > 0.0:
-            x_train = x[:int(validation_split * n_samples)]
-            x_valid = x[int(validation_split * n_samples):]
+            n_valid = int(validation_split * n_samples)
+            x_train = x[n_valid:]
+            x_valid = x[:n_valid]
             if weights is None:
                 train_dl = DataLoader(TensorDataset(x_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid), batch_size, shuffle)
             else:
-                weights_train = weights[:int(validation_split * n_samples)]
-                weights_valid = weights[int(validation_split * n_samples):]
+                weights_train = weights[n_valid:]
+                weights_valid = weights[:n_valid]
                 train_dl = DataLoader(TensorDataset(x_train, weights_train), batch_size, shuffle)
                 val_dl = DataLoader(TensorDataset(x_valid, weights_valid), batch_size, shuffle)
             validation = True
-- 
2.43.0


From 850b351aca7f99a43cafa3c6db2b15c142063994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 16/38] fix: scale the training noise by the nearest-neighbour
 distances

The mean was taken over the distances to the last sample.
---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index 827591d..bb309b7 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -242,7 +242,7 @@ class Flow:
             for i in range(n_samples):
                 min_dist = torch.linalg.norm(x[i] - x, axis=1)
                 min_dists[i] = torch.min(min_dist[min_dist > 0.0])
-            mean_min_dist = torch.mean(min_dist)
+            mean_min_dist = torch.mean(min_dists)
 
         if validation_split > 0.0:
             n_valid = int(validation_split * n_samples)
-- 
2.43.0


From 98782d80c0628a119ea12e1125673d888efec286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:41 +0000
Subject: [PATCH 17/38] fix: weight regularisation of the flow

zuko flows keep their transformations in flow.transform.transforms.
---
 pocomc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/flow.py b/pocomc/flow.py
index bb309b7..a69c47c 100644
--- a/pocomc/flow.py
+++ b/pocomc/flow.py
@@ -405,7 +405,7 @@ def regularization_loss(model, laplace_scale=None, gaussian_scale=None):
     total_laplace = 0.0
     total_gaussian = 0.0
 
-    for i, transform in enumerate(model.transforms):
+    for i, transform in enumerate(model.transform.transforms):
         if hasattr(transform, "hyper"):
             for parameter_name, parameter in transform.hyper.named_parameters():
                 if parameter_name.endswith('weight'):
-- 
2.43.0


From bf6bd6443f4970a089b098bae55a0bd79229802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:42 +0000
Subject: [PATCH 18/38] fix: keep the pool of the sampler that resumes a serial
 run

The state of a run without a pool stored pool=None, which replaced the pool
of the sampler it was loaded into.
---
 pocomc/sampler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index c523743..e11c007 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1036,9 +1036,8 @@ class Sampler:
             del state['pbar']  # Cannot be pickled
             try:
                 # deal with pool
-                if state['pool'] is not None:
-                    del state['pool']  # remove pool
-                    del state['distribute']  # remove `pool.map` function hook
+                del state['pool']  # remove pool
+                del state['distribute']  # remove `pool.map` function hook
             except BaseException as e:
                 print(e)
 
-- 
2.43.0


From 7243d290e2b304c0c8fcac0bb6d9ccb708c8e6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:42 +0000
Subject: [PATCH 19/38] fix: create nested output directories for state files

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index e11c007..ef12358 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -1029,7 +1029,7 @@ class Sampler:
             Path to save state.
         """
         print(f'Saving PMC state to {path}')
-        Path(path).parent.mkdir(exist_ok=True)
+        Path(path).parent.mkdir(parents=True, exist_ok=True)
         temp_path = Path(path).with_suffix('.temp')
         with open(temp_path, 'wb') as f:
             state = self.__dict__.copy()
-- 
2.43.0


From b15211d4893eb345d18f38ad9c72c9425868eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:42 +0000
Subject: [PATCH 20/38] fix: resume from a state saved before the first
 iteration

There is no iteration yet whose statistics the progress bar could show.
---
 pocomc/sampler.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index ef12358..ddd1d2a 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -407,14 +407,15 @@ class Sampler:
             t0 = self.t
             # Initialise progress bar
             self.pbar = ProgressBar(self.progress, initial=t0)
-            self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
-                                        calls=self.particles.get("calls", -1),
-                                        ESS=self.particles.get("ess", -1),
-                                        logZ=self.particles.get("logz", -1),
-                                        logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
-                                        acc=self.particles.get("accept", -1),
-                                        steps=self.particles.get("steps", -1),
-                                        eff=self.particles.get("efficiency", -1)))
+            if self.t > 0:
+                self.pbar.update_stats(dict(beta=self.particles.get("beta", -1),
+                                            calls=self.particles.get("calls", -1),
+                                            ESS=self.particles.get("ess", -1),
+                                            logZ=self.particles.get("logz", -1),
+                                            logP=np.mean(self.particles.get("logp", -1)+self.particles.get("logl", -1)),
+                                            acc=self.particles.get("accept", -1),
+                                            steps=self.particles.get("steps", -1),
+                                            eff=self.particles.get("efficiency", -1)))
         else:
             t0 = self.t
             # Run parameters
-- 
2.43.0


From 9e877ca1ad327f31690756eda7fe4dfe7ec16e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:52 +0000
Subject: [PATCH 21/38] fix: full-covariance scaling of one parameter

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index f407d87..bae9eeb 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -172,7 +172,7 @@ class Reparameterize:
         if self.diagonal:
             self.sigma = np.std(u, axis=0)
         else:
-            self.cov = np.cov(u.T)
+            self.cov = np.atleast_2d(np.cov(u.T))
             self.L = np.linalg.cholesky(self.cov)
             self.L_inv = np.linalg.inv(self.L)
             self.log_det_L = np.linalg.slogdet(self.L)[1]
-- 
2.43.0


From 050b4478585b813a65096796a7e3684eba223002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:07 +0000
Subject: [PATCH 22/38] fix: logit Jacobian near the upper bound

---
 pocomc/scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index bae9eeb..2d47cab 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -417,7 +417,7 @@ class Reparameterize:
         if self.transform == "logit":
             p = np.exp(-np.logaddexp(0, -u[:, self.mask_both]))
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
-            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) + np.log(p) + np.log(1.0 - p)
+            J = np.log(self.high[self.mask_both] - self.low[self.mask_both]) - np.logaddexp(0, -u[:, self.mask_both]) - np.logaddexp(0, u[:, self.mask_both])
         elif self.transform == "probit":
             p = ( erf(u[:, self.mask_both] / np.sqrt(2.0)) + 1.0 ) / 2.0
             x = p * (self.high[self.mask_both] - self.low[self.mask_both]) + self.low[self.mask_both]
-- 
2.43.0


From 98521b9a02df53adbb8b18d7959570bcc5bffec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:51 +0000
Subject: [PATCH 23/38] fix: fold points that cross reflective bounds several
 times

---
 pocomc/scaler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pocomc/scaler.py b/pocomc/scaler.py
index 2d47cab..3a04a63 100644
--- a/pocomc/scaler.py
+++ b/pocomc/scaler.py
@@ -149,10 +149,10 @@ class Reparameterize:
             x = x.copy()
             for i in self.reflective:
                 for j in range(len(x)):
-                    while x[j, i] > self.high[i]:
-                        x[j, i] = self.high[i] - x[j, i] + self.high[i]
-                    while x[j, i] < self.low[i]:
-                        x[j, i] = self.low[i] + self.low[i] - x[j, i]
+                    if x[j, i] > self.high[i] or x[j, i] < self.low[i]:
+                        width = self.high[i] - self.low[i]
+                        offset = np.mod(x[j, i] - self.low[i], 2.0 * width)
+                        x[j, i] = min(self.low[i] + min(offset, 2.0 * width - offset), self.high[i])
 
         return x
 
-- 
2.43.0


From f11333aaab0c3d7ab9551c87a620acea35f382d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:21 +0000
Subject: [PATCH 24/38] fix: results that were modified are not returned again

---
 pocomc/particles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/particles.py b/pocomc/particles.py
index b19dbc8..3008d67 100644
--- a/pocomc/particles.py
+++ b/pocomc/particles.py
@@ -301,5 +301,6 @@ class Particles:
             self.results_dict["logw"] = logw
             #self.results_dict["ess"] = np.exp(log_ess)
 
-        return self.results_dict
+        # Hand out copies so that changing them does not change the results read later
+        return {key: np.copy(value) for key, value in self.results_dict.items()}
 
-- 
2.43.0


From d35f1376f8f5063ad764caa6a6e4e270fea68ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:02 +0000
Subject: [PATCH 25/38] fix: bounds of priors with integer parameters are
 floats

---
 pocomc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/prior.py b/pocomc/prior.py
index 9a57ca2..4bb67ed 100644
--- a/pocomc/prior.py
+++ b/pocomc/prior.py
@@ -151,7 +151,7 @@ class Prior:
         bounds = []
         for dist in self.dists:
             bounds.append(dist.support())
-        return np.array(bounds)
+        return np.array(bounds, dtype=float)
     
     @property
     def dim(self):
-- 
2.43.0


From 0820734990c41b0bdddae2e4d6c6d064d7edf2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:25 +0000
Subject: [PATCH 26/38] fix: an integer pool of one process

---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index ddd1d2a..97697fd 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -267,7 +267,7 @@ class Sampler:
         self.pool = pool
         if pool is None:
             self.distribute = map
-        elif isinstance(pool, int) and pool > 1:
+        elif isinstance(pool, int) and pool >= 1:
             self.pool = Pool(pool)
             self.distribute = self.pool.map
         else:
-- 
2.43.0


From 3398c7c95d4a6fc3741294cb579b8e540497d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 27/38] fix: do not truncate blobs to the data type of the
 first one

---
 pocomc/mcmc.py    | 24 ++++++++++++++++++++----
 pocomc/sampler.py |  2 +-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index dec86b2..7ee28d5 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -114,7 +114,11 @@ def preconditioned_pcn(state_dict: dict,
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
         if np.any(finite_mask):
             if have_blobs:
-                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+                logl_prime[finite_mask], blobs_finite = log_like(x_prime[finite_mask])
+                # The inferred data type can differ between evaluations
+                blobs_dtype = np.result_type(blobs, blobs_finite)
+                blobs, blobs_prime = blobs.astype(blobs_dtype), blobs_prime.astype(blobs_dtype)
+                blobs_prime[finite_mask] = blobs_finite
             else:
                 logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
@@ -284,7 +288,11 @@ def preconditioned_rwm(state_dict: dict,
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
         if np.any(finite_mask):
             if have_blobs:
-                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+                logl_prime[finite_mask], blobs_finite = log_like(x_prime[finite_mask])
+                # The inferred data type can differ between evaluations
+                blobs_dtype = np.result_type(blobs, blobs_finite)
+                blobs, blobs_prime = blobs.astype(blobs_dtype), blobs_prime.astype(blobs_dtype)
+                blobs_prime[finite_mask] = blobs_finite
             else:
                 logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
@@ -447,7 +455,11 @@ def pcn(state_dict: dict,
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
         if np.any(finite_mask):
             if have_blobs:
-                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+                logl_prime[finite_mask], blobs_finite = log_like(x_prime[finite_mask])
+                # The inferred data type can differ between evaluations
+                blobs_dtype = np.result_type(blobs, blobs_finite)
+                blobs, blobs_prime = blobs.astype(blobs_dtype), blobs_prime.astype(blobs_dtype)
+                blobs_prime[finite_mask] = blobs_finite
             else:
                 logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
@@ -603,7 +615,11 @@ def rwm(state_dict: dict,
             blobs_prime = np.empty(blobs.shape, dtype=blobs.dtype)
         if np.any(finite_mask):
             if have_blobs:
-                logl_prime[finite_mask], blobs_prime[finite_mask] = log_like(x_prime[finite_mask])
+                logl_prime[finite_mask], blobs_finite = log_like(x_prime[finite_mask])
+                # The inferred data type can differ between evaluations
+                blobs_dtype = np.result_type(blobs, blobs_finite)
+                blobs, blobs_prime = blobs.astype(blobs_dtype), blobs_prime.astype(blobs_dtype)
+                blobs_prime[finite_mask] = blobs_finite
             else:
                 logl_prime[finite_mask], _ = log_like(x_prime[finite_mask])
         logl_prime[~finite_mask] = -np.inf
diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 97697fd..979aa10 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -845,7 +845,7 @@ class Sampler:
                 dt = self.blobs_dtype
             else:
                 try:
-                    dt = np.atleast_1d(blob[0]).dtype
+                    dt = np.atleast_1d(blob).dtype
                 except ValueError:
                     dt = np.dtype("object")
                 if dt.kind in "US":
-- 
2.43.0


From 32f2c81581e42e7208a01f3d4dc18d6b1b2ebcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 28/38] fix: count an iteration only once it is stored

---
 pocomc/sampler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 979aa10..a44fc4a 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -510,6 +510,9 @@ class Sampler:
             # Save particles
             self.particles.update(self.current_particles)
 
+            # Update iteration index
+            self.t += 1
+
         # Compute evidence
         if self.n_evidence > 0 and self.preconditioned:
             self._compute_evidence(self.n_evidence)
@@ -651,7 +654,7 @@ class Sampler:
         u = current_particles.get("u")
         w = current_particles.get("weights")
 
-        if self.preconditioned and (self.t % self.train_frequency == 0 or current_particles.get("beta")==1.0 or self.flow_untrained):
+        if self.preconditioned and ((self.t + 1) % self.train_frequency == 0 or current_particles.get("beta")==1.0 or self.flow_untrained):
             self.flow_untrained = False
             self.flow.fit(numpy_to_torch(u),
                           weights=numpy_to_torch(w),
@@ -729,9 +732,8 @@ class Sampler:
         current_particles : dict
             Dictionary containing the updated particles.
         """
-        # Update iteration index
+        # Set iteration index
         current_particles["iter"] = self.t
-        self.t += 1
         self.pbar.update_iter()
 
         beta_prev = self.particles.get("beta", index=-1)
-- 
2.43.0


From 72be8ee269d24d7c5a8958445801b8d26dd54713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 29/38] fix: continue annealing after an interrupted iteration

---
 pocomc/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index a44fc4a..a86e55d 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -490,6 +490,9 @@ class Sampler:
             self.warmup = False
 
         # Run Sequential Monte Carlo
+        # An interrupted iteration does not count
+        self.current_particles["beta"] = self.particles.get("beta", index=-1)
+
         while self._not_termination(self.current_particles):
             if save_every is not None:
                 if (self.t - t0) % int(save_every) == 0 and self.t != t0:
-- 
2.43.0


From 08ea54b8642ca0766e99683efdf2b2922847091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 30/38] fix: evaluate the likelihood under the user's autograd
 mode

---
 pocomc/mcmc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pocomc/mcmc.py b/pocomc/mcmc.py
index 7ee28d5..efcc0cd 100644
--- a/pocomc/mcmc.py
+++ b/pocomc/mcmc.py
@@ -1,10 +1,8 @@
 import numpy as np
-import torch
 
 from .tools import numpy_to_torch, torch_to_numpy, flow_numpy_wrapper
 from .student import fit_mvstud
 
-@torch.no_grad()
 def preconditioned_pcn(state_dict: dict,
                        function_dict: dict,
                        option_dict: dict):
@@ -188,7 +186,6 @@ def preconditioned_pcn(state_dict: dict,
     return dict(u=u, x=x, logdetj=logdetj, logl=logl, logp=logp, blobs=blobs, efficiency=sigma, 
                 accept=np.mean(alpha), steps=i, calls=n_calls, proposal_scale=sigma)
 
-@torch.no_grad()
 def preconditioned_rwm(state_dict: dict,
                        function_dict: dict,
                        option_dict: dict):
-- 
2.43.0


From 0640540867dc6e4681a10f7d635b8aa89749f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 31/38] fix: do not swallow a StopIteration raised by the
 likelihood

---
 pocomc/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index a86e55d..2ed600c 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -832,7 +832,8 @@ class Sampler:
         elif self.pool is not None:
             results = list(self.distribute(self.log_likelihood, x))
         else:
-            results = list(map(self.log_likelihood, x))
+            # A StopIteration raised by the likelihood would silently end a map
+            results = [self.log_likelihood(xi) for xi in x]
 
 
         try:
-- 
2.43.0


From 904bdff1020a7428908cec213c6aa91a82fc1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 32/38] fix: do not share arrays with the user's likelihood and
 prior

---
 pocomc/sampler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 2ed600c..804d9ca 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -437,7 +437,7 @@ class Sampler:
 
         # Initialise particles
         if self.prior_samples is None:
-            self.prior_samples = self.sample_prior(self.n_prior)
+            self.prior_samples = np.array(self.sample_prior(self.n_prior))
             self.scaler.fit(self.prior_samples)
 
         if self.warmup:
@@ -449,7 +449,7 @@ class Sampler:
                 x = self.prior_samples[i*self.n_active:(i+1)*self.n_active]
                 u = self.scaler.forward(x)
                 logdetj = self.scaler.inverse(u)[1]
-                logp = self.log_prior(x)
+                logp = np.array(self.log_prior(x.copy()))
                 logl, blobs = self._log_like(x)
                 self.calls += self.n_active
 
@@ -827,8 +827,10 @@ class Sampler:
         blob : array_like
             Additional data (default is ``None``).
         """
+        # The likelihood may modify its argument or use the array it returns again
+        x = np.array(x)
         if self.vectorize:
-            return self.log_likelihood(x), None
+            return np.array(self.log_likelihood(x)), None
         elif self.pool is not None:
             results = list(self.distribute(self.log_likelihood, x))
         else:
@@ -900,7 +902,7 @@ class Sampler:
         x_q, logdetj = self.scaler.inverse(theta_q)
 
         # compute log prior
-        logp = self.log_prior(x_q)
+        logp = self.log_prior(x_q.copy())
 
         # samples outside the support of the prior have zero weight
         finite = np.isfinite(logp)
-- 
2.43.0


From 4a5b63b0cc17ba0276c07b0d4e4c53e240c183e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 33/38] fix: reject proposals with an infinite likelihood

---
 pocomc/sampler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 804d9ca..4df236e 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -830,7 +830,9 @@ class Sampler:
         # The likelihood may modify its argument or use the array it returns again
         x = np.array(x)
         if self.vectorize:
-            return np.array(self.log_likelihood(x)), None
+            logl = np.array(self.log_likelihood(x))
+            # As in the warm-up, infinite likelihoods are not valid
+            return np.where(np.isposinf(logl), -np.inf, logl), None
         elif self.pool is not None:
             results = list(self.distribute(self.log_likelihood, x))
         else:
@@ -868,7 +870,8 @@ class Sampler:
                 if len(axes):
                     blob = np.squeeze(blob, tuple(axes))
 
-        return logl, blob
+        # As in the warm-up, infinite likelihoods are not valid
+        return np.where(np.isposinf(logl), -np.inf, logl), blob
         
     def evidence(self):
         """
-- 
2.43.0


From 89a7fb3a736a03efa69244f497e1a7e285e4e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:43 +0000
Subject: [PATCH 34/38] fix: allow samplers to be pickled after a run and used
 without their pool

---
 pocomc/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 4df236e..5c280e6 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -936,6 +936,7 @@ class Sampler:
         Get state information for pickling.
         """
         state = self.__dict__.copy()
+        state['pbar'] = None  # Cannot be pickled
 
         try:
             # remove random module
@@ -943,8 +944,8 @@ class Sampler:
 
             # deal with pool
             if state['pool'] is not None:
-                del state['pool']  # remove pool
-                del state['distribute']  # remove `pool.map` function hook
+                state['pool'] = None  # remove pool
+                state['distribute'] = map  # remove `pool.map` function hook
         except:  # TODO use specific exception type
             pass
 
-- 
2.43.0


From 5c86f5ea969b5c9cbdcc4b87cbd5e03b8246cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 35/38] fix: run(progress=...) is honoured when a run is
 resumed

The display of a resumed run followed the setting stored in the state
file and ignored the argument given.
---
 pocomc/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index 5c280e6..cd6022b 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -404,6 +404,7 @@ class Sampler:
         """
         if resume_state_path is not None:
             self.load_state(resume_state_path)
+            self.progress = progress
             t0 = self.t
             # Initialise progress bar
             self.pbar = ProgressBar(self.progress, initial=t0)
-- 
2.43.0


From fee94c17453d1d287551005afeb231732f6b86ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 36/38] fix: do not call the likelihood with an empty batch in
 the evidence estimate

When no draw of the flow is inside the prior there is nothing to evaluate.
---
 pocomc/sampler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index cd6022b..fe2f02c 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -911,12 +911,11 @@ class Sampler:
         # samples outside the support of the prior have zero weight
         finite = np.isfinite(logp)
 
-        # compute log likelihood
-        logl, _ = self._log_like(x_q[finite])
-
-        # compute log weights
+        # compute log likelihood and log weights
         logw = np.full(len(x_q), -np.inf)
-        logw[finite] = logl + logp[finite] + logdetj[finite] - logq[finite]
+        if np.any(finite):
+            logl, _ = self._log_like(x_q[finite])
+            logw[finite] = logl + logp[finite] + logdetj[finite] - logq[finite]
         logw[np.isnan(logw)] = -np.inf
 
         # compute log evidence
-- 
2.43.0


From 2c3d40fe42b0da1a4d315a6b979811da2549d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:12 +0000
Subject: [PATCH 37/38] fix: store the values of a vectorized likelihood in
 double precision

As those of any other likelihood; values in extended precision ended the
run with a TypeError.
---
 pocomc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index fe2f02c..e3a490c 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -831,7 +831,7 @@ class Sampler:
         # The likelihood may modify its argument or use the array it returns again
         x = np.array(x)
         if self.vectorize:
-            logl = np.array(self.log_likelihood(x))
+            logl = np.array(self.log_likelihood(x), dtype=float)
             # As in the warm-up, infinite likelihoods are not valid
             return np.where(np.isposinf(logl), -np.inf, logl), None
         elif self.pool is not None:
-- 
2.43.0


From 9964fb77324d7719707c5ebece0e2ed6aa8870df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 38/38] fix: keep samples and log-priors in double precision
 whatever the prior returns

With a prior that draws single-precision (or integer) numbers every later
sample was rounded to that type, and no longer the point evaluated.
---
 pocomc/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pocomc/sampler.py b/pocomc/sampler.py
index e3a490c..9a5565b 100644
--- a/pocomc/sampler.py
+++ b/pocomc/sampler.py
@@ -438,7 +438,7 @@ class Sampler:
 
         # Initialise particles
         if self.prior_samples is None:
-            self.prior_samples = np.array(self.sample_prior(self.n_prior))
+            self.prior_samples = np.array(self.sample_prior(self.n_prior), dtype=float)
             self.scaler.fit(self.prior_samples)
 
         if self.warmup:
@@ -450,7 +450,7 @@ class Sampler:
                 x = self.prior_samples[i*self.n_active:(i+1)*self.n_active]
                 u = self.scaler.forward(x)
                 logdetj = self.scaler.inverse(u)[1]
-                logp = np.array(self.log_prior(x.copy()))
+                logp = np.array(self.log_prior(x.copy()), dtype=float)
                 logl, blobs = self._log_like(x)
                 self.calls += self.n_active
 
-- 
2.43.0

