From 6e5cbc9ef5dc5e9cbb9dea775070aefe6e9dbb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 01/50] fix: MultiConstraint without constraints solves with
 the identity

DriftConstrainedCBO without constraints never moved its particles.
---
 cbx/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index ab802b4..6a2ce4b 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -74,7 +74,7 @@ class MultiConstraint:
                 factor = factor
             )
         else:
-            return 0
+            return x_tilde
     
 class Constraint:
     def squared(self, x):
-- 
2.43.0


From 01e9cc66e3a3af1b28dabd9e20caa6f86115835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 02/50] fix: the initial entry of history['x'] is a copy

It aliased the particles, which the first step updates in place.
---
 cbx/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index d0b1195..00bf79f 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -72,7 +72,7 @@ class track_x(track):
     @staticmethod
     def init_history(dyn) -> None:
         dyn.history['x'] = []
-        dyn.history['x'].append(dyn.x)
+        dyn.history['x'].append(dyn.copy(dyn.x))
     
     @staticmethod
     def update(dyn) -> None:
-- 
2.43.0


From ffee03b720b2c4e9561621c862584be125896546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 03/50] fix: do not append trackers to the caller's
 extra_tracks list

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7ed2cc7..0094300 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -476,7 +476,7 @@ class ParticleDynamic:
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
         self.history = {}
-        self.tracks = extra_tracks
+        self.tracks = list(extra_tracks)
         self.track_it = 0
         for key in track_names:
             if key in self.known_tracks.keys():
-- 
2.43.0


From 42a52feedb5b35d40126588454456100c3d15928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 04/50] fix: keep the result of nan_to_num in the default post
 processing

With copy_nan_to_num=True (RegCombinationCBO) the result was thrown away and
NaN particles survived.
---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 0094300..dc3403b 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -39,7 +39,7 @@ class post_process_default:
         self.copy_nan_to_num = copy_nan_to_num
     
     def __call__(self, dyn):
-        np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
+        dyn.x = np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
         dyn.x = np.clip(dyn.x, -self.max_thresh, self.max_thresh)
 
 class ParticleDynamic:
-- 
2.43.0


From a2c12182c61bf324e321dcbbcb951359f0d5809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 05/50] fix: reset() keeps the configured tracking

It replaced the requested names, extra tracks and save_int by the defaults.
---
 cbx/dynamics/pdyn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index dc3403b..a2a3979 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -471,7 +471,9 @@ class ParticleDynamic:
         Returns:
             None
         """
-        track_args = track_args if track_args else {}  
+        if track_args is not None:
+            self.track_args = track_args
+        track_args = getattr(self, 'track_args', None) or {}
         track_names = track_args.get('names', ['update_norm', 'energy'])
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
-- 
2.43.0


From 23e31956d15e3bed3743d407770f0813683bff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 06/50] fix: covariance noise with terminated runs and with
 batches

Weights and noise factor used all runs and particles instead of the updated ones.
---
 cbx/dynamics/pdyn.py | 2 +-
 cbx/noise.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index a2a3979..15f8b45 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -901,7 +901,7 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha * self.energy
+        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/noise.py b/cbx/noise.py
index 6c701d1..04bff2d 100644
--- a/cbx/noise.py
+++ b/cbx/noise.py
@@ -197,7 +197,7 @@ class covariance_noise(noise):
          
         def lamda(self, dyn):
             if self.mode == 'sampling':
-                return 1/(1 + dyn.alpha)
+                return 1/(1 + dyn.alpha[dyn.active_runs_idx, :])
             else:
                 return 1
         
-- 
2.43.0


From e3a5d7078c4391a1236a6b2a80deaecdddfb680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 07/50] fix: covariance of PolarCBO for several runs

The weights were not aligned with the run axis, so M > 1 failed.
---
 cbx/dynamics/polarcbo.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 9dbaa45..4801a4d 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -262,10 +262,20 @@ class PolarCBO(CBO):
         None.
     
         """
-        weights = - self.kernel_factor() * self.neg_log_eval - self.alpha * self.energy
+        weights = (
+            - self.kernel_factor() * self.neg_log_eval 
+            - self.alpha[self.active_runs_idx, :, None] * self.energy[self.consensus_idx][:, None, :]
+        )
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
-        D = self.drift[...,None] * self.drift[...,None,:]
-        D = np.sum(D * coeffs[..., None, None], axis = -3)
+        drift = self.drift
+        if self.batched and not self.batch_partial: # only the batch has weights
+            drift = drift[
+                np.arange(self.num_active_runs)[:, None], 
+                self.batch_idx[self.active_runs_idx, :], 
+                ...
+            ]
+        D = drift[...,None] * drift[...,None,:]
+        D = np.sum(D[:, None, ...] * coeffs[..., None, None], axis = -3)
         self.Cov_sqrt = compute_mat_sqrt(D)
         
\ No newline at end of file
-- 
2.43.0


From 32408a815ff08b5542bc339cb3241b53d55b4d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 08/50] fix: PolarCBO consensus of every updated particle for
 non-partial batches

The consensus was only computed for the batch, the update then failed.
---
 cbx/dynamics/polarcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 4801a4d..adc6872 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -239,7 +239,9 @@ class PolarCBO(CBO):
     def compute_consensus(self,):
         x = self.x[self.consensus_idx]
         energy = self.eval_f(x)
-        self.neg_log_eval = self.kernel.neg_log(x[:,None,...], x[:,:,None,...])
+        self.neg_log_eval = self.kernel.neg_log(
+            x[:,None,...], self.x[self.particle_idx][:,:,None,...]
+        )
         
         
         
-- 
2.43.0


From 046088fa7e94c301dc04b2e5fc2740664015916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 09/50] fix: normalize the Taz kernel per run

The maximum over all runs coupled the runs; a collapsed ensemble gave 0/0.
---
 cbx/dynamics/polarcbo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index adc6872..7ac2c38 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -138,7 +138,10 @@ class Taz_kernel(kernel):
     
     def neg_log(self, x,y):
         dists = np.linalg.norm(x-y, axis=-1,ord=2)
-        dists =  np.true_divide(1, self.kappa) *  dists/np.max(dists)
+        # normalize by the largest distance within each run
+        max_dist = np.max(dists, axis=(-2,-1), keepdims=True)
+        max_dist = np.where(max_dist > 0, max_dist, 1.)
+        dists =  np.true_divide(1, self.kappa) *  dists/max_dist
         return  dists**2
 
 #%% PolarCBO
-- 
2.43.0


From d3f83eeab12b845dc48e72610c20d154a707c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 10/50] fix: CBOMemory with batches and with terminated runs

The stored energies were not restricted to the updated particles.
---
 cbx/dynamics/cbo_memory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index b1133cb..b6b5282 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -104,11 +104,12 @@ class CBOMemory(CBO):
         energy_new = self.eval_f(self.x[self.particle_idx])  
         
         # historical best positions of particles 
+        energy_old = self.energy[self.particle_idx]
         self.y[self.particle_idx] += (
-            ((self.energy>energy_new)[self.ergexp]) * 
+            ((energy_old>energy_new)[self.ergexp]) * 
             (self.x[self.particle_idx] - self.y[self.particle_idx])
         )
-        self.energy = np.minimum(self.energy, energy_new)
+        self.energy[self.particle_idx] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self,) -> None:
@@ -124,7 +125,7 @@ class CBOMemory(CBO):
 
         """
         self.consensus, _ = self._compute_consensus(
-            self.energy, self.y[self.consensus_idx], 
+            self.energy[self.consensus_idx], self.y[self.consensus_idx], 
             self.alpha[self.active_runs_idx, :]
         )
     
-- 
2.43.0


From d0f28a6beadb388bf6bbc4f7a232c5ed624ecbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 11/50] fix: CBOMemory reports the position its best energy
 belongs to

The stored energies belong to the historical best positions y, not to x.
---
 cbx/dynamics/cbo_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index b6b5282..71aaafd 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -133,6 +133,6 @@ class CBOMemory(CBO):
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
         
-        self.best_cur_particle = self.x[np.arange(self.M), self.f_min_idx, :]
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
         self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
         
\ No newline at end of file
-- 
2.43.0


From 03d1e295cfe245a6400a4118503b607de6851e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 12/50] fix: PSO with batches and with terminated runs

The stored energies were not restricted to the updated particles and every run
was charged for the evaluations, also the terminated ones.
---
 cbx/dynamics/pso.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 8e4db0d..c7c00b5 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -135,13 +135,13 @@ class PSO(CBXDynamic):
         self.x[ind] = self.x[ind] + self.dt * self.v[ind]
         
         # evaluation of objective function on all particles
-        energy_new = self.f(self.x[ind])    
-        self.num_f_eval += np.ones(self.M, dtype =int) * self.x[ind].shape[-2] # update number of function evaluations   
+        energy_new = self.eval_f(self.x[ind])
+        energy_old = self.energy[ind]
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((self.energy>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
-        self.energy = np.minimum(self.energy, energy_new)
+        self.y[ind] = self.y[ind] + ((energy_old>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
+        self.energy[ind] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self, x_batch, energy) -> None:
-- 
2.43.0


From c71bb32025c8360f1827727e4c1e1ec8307d30cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 13/50] fix: PSO reports the position its best energy belongs
 to

The stored energies belong to the historical best positions y, not to the
positions before the step.
---
 cbx/dynamics/pso.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index c7c00b5..4fa2671 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -161,4 +161,11 @@ class PSO(CBXDynamic):
         """
         c, _ = self._compute_consensus(energy, x_batch, self.alpha[self.active_runs_idx, :])
         return c
+    
+    def update_best_cur_particle(self,) -> None:
+        self.f_min = self.energy.min(axis=-1)
+        self.f_min_idx = self.energy.argmin(axis=-1)
         
+        # the energies belong to the historical best positions
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
+        self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
-- 
2.43.0


From 00b4bf3df06aa2e73484c052f4d05796c76a5cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 14/50] fix: PSO drifts towards the consensus and the
 historical bests

The drift x - c entered the velocity with a positive sign, so particles were
repelled from the consensus (without noise the ensemble spreads). The inertia
term of the semi-implicit scheme in [1] and [2] is m * v, without dt.
---
 cbx/dynamics/pso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 4fa2671..c86e5b6 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -125,8 +125,8 @@ class PSO(CBXDynamic):
         # dynamcis update
         # velocities of particles
         self.v[ind] = (
-            self.m * self.dt * self.v[ind] +
-            self.correction(self.lamda * self.dt * consensus_drift) +
+            self.m * self.v[ind] -
+            self.correction(self.lamda * self.dt * consensus_drift) -
             self.lamda_memory * self.dt * memory_drift +
             self.s_consensus + 
             self.s_memory)/(self.m+self.gamma*self.dt)
-- 
2.43.0


From af59560f2a2860f505b112ce4af73c5584de7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 15/50] fix: Heaviside correction with batches and with
 terminated runs

The correction compared the energies of all particles, and every run was
charged with one evaluation per run instead of one per consensus point.
---
 cbx/correction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index 48d60ad..a076f0f 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -73,8 +73,9 @@ class heavi_side_correction(correction):
         .. note::
             This function evaluates the objective function on the consensus, therfore the number of function evaluations is increased by the consensus size.
         """
-        dyn.num_f_eval += dyn.consensus.shape[0] # update number of function evaluations
-        return self.correct(x, dyn.f, dyn.energy, dyn.consensus)
+        # update number of function evaluations
+        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1]
+        return self.correct(x, dyn.f, dyn.energy[dyn.particle_idx], dyn.consensus)
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-- 
2.43.0


From 63726f6def2c6bfd444b337dd9bb2d89aa33ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 16/50] fix: energy stagnation criterion for several runs

It failed for more than one run and after a run terminated.
---
 cbx/utils/termination.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 9b4ff2d..acd5851 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -121,10 +121,11 @@ class energy_stagnation_term:
         if dyn.consensus is None: 
             return np.zeros((dyn.M), dtype=bool)
         # eval loss
-        E = dyn.f(dyn.consensus[dyn.active_runs_idx, ...])
-        dyn.num_f_eval[dyn.active_runs_idx] += 1
+        # (the consensus only has rows for the active runs)
+        E = dyn.f(dyn.consensus)
+        dyn.num_f_eval[dyn.active_runs_idx] += E.shape[-1]
         # update losses
-        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E
+        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
         return np.std(self.losses, axis=0) < self.std_thresh
     
 term_dict.update(
-- 
2.43.0


From f862783e4d92fc09b7d2e2f5d70619e0699c8c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 17/50] fix: one update norm per run for multi-dimensional
 domains

For x of shape (M,N,d1,d2) update_diff had the shape (M,N), which broke
diff-tol and the update_norm history.
---
 cbx/dynamics/pdyn.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 15f8b45..20516c4 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -283,7 +283,7 @@ class ParticleDynamic:
             None
         """
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.compute_update_diff()
         
         self.update_best_cur_particle()
         self.update_best_particle()
@@ -291,6 +291,12 @@ class ParticleDynamic:
         self.post_process(self)
         self.it+=1
         
+    def compute_update_diff(self,):
+        diff = self.x - self.x_old
+        if diff.ndim > 3: # multi-dimensional domain, one norm per run
+            return self.norm(diff.reshape(self.M, -1), axis=-1)/self.N
+        return self.norm(diff, axis=(-2,-1))/self.N
+        
     def step(self,) -> None:
         """
         Execute a step in the dynamic.
@@ -921,7 +927,7 @@ class CBXDynamic(ParticleDynamic):
     def post_step(self):
         self.post_process(self)
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.compute_update_diff()
         
         self.update_best_cur_particle()
         self.update_best_particle()
-- 
2.43.0


From 8565a634e4b3a58dd00a3864dcc3af7dc17b7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 18/50] fix: the seed also determines random initial particles

They were drawn from the global generator, so equal seeds gave different runs.
---
 cbx/dynamics/pdyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 20516c4..3414fef 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -175,6 +175,7 @@ class ParticleDynamic:
         self.norm = norm if norm is not None else np.linalg.norm
         rng = np.random.default_rng(self.seed)
         self.sampler = sampler if sampler is not None else rng.standard_normal
+        self.init_sampler = np.random.uniform if self.seed is None else rng.uniform
         
     def init_x(self, x, M, N, d):
         """
@@ -208,7 +209,7 @@ class ParticleDynamic:
         
         
     def init_particles(self, shape=None):
-        return np.random.uniform(-1., 1., size=shape)
+        return self.init_sampler(-1., 1., size=shape)
 
     def init_f(self, f, f_dim, check_f_dims):
         self.f = _promote_objective(f, f_dim)
-- 
2.43.0


From e10207dd0da589a48c04924fcd77ff6e9bc8a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 19/50] fix: energy stagnation criterion evaluates once per
 step

Calling terminate() or optimize() again after runs terminated failed, since the
consensus still had the rows of the last step.
---
 cbx/utils/termination.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index acd5851..ae9d887 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -113,6 +113,7 @@ class energy_stagnation_term:
     def __init__(self, patience=20, std_thresh=1e-9):
         self.patience = patience
         self.losses = None
+        self.last_it = None
         self.std_thresh = std_thresh
         
     def __call__(self, dyn):
@@ -120,12 +121,14 @@ class energy_stagnation_term:
             self.losses = np.full((self.patience, dyn.M), np.inf)
         if dyn.consensus is None: 
             return np.zeros((dyn.M), dtype=bool)
-        # eval loss
-        # (the consensus only has rows for the active runs)
-        E = dyn.f(dyn.consensus)
-        dyn.num_f_eval[dyn.active_runs_idx] += E.shape[-1]
-        # update losses
-        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
+        if dyn.it != self.last_it: # only once per step
+            self.last_it = dyn.it
+            # eval loss
+            # (the consensus only has rows for the active runs)
+            E = dyn.f(dyn.consensus)
+            dyn.num_f_eval[dyn.active_runs_idx] += E.shape[-1]
+            # update losses
+            self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
         return np.std(self.losses, axis=0) < self.std_thresh
     
 term_dict.update(
-- 
2.43.0


From 93c59731b2edf47a7562c1e97ea315e417829b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 20/50] fix: LogBarrierBox.grad_conj at zero

It returned NaN for y = 0, which the post processing turned into 1e8.
---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9cc0a05..407bf6d 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -125,7 +125,7 @@ class LogBarrierBox(MirrorMap):
         return 1/(1-theta) - 1/(1+theta)
     
     def grad_conj(self, y):
-        return -1/y + 1/y * np.sqrt(1 + y**2)
+        return y/(1 + np.sqrt(1 + y**2))
     
     def hessian(self, theta):
         n,m = theta.shape
-- 
2.43.0


From 5d501be76da126aeb70a25ca34f9b381ed1f1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 21/50] fix: overflow in NegativeLogEntropySimplex.grad_conj

Large dual variables gave inf/inf, i.e., particles off the simplex.
---
 cbx/dynamics/mirrorcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 407bf6d..04889c8 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -138,7 +138,9 @@ class NegativeLogEntropySimplex(MirrorMap):
         return np.log(x) + 1
     
     def grad_conj(self, y):
-        return np.exp(y)/(np.exp(y).sum(axis=-1, keepdims=True))
+        # shift by the maximum for numerical stability
+        z = np.exp(y - np.max(y, axis=-1, keepdims=True))
+        return z/z.sum(axis=-1, keepdims=True)
     
     
     
-- 
2.43.0


From fb8a36148b1d0d8d996c38e841dacb942ff8b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 22/50] fix: ProjectionSquare projects to the square of radius
 r

The radius was ignored for the active coordinate.
---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 04889c8..dd7d47a 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -100,7 +100,7 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = np.sign(y[np.arange(y.shape[0]), idx])
+        y[np.arange(y.shape[0]), idx] = self.r * np.sign(y[np.arange(y.shape[0]), idx])
         return y.reshape(s)
 
 
-- 
2.43.0


From f22d0026f0fcbf5be9647a56c9a7a0f95cbf0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 23/50] fix: historical best positions are taken over exactly

y + (x - y) rounds, so y no longer had the stored energy, and a single infinite
x turned the remembered y into NaN (0 * inf) although it was no improvement.
---
 cbx/dynamics/cbo_memory.py | 8 ++++----
 cbx/dynamics/pso.py        | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 71aaafd..d6f2030 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -105,10 +105,10 @@ class CBOMemory(CBO):
         
         # historical best positions of particles 
         energy_old = self.energy[self.particle_idx]
-        self.y[self.particle_idx] += (
-            ((energy_old>energy_new)[self.ergexp]) * 
-            (self.x[self.particle_idx] - self.y[self.particle_idx])
-        )
+        improved = energy_old > energy_new
+        y = self.y[self.particle_idx]
+        y[improved] = self.x[self.particle_idx][improved]
+        self.y[self.particle_idx] = y
         self.energy[self.particle_idx] = np.minimum(energy_old, energy_new)
 
         
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index c86e5b6..6e80894 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -139,8 +139,10 @@ class PSO(CBXDynamic):
         energy_old = self.energy[ind]
         
         # historical best positions of particles
-        energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((energy_old>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
+        improved = energy_old > energy_new
+        y = self.y[ind]
+        y[improved] = self.x[ind][improved]
+        self.y[ind] = y
         self.energy[ind] = np.minimum(energy_old, energy_new)
 
         
-- 
2.43.0


From e022a5a8b869cd270d8e60fcba7d1eafa07f229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 24/50] fix: DriftConstrainedCBO with batches and with
 terminated runs

The step ignored particle_idx: it failed, or moved particles that were not to be
updated.
---
 cbx/dynamics/driftconstrainedcbo.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ee2552b..ff2abbb 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -8,16 +8,17 @@ def solve_system(A, x):
 #%%
 def dc_inner_step(self,):
     self.compute_consensus()
-    self.drift = self.x - self.consensus
+    x = self.x[self.particle_idx]
+    self.drift = x - self.consensus
     noise = self.sigma * self.noise()
-    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(self.x)
+    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(x)
     scaled_drift = self.lamda * self.dt * self.drift
     
     x_tilde = scaled_drift + const_drift + noise
     # A = np.eye(self.d[0]) + (self.dt/ self.eps) * self.G.hessian_squared_sum(self.x)
     # self.x -= solve_system(A, x_tilde)
-    self.x -= self.G.solve_Id_hessian_squared_sum(
-        self.x, x_tilde, factor=(self.dt/ self.eps)
+    self.x[self.particle_idx] -= self.G.solve_Id_hessian_squared_sum(
+        x, x_tilde, factor=(self.dt/ self.eps)
     )
 
 
-- 
2.43.0


From f5ecd2e9cc8327a4f5a80b6dc805fb5fc6469e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 25/50] fix: independent noise of DriftConstrainedCBO with
 terminated runs

It failed or moved terminated runs, ignored the sampler of the dynamic, and was
applied after the old positions were saved, so that the best particle did not
have the best energy.
---
 cbx/dynamics/driftconstrainedcbo.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ff2abbb..9a47d74 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -47,19 +47,31 @@ class DriftConstrainedCBO(CBO):
         self.sigma_indep = sigma_indep
         
         
-    def inner_step(self,):
+    def pre_step(self,):
+        # the independent noise acts before the old positions are saved, since 
+        # the objective is evaluated on the perturbed particles
         self.indep_noise_step()
+        super().pre_step()
+        
+    def inner_step(self,):
         dc_inner_step(self)
+        # consensus points of the last step each run took part in
+        if not hasattr(self, 'last_consensus'):
+            self.last_consensus = np.full_like(self.x[:, :1, ...], np.nan)
+        self.last_consensus[self.active_runs_idx, ...] = self.consensus
         
     def indep_noise_step(self,):
-        if self.sigma_indep > 0 and (self.consensus is not None):
+        if self.sigma_indep > 0 and hasattr(self, 'last_consensus'):
             while True:
-                cxd = (np.linalg.norm(self.x - self.consensus, axis=-1)**2).mean(axis=-1)/self.d[0]
-                idx = np.where(cxd < self.eps_indep)
-                if len(idx[0]) == 0:
+                act = self.active_runs_idx
+                cxd = (
+                    np.linalg.norm(self.x[act, ...] - self.last_consensus[act, ...], axis=-1)**2
+                ).mean(axis=-1)/self.d[0]
+                idx = act[cxd < self.eps_indep]
+                if len(idx) == 0:
                     break
-                z = np.random.normal(0,1, size=((len(idx[0]),) + self.x.shape[1:]))
-                self.x[idx[0], ...] += (
+                z = self.sampler(size=((len(idx),) + self.x.shape[1:]))
+                self.x[idx, ...] += (
                     self.sigma_indep * 
                     self.dt**0.5 * 
                     z
-- 
2.43.0


From 790dd8d2d4e5a1d2563c97261c8f857670dc1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 26/50] fix: HyperSurfaceCBO with batches and with terminated
 runs

The step ignored particle_idx.
---
 cbx/dynamics/hypersurfacecbo.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 39b5dd7..6bc6d87 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -121,7 +121,8 @@ class HyperSurfaceCBO(CBO):
         
     def inner_step(self,):
         self.compute_consensus() # compute consensus, sets self.energy and self.consensus
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         
         # compute relevant terms for update
         # dir_drift = self.x + self.dt * apply_proj(Px, self.consensus)
@@ -129,30 +130,31 @@ class HyperSurfaceCBO(CBO):
         
         # perform addition before matrix multiplaction to save time
         drift_and_noise = (
-            self.x + 
+            x + 
             self.sdf.proj_tangent_space(
-                self.x, 
+                x, 
                 self.dt * self.consensus + 
                 self.sigma * self.noise())
         )
         
         x_tilde = drift_and_noise - self.noise_constr()
-        self.x = self.sdf.proj(x_tilde)
+        self.x[self.particle_idx] = self.sdf.proj(x_tilde)
         
     def noise_constr_iso(self,):
         return (
-            self.dt * self.sigma**2/2 * self.sdf.Laplacian(self.x) *
+            self.dt * self.sigma**2/2 * self.sdf.Laplacian(self.x[self.particle_idx]) *
             np.linalg.norm(self.drift, axis=-1, keepdims=True)**2 * 
             # note that in the implementation here:
             # https://github.com/PhilippeSu/KV-CBO/blob/master/v2/kvcbo/KuramotoIteration.m
             # norm(drift)**2 is used instead of drift**2
             #self.drift**2 *
-            self.sdf.grad(self.x)
+            self.sdf.grad(self.x[self.particle_idx])
         )
     
     def noise_constr_aniso(self,):
+        x = self.x[self.particle_idx]
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * self.x).sum(axis=-1, keepdims=True)**2
-            ) * self.x
\ No newline at end of file
+            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            ) * x
\ No newline at end of file
-- 
2.43.0


From db83147f4d7c08dcfbbaad83b464f0b89a6d4ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 27/50] fix: RegCombinationCBO with batches and with terminated
 runs

The step ignored particle_idx.
---
 cbx/dynamics/regcombinationcbo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cbx/dynamics/regcombinationcbo.py b/cbx/dynamics/regcombinationcbo.py
index 0660621..205d2c8 100644
--- a/cbx/dynamics/regcombinationcbo.py
+++ b/cbx/dynamics/regcombinationcbo.py
@@ -23,21 +23,22 @@ class RegCombinationCBO(CBO):
     
     def inner_step(self, ):
         self.compute_consensus()
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         noise = self.sigma * self.noise()
 
         #  update particle positions
         
-        x_tilde = self.x - self.lamda * self.dt * self.drift + noise
+        x_tilde = x - self.lamda * self.dt * self.drift + noise
         if self.eps < 1e15:
-            self.x = self.G.solve_Id_plus_call_grad(
-                self.x,
+            self.x[self.particle_idx] = self.G.solve_Id_plus_call_grad(
+                x,
                 x_tilde,
                 factor = self.dt / self.eps
             )
             #self.x = solve_system(A, x_tilde)
         else:
-            self.x = x_tilde
+            self.x[self.particle_idx] = x_tilde
 
     def set_post_process(self, post_process):
         self.post_process = (
-- 
2.43.0


From 122fcf71b6f51bcca8013fe39a2ddebd099baccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 28/50] fix: regularized objectives with terminated runs

The scalar parameter was broadcast to all runs on the first call, so evaluations
on the remaining active runs failed. Only the scheduler needs one value per run.
---
 cbx/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 520195e..aa83c4c 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -75,7 +75,6 @@ class regularize_objective:
         self.p = p
         
     def __call__(self, x):
-        self.broadcast_lamda(x)
         return self.original_func(x) + self.lamda * self.reg_func(x) ** self.p
     
     def broadcast_lamda(self, x):
@@ -124,6 +123,7 @@ class regularization_paramter_scheduler(param_update):
         
     def update(self, dyn):
         self.broadcast_params(dyn.x)
+        dyn.f.broadcast_lamda(dyn.x)
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
         self.theta[t] *= self.factor_theta
-- 
2.43.0


From 746d9b019c5adb9d405fed5e77aba2e87cb7c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 29/50] fix: plots of consensus and drift with batches and with
 terminated runs

Consensus and drift only have rows for the updated runs, so another run was
shown (or the plot failed). A changing number of arrows failed as well.
---
 cbx/plotting.py | 80 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index 6eb3914..9fd318a 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -131,7 +131,7 @@ class PlotDynamic:
                 c = self.dyn.x
             else:
                 c = self.dyn.consensus
-            self.init_consensus(c)
+            self.init_consensus(c, self.dyn.particle_idx if c is self.dyn.consensus else None)
 
         if self.plot_drift:
             if not hasattr(self.dyn, 'drift') or self.dyn.drift is None:
@@ -181,7 +181,7 @@ class PlotDynamic:
         y, 
         **self.particle_args)
         
-    def init_consensus(self, c):
+    def init_consensus(self, c, pidx=None):
         """
         Initializes the consensus plot.
 
@@ -189,19 +189,24 @@ class PlotDynamic:
         ----------
         c
             The consensus points to plot.
+        pidx
+            The indices of the updated particles.
         
         Returns
         -------
         None
         """
 
+        row = self.get_row(pidx)
+        if row is None: # the run was not updated
+            c, row = c[:1, :0], 0
         if self.d == 1:
-            y = np.zeros_like(c[self.num_run, :, self.dims[0]])
+            y = np.zeros_like(c[row, :, self.dims[0]])
         else:
-            y = c[self.num_run, :, self.dims[1]]
+            y = c[row, :, self.dims[1]]
 
         self.scc = self.ax.scatter(
-            c[self.num_run, :, self.dims[0]], 
+            c[row, :, self.dims[0]], 
             y,
             **self.consensus_args)
         
@@ -227,12 +232,31 @@ class PlotDynamic:
             warnings.warn('Drift plot not supported for 1D data.', stacklevel=2)
             self.plot_drift = False
         else:
+            row = self.get_row(pidx)
+            if row is None: # the run was not updated
+                x, dr, pidx, row = x[:, :0], x[:, :0], Ellipsis, self.num_run
             self.quiver = self.ax.quiver(
-                x[pidx][..., self.dims[0]][self.num_run,:], 
-                x[pidx][..., self.dims[1]][self.num_run,:], 
-                -dr[self.num_run, :, self.dims[0]], 
-                -dr[self.num_run, :, self.dims[1]],
+                x[pidx][..., self.dims[0]][row,:], 
+                x[pidx][..., self.dims[1]][row,:], 
+                -dr[row, :, self.dims[0]], 
+                -dr[row, :, self.dims[1]],
                 **self.drift_args)
+            
+    def get_row(self, pidx):
+        """
+        Drift and consensus only have rows for the runs that were updated. Returns the row of
+        the plotted run, or None if the run was not updated.
+        
+        Parameters
+        ----------
+        pidx
+            The indices of the updated particles.
+        """
+        if not isinstance(pidx, tuple):
+            return self.num_run
+        runs = np.asarray(pidx[0])
+        rows = np.where(runs.reshape(runs.shape[0], -1)[:, :1] == self.num_run)[0]
+        return rows[0] if len(rows) > 0 else None
         
     def update(self, wait=0.1):
         """
@@ -250,7 +274,7 @@ class PlotDynamic:
 
         self.plot_particles(self.dyn.x_old)
         if self.plot_consensus:
-            self.plot_c(self.dyn.consensus)
+            self.plot_c(self.dyn.consensus, self.dyn.particle_idx)
         if self.plot_drift:
             self.plot_d(self.dyn.x_old, self.dyn.drift, self.dyn.particle_idx)
 
@@ -280,7 +304,7 @@ class PlotDynamic:
 
         self.scx.set_offsets(z)
         
-    def plot_c(self, c):
+    def plot_c(self, c, pidx=None):
         """
         Plots consensus.
 
@@ -288,18 +312,21 @@ class PlotDynamic:
         ----------
         c
             The consensus to plot.
+        pidx
+            The indices of the updated particles.
 
         Returns
         -------
         None
         """
 
-        if self.plot_consensus and c is not None:
+        row = self.get_row(pidx)
+        if self.plot_consensus and c is not None and row is not None:
             if self.d == 1:
-                z = np.stack([c[self.num_run, ...][:, 0],
-                              np.zeros_like(c[self.num_run, ...][:, 0])], axis=-1)
+                z = np.stack([c[row, ...][:, 0],
+                              np.zeros_like(c[row, ...][:, 0])], axis=-1)
             else:
-                z = c[self.num_run, ...][:, self.dims]
+                z = c[row, ...][:, self.dims]
 
             self.scc.set_offsets(z)
         
@@ -324,13 +351,18 @@ class PlotDynamic:
         if pidx is None:
             pidx = Ellipsis
 
-        if self.plot_drift:
+        row = self.get_row(pidx)
+        if self.plot_drift and row is not None:
+            if self.quiver.N != dr.shape[1]: # number of arrows changed
+                self.quiver.remove()
+                self.init_drift(x, dr, pidx)
+                return
             self.quiver.set_offsets(
-                np.array([x[pidx][..., self.dims[0]][self.num_run, :], 
-                          x[pidx][..., self.dims[1]][self.num_run, :]]).T)
+                np.array([x[pidx][..., self.dims[0]][row, :], 
+                          x[pidx][..., self.dims[1]][row, :]]).T)
             self.quiver.set_UVC(
-                -dr[self.num_run, :, self.dims[0]], 
-                -dr[self.num_run, :, self.dims[1]])
+                -dr[row, :, self.dims[0]], 
+                -dr[row, :, self.dims[1]])
             
             
 
@@ -391,11 +423,15 @@ class PlotDynamicHistory(PlotDynamic):
         self.plot_objective()
         self.init_x(self.x[0])
         if self.plot_consensus:
-            self.init_consensus(self.c[0])
+            self.init_consensus(self.c[0], self.get_pidx(0))
 
         if self.plot_drift:
             self.init_drift(self.x[0], self.dr[0], self.pidx[0])
 
+    def get_pidx(self, i):
+        pidx = self.dyn.history.get('particle_idx', [])
+        return pidx[i] if i < len(pidx) else None
+
     def plot_at_ind(self, i):
         """
         Plots the dynamic at iteration i.
@@ -412,7 +448,7 @@ class PlotDynamicHistory(PlotDynamic):
         self.plot_particles(self.x[i])
 
         if self.plot_consensus:
-            self.plot_c(self.c[i])
+            self.plot_c(self.c[i], self.get_pidx(i))
         if self.plot_drift:
             self.plot_d(self.x[i], self.dr[i], self.pidx[i])
 
-- 
2.43.0


From cf72dd404579a599ba4d20a90d37792958a681a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 30/50] fix: resampling of terminated runs

Terminated runs were perturbed as well, and the best consensus was looked up by
the index of the run although the consensus only has rows for active runs. The
evaluations were charged to all active runs.
---
 cbx/utils/resampling.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index a06a08a..6708acb 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -51,6 +51,7 @@ class resampling:
         """
         self.check_num_resamplings(dyn.M)
         idx = np.unique(np.concatenate([r(dyn) for r in self.resamplings]))
+        idx = np.intersect1d(idx, dyn.active_runs_idx).astype(int) # only active runs
         if len(idx)>0:
             self.apply(dyn, idx, var_name = self.var_name, sigma_indep = self.sigma_indep)
             self.num_resampling[idx] += 1
@@ -66,20 +67,20 @@ class resampling:
     def _track_best_consensus(self, dyn, idx):
         if not self.track_best_consensus:
             return
-        consensus_energy = dyn.eval_f(dyn.consensus[idx, ...])
+        # the consensus only has rows for the active runs
+        consensus = dyn.consensus[np.searchsorted(dyn.active_runs_idx, idx), ...]
+        consensus_energy = dyn.to_numpy(dyn.f(consensus))
+        dyn.num_f_eval[idx] += consensus.shape[1]
         
         if not hasattr(self, 'best_consensus'):
-            self.best_consensus = dyn.copy(dyn.consensus)
-            self.best_consensus_energy = np.inf * np.ones((dyn.M,1))
-            self.best_consensus_energy[idx, ...] = consensus_energy
-        else:
-            idx2 = np.where(
-                consensus_energy < self.best_consensus_energy[idx, ...]
-                )[0]
-            self.best_consensus[idx[idx2], ...] = dyn.copy(
-                dyn.consensus[idx[idx2], ...]
-                )
-            self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
+            self.best_consensus = dyn.copy(dyn.x[:, :consensus.shape[1], ...])
+            self.best_consensus_energy = np.inf * np.ones((dyn.M, consensus.shape[1]))
+        
+        idx2 = np.where(
+            consensus_energy < self.best_consensus_energy[idx, ...]
+            )[0]
+        self.best_consensus[idx[idx2], ...] = dyn.copy(consensus[idx2, ...])
+        self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
 
 class ensemble_update_resampling:
     """
-- 
2.43.0


From b4d6623a81d58cb4062c4c4d580821d76e6f818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 31/50] fix: custom apply callables of resampling

The documented signature apply(dyn, idx) failed with a TypeError.
---
 cbx/utils/resampling.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index 6708acb..9e05db7 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -1,3 +1,4 @@
+import inspect
 import numpy as np
 from typing import Callable, List
 
@@ -53,13 +54,21 @@ class resampling:
         idx = np.unique(np.concatenate([r(dyn) for r in self.resamplings]))
         idx = np.intersect1d(idx, dyn.active_runs_idx).astype(int) # only active runs
         if len(idx)>0:
-            self.apply(dyn, idx, var_name = self.var_name, sigma_indep = self.sigma_indep)
+            self.apply(dyn, idx, **self.apply_kwargs())
             self.num_resampling[idx] += 1
             if dyn.verbosity > 0:
                 print('Resampled in runs ' + str(idx))
                 
             self._track_best_consensus(dyn, idx)
     
+    def apply_kwargs(self,):
+        # custom callables only have to accept (dyn, idx)
+        params = inspect.signature(self.apply).parameters
+        kwargs = {'var_name': self.var_name, 'sigma_indep': self.sigma_indep}
+        if any(p.kind == p.VAR_KEYWORD for p in params.values()):
+            return kwargs
+        return {k: v for k, v in kwargs.items() if k in params}
+    
     def check_num_resamplings(self, M):
         if self.num_resampling is None:
             self.num_resampling = np.zeros(shape=(M))
-- 
2.43.0


From 7d3b91dfeccd7f8180b99f03866b430a64edff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 32/50] fix: Heaviside correction for multi-dimensional domains

The factor of each particle was only expanded by one dimension.
---
 cbx/correction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index a076f0f..b30dfcc 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -13,6 +13,10 @@ def get_correction(name, **kwargs):
     else:
         raise ValueError('Unknown correction ' + str(name))
 
+def expand_dims(z, x):
+    # one factor per particle, for particles in domains of any dimension
+    return z[(Ellipsis,) + (None,) * (x.ndim - 2)]
+
 class correction:
     def __init__(self):
         pass
@@ -79,7 +83,7 @@ class heavi_side_correction(correction):
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * np.where(z > 0, 1,0)[...,None]
+        return x * expand_dims(np.where(z > 0, 1,0), x)
 
 class heavi_side_reg_correction(heavi_side_correction):
     """
@@ -92,6 +96,6 @@ class heavi_side_reg_correction(heavi_side_correction):
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[...,None]
+        return x * expand_dims(0.5 + 0.5 * np.tanh(z/self.eps), x)
     
 
-- 
2.43.0


From 4a355aa60217a5dd110cd0dec477dd8abf1e5631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 33/50] fix: drift_mean history for multi-dimensional domains

It was not averaged over the particles.
---
 cbx/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index 00bf79f..4296dd3 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -151,7 +151,7 @@ class track_drift_mean(track):
         dyn.history['drift_mean'] = []
     @staticmethod
     def update(dyn) -> None:
-        dyn.history['drift_mean'].append(np.mean(np.abs(dyn.drift), axis=(-2,-1)))
+        dyn.history['drift_mean'].append(np.mean(np.abs(dyn.drift), axis=tuple(range(1, dyn.drift.ndim))))
         
 class track_drift(track):
     """
-- 
2.43.0


From 6f23b4a54818b1362050f8c6aacac1b6d2467d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 34/50] fix: bisection_solve keeps the roots that already met
 the threshold

---
 cbx/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index 9925f08..1edc3c3 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -198,11 +198,12 @@ def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
     roots of the function f
     """
     it = 0
-    x = high
+    x = (low + high)/2
     term = False
     idx = np.arange(len(low))
     while not term:
-        x = (low + high)/2
+        # only update the runs that did not meet the threshold yet
+        x[idx] = (low[idx] + high[idx])/2
         fx = f(x)
         gtzero = np.where(fx[idx] > 0)[0]
         ltzero  = np.where(fx[idx] < 0)[0]
-- 
2.43.0


From 7a0d55cd844af602ab038c3fbdd2b581735c31d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 35/50] fix: contour_2D with y limits at zero

---
 cbx/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index 9fd318a..9d35def 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -21,8 +21,8 @@ def contour_2D(f, ax = None, num_pts = 50,
     if ax is None:
         ax = plt.gca()
     dims = dims if dims is not None else [0,1]
-    y_min = x_min if (not y_min) else y_min
-    y_max = x_max if (not y_max) else y_max
+    y_min = x_min if y_min is None else y_min
+    y_max = x_max if y_max is None else y_max
     x = np.linspace(x_min, x_max, num_pts)
     y = np.linspace(y_min, y_max, num_pts)
     X, Y = np.meshgrid(x,y)
-- 
2.43.0


From 6481ac5be79c4dedd1ac927a15249edde3967626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 36/50] fix: NegativeLogEntropySimplex.grad_conj of torch
 tensors

---
 cbx/dynamics/mirrorcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index dd7d47a..726f349 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -139,7 +139,9 @@ class NegativeLogEntropySimplex(MirrorMap):
     
     def grad_conj(self, y):
         # shift by the maximum for numerical stability
-        z = np.exp(y - np.max(y, axis=-1, keepdims=True))
+        y_max = y.max(axis=-1, keepdims=True)
+        y_max = getattr(y_max, 'values', y_max) # torch also returns the indices
+        z = np.exp(y - y_max)
         return z/z.sum(axis=-1, keepdims=True)
     
     
-- 
2.43.0


From 0805aa3d145f7f3040f654cdd54c7a5005603df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:49 +0000
Subject: [PATCH 37/50] fix: regularisation schedule with terminated runs and
 with weights that over- or underflow

---
 cbx/regularizers.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index aa83c4c..4627d7d 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.special import softmax
 from cbx.scheduler import param_update
 
 #%%
@@ -73,9 +74,16 @@ class regularize_objective:
         self.lamda = lamda
         self.lamda_broadcasted = lamda_broadcasted
         self.p = p
+        self.dyn = None # set, once there is one parameter for each run of a dynamic
         
     def __call__(self, x):
-        return self.original_func(x) + self.lamda * self.reg_func(x) ** self.p
+        return self.original_func(x) + self.get_lamda(x) * self.reg_func(x) ** self.p
+    
+    def get_lamda(self, x):
+        if self.dyn is None or x.shape[0] == self.lamda.shape[0]:
+            return self.lamda
+        # dynamics only evaluate the objective for their active runs
+        return self.lamda[self.dyn.active_runs_idx, :]
     
     def broadcast_lamda(self, x):
         if not self.lamda_broadcasted:
@@ -88,12 +96,13 @@ class regularize_objective:
         return self.original_func.num_eval        
 #%%  
 def simple_param_rule_mean(dyn):
-    return dyn.f.reg_func(dyn.x).mean(axis=-1)
+    return dyn.f.reg_func(dyn.x[dyn.active_runs_idx, ...]).mean(axis=-1)
 
 def weighted_param_rule_mean(dyn):
-    E = np.exp(-dyn.alpha * dyn.eval_f(dyn.x))
-    R = dyn.f.reg_func(dyn.x)
-    return (E * R).sum(axis=-1)/E.sum(axis=-1)
+    x = dyn.x[dyn.active_runs_idx, ...]
+    E = softmax(-dyn.alpha[dyn.active_runs_idx, :] * dyn.eval_f(x), axis=-1)
+    R = dyn.f.reg_func(x)
+    return (E * R).sum(axis=-1)
     
     
 class regularization_paramter_scheduler(param_update):
@@ -124,12 +133,15 @@ class regularization_paramter_scheduler(param_update):
     def update(self, dyn):
         self.broadcast_params(dyn.x)
         dyn.f.broadcast_lamda(dyn.x)
-        m = self.param_rule_mean(dyn)
-        t = (m <= 1/np.sqrt(self.theta))
+        dyn.f.dyn = dyn
+        act = dyn.active_runs_idx # only active runs
+        t = np.zeros(self.theta.shape, dtype=bool)
+        t[act] = (self.param_rule_mean(dyn) <= 1/np.sqrt(self.theta[act]))
         self.theta[t] *= self.factor_theta
-        self.theta[~t] = np.clip(self.theta[~t]/self.factor_theta, 
-                                 a_max= self.theta_max, a_min=None)
-        dyn.f.lamda[~t] *= self.factor_lamda
+        t = np.setdiff1d(act, np.where(t)[0])
+        self.theta[t] = np.clip(self.theta[t]/self.factor_theta, 
+                                a_max= self.theta_max, a_min=None)
+        dyn.f.lamda[t] *= self.factor_lamda
         dyn.f.lamda = np.clip(dyn.f.lamda, a_max=self.lamda_max, a_min=0)
             
         
-- 
2.43.0


From 06159235b64cb5796e4a8fbcc98d9e57677a599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 38/50] fix: projections of the origin onto the sphere and the
 square

---
 cbx/dynamics/mirrorcbo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 726f349..ccb0b9c 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -89,7 +89,11 @@ class ProjectionSphere(ProjectionMirrorMap):
         self.r = r
         
     def grad_conj(self, y):
-        return self.r * y/np.linalg.norm(y,axis=-1,keepdims=True)
+        n_y = np.linalg.norm(y, axis=-1, keepdims=True)
+        if (n_y == 0).any(): # all points are nearest to the center, take one of them
+            y = y + 1. * (n_y == 0)
+            n_y = np.linalg.norm(y, axis=-1, keepdims=True)
+        return self.r * y/n_y
     
 class ProjectionSquare(ProjectionMirrorMap):
     def __init__(self, r=1.):
@@ -100,7 +104,8 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = self.r * np.sign(y[np.arange(y.shape[0]), idx])
+        y_max = y[np.arange(y.shape[0]), idx]
+        y[np.arange(y.shape[0]), idx] = self.r * np.sign(y_max + (y_max == 0)) # zero counts as positive
         return y.reshape(s)
 
 
-- 
2.43.0


From c86b1e74ab2b64eb137bd7517d607882a99a005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 39/50] fix: integer initial positions truncated the particles

---
 cbx/dynamics/pdyn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 3414fef..94989f0 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -197,6 +197,10 @@ class ParticleDynamic:
             self.x = self.init_particles(shape=(M, N, d))
             
         else: # if x is given correct shape
+            if not hasattr(x, 'ndim'):
+                x = np.array(x)
+            if getattr(x.dtype, 'kind', 'f') in 'iub': # the particles move in steps that are no integers
+                x = x.astype(float)
             if x.ndim == 1:
                 x = x[None, None, :]
             elif x.ndim == 2:
-- 
2.43.0


From 2cd4dde83ff7995836438507cd649cf7ef99f96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 40/50] fix: an integer as first value of the objective
 truncated the others

---
 cbx/utils/objective_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/objective_handling.py b/cbx/utils/objective_handling.py
index b8654c8..5546e0b 100644
--- a/cbx/utils/objective_handling.py
+++ b/cbx/utils/objective_handling.py
@@ -74,7 +74,9 @@ class cbx_objective_f1D(cbx_objective_fh):
     
     def apply(self, x):
         x = np.atleast_2d(x)
-        return np.apply_along_axis(self.f, 1, x.reshape(-1, x.shape[-1])).reshape(-1,x.shape[-2])
+        # the type of the first value determines the type of all, integers would truncate the other values
+        f = lambda v: np.asarray(self.f(v), dtype=float)
+        return np.apply_along_axis(f, 1, x.reshape(-1, x.shape[-1])).reshape(-1,x.shape[-2])
     
     
 class cbx_objective_f2D(cbx_objective_fh):
-- 
2.43.0


From de3ac3160ccd61dca4b22c5b6dd3111710d9c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 41/50] fix: CBOMemory and PSO wrote into the array returned by
 the objective, truncating if it held integers

---
 cbx/dynamics/cbo_memory.py | 2 +-
 cbx/dynamics/pso.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index d6f2030..25043aa 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -63,7 +63,7 @@ class CBOMemory(CBO):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy[...] = self.f(self.x)
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 6e80894..0481467 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -81,7 +81,7 @@ class PSO(CBXDynamic):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy[...] = self.f(self.x)
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
         
     def pre_step(self,):
-- 
2.43.0


From 97561fd3892e0e88263ccb46a3cee468dfec1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 42/50] fix: success evaluation ignored its verbosity

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 6708b17..31c5efd 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -36,7 +36,7 @@ class value_thresh:
 class evaluation:
     def __init__(self, criteria=None, verbosity = 1):
         self.criteria = criteria
-        self.verbosity = 1
+        self.verbosity = verbosity
         
     def __call__(self, dyn):
         idx = np.arange(dyn.M)
-- 
2.43.0


From 0e61e252f16386cb9ae79ba335338087de978444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 43/50] fix: distance to the minimiser was wrong for domains
 with axes of length one

---
 cbx/utils/success.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 31c5efd..5c275c4 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -1,7 +1,12 @@
 import numpy as np
 
 def dist_to_min_success(x, x_true, tol=0.25, p=float('inf')):
-    norm_diff = np.linalg.norm((x_true[None,...] - x.squeeze()).reshape(x.shape[0], -1), 
+    M = x.shape[0]
+    if x_true.size == x[0].size: # axes of length one may belong to the domain
+        x = x.reshape((M,) + x_true.shape)
+    else:
+        x = x.squeeze()
+    norm_diff = np.linalg.norm((x_true[None,...] - x).reshape(M, -1), 
                                axis=-1, ord = p)
     idx = np.where(norm_diff < tol)[0]
     
-- 
2.43.0


From be203fee659680da574414bb993425e9a68f4efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 44/50] fix: torch dynamics can track quantities that are no
 tensors and drift_mean

---
 cbx/utils/history.py     | 3 ++-
 cbx/utils/torch_utils.py | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index 4296dd3..bbac8ef 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -151,7 +151,8 @@ class track_drift_mean(track):
         dyn.history['drift_mean'] = []
     @staticmethod
     def update(dyn) -> None:
-        dyn.history['drift_mean'].append(np.mean(np.abs(dyn.drift), axis=tuple(range(1, dyn.drift.ndim))))
+        drift = dyn.to_numpy(dyn.drift)
+        dyn.history['drift_mean'].append(np.mean(np.abs(drift), axis=tuple(range(1, drift.ndim))))
         
 class track_drift(track):
     """
diff --git a/cbx/utils/torch_utils.py b/cbx/utils/torch_utils.py
index 2c1f447..9f4b187 100644
--- a/cbx/utils/torch_utils.py
+++ b/cbx/utils/torch_utils.py
@@ -29,6 +29,11 @@ def requires_torch(f):
 def norm_torch(x, axis, **kwargs):
     return torch.linalg.vector_norm(x, dim=axis, **kwargs)  
 
+@requires_torch
+def copy_torch(x):
+    # energies, parameters and scalars of the dynamic can be no tensors
+    return torch.clone(x) if torch.is_tensor(x) else np.copy(x)
+
 @requires_torch
 def compute_consensus_torch(energy, x, alpha):
     weights = - alpha * energy
@@ -85,7 +90,7 @@ def set_post_process_torch(self, post_process):
     self.post_process = post_process if post_process is not None else post_process_default_torch()
 
 def set_array_backend_funs_torch(self, copy, norm, sampler):
-    self.copy = copy if copy is not None else torch.clone
+    self.copy = copy if copy is not None else copy_torch
     self.norm = norm if norm is not None else norm_torch
     self.sampler = sampler if sampler is not None else standard_normal_torch(self.device)
     
-- 
2.43.0


From 3d5a49a822edc1efbe2c2582e946806549b4ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 45/50] fix: mirror steps and prox post-processing keep the
 particles of terminated runs

---
 cbx/dynamics/mirrorcbo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index ccb0b9c..bedb3e2 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -14,7 +14,8 @@ def Bregman_distance(F, p, q):
 
 def MirrorMaptoPostProcessProx(MirrorMap):
     def apply_prox(self, dyn):
-       dyn.x = self.grad_conj(dyn.x)
+       idx = dyn.active_runs_idx # the particles of the other runs are kept
+       dyn.x[idx, ...] = self.grad_conj(dyn.x[idx, ...])
         
     return type(MirrorMap.__name__ + str('_Prox'), 
          (MirrorMap,), 
@@ -299,7 +300,8 @@ def mirror_step(self,):
         self.drift, self.lamda, self.dt, 
         self.sigma, self.noise()
     )
-    self.x = self.mirrormap.grad_conj(self.y)
+    idx = self.active_runs_idx # the particles of the other runs are kept
+    self.x[idx, ...] = self.mirrormap.grad_conj(self.y[idx, ...])
   
 def select_mirrormap(self, mirrormap):
     self.mirrormap = get_mirror_map(mirrormap)
-- 
2.43.0


From 7e9fecb333a0ca044428642c89aa410ad8277883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 46/50] fix: tracking of the best consensus on resampling with
 objectives that have parameters for each run

---
 cbx/utils/objective_handling.py | 10 ++++++++++
 cbx/utils/resampling.py         |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/objective_handling.py b/cbx/utils/objective_handling.py
index 5546e0b..92c0025 100644
--- a/cbx/utils/objective_handling.py
+++ b/cbx/utils/objective_handling.py
@@ -14,6 +14,16 @@ def _promote_objective(f, f_dim):
         raise ValueError("f_dim must be '1D', '2D' or '3D'.")
 
 
+def eval_at_runs(dyn, x, idx):
+    # objectives with parameters for each run refer to the active runs of the dynamic
+    active_runs_idx = dyn.active_runs_idx
+    try:
+        dyn.active_runs_idx = idx
+        return dyn.f(x)
+    finally:
+        dyn.active_runs_idx = active_runs_idx
+
+
 class cbx_objective:
     def __init__(self, f_extra=None):
         super().__init__()
diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index 9e05db7..94dd746 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -1,6 +1,7 @@
 import inspect
 import numpy as np
 from typing import Callable, List
+from cbx.utils.objective_handling import eval_at_runs
 
 def apply_resampling_default(dyn, idx, sigma_indep=0.1, var_name='x'):
     z = dyn.sampler(size=(len(idx), dyn.N, *dyn.d))
@@ -78,7 +79,7 @@ class resampling:
             return
         # the consensus only has rows for the active runs
         consensus = dyn.consensus[np.searchsorted(dyn.active_runs_idx, idx), ...]
-        consensus_energy = dyn.to_numpy(dyn.f(consensus))
+        consensus_energy = dyn.to_numpy(eval_at_runs(dyn, consensus, idx))
         dyn.num_f_eval[idx] += consensus.shape[1]
         
         if not hasattr(self, 'best_consensus'):
-- 
2.43.0


From da9a5b59b88d6d32d63df17fa998602290c6beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 47/50] fix: plots of objectives that have parameters for each
 run

---
 cbx/plotting.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index 9d35def..f4c5ee8 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -1,6 +1,7 @@
 import matplotlib.pyplot as plt
 import numpy as np
 import warnings
+from cbx.utils.objective_handling import eval_at_runs
 
 def plot_1D(f, ax = None, num_pts = 200,
             x_min = -1., x_max = 1.,
@@ -150,10 +151,19 @@ class PlotDynamic:
         """
         
         if self.d == 1:
-            _ = plot_1D(self.dyn.f, ax=self.ax, **self.objective_args)
+            _ = plot_1D(self.eval_f, ax=self.ax, **self.objective_args)
         else:
-             _ = contour_2D(self.dyn.f, ax=self.ax, d=self.d, dims=self.dims,
+             _ = contour_2D(self.eval_f, ax=self.ax, d=self.d, dims=self.dims,
                             **self.objective_args)
+
+    def eval_f(self, x):
+        """
+        Evaluates the objective function of the plotted run.
+
+        """
+        y = eval_at_runs(self.dyn, x.reshape(1, -1, x.shape[-1]), np.array([self.num_run]))
+        return y.reshape(x.shape[:-1])
+
     def init_x(self, x):
         """
         Initializes the particle plot.
@@ -170,7 +180,7 @@ class PlotDynamic:
 
         if self.d == 1:
             if self.eval_energy_1d:
-                y = self.dyn.f(x[self.num_run, :, self.dims[0]][None,:,None])[...,None]
+                y = self.eval_f(x[self.num_run, :, self.dims[0]][None,:,None])[...,None]
             else:
                 y = np.zeros_like(x[self.num_run, :, self.dims[0]])
         else:
@@ -295,7 +305,7 @@ class PlotDynamic:
         """
         if self.d == 1:
             if self.eval_energy_1d:
-                y = self.dyn.f(x[self.num_run, :, self.dims[0]][None,:,None])[0,...]
+                y = self.eval_f(x[self.num_run, :, self.dims[0]][None,:,None])[0,...]
             else:
                 y = np.zeros_like(x[self.num_run, ...][:, self.dims[0]])
             z = np.stack([x[self.num_run, ...][:, 0], y], axis=-1)
-- 
2.43.0


From 7188d09e63a78aefac382d6f18f50eb9f6abe076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 48/50] fix: an interrupted first update of the regularisation
 parameter left an unusable objective

---
 cbx/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 4627d7d..3460a90 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -80,7 +80,7 @@ class regularize_objective:
         return self.original_func(x) + self.get_lamda(x) * self.reg_func(x) ** self.p
     
     def get_lamda(self, x):
-        if self.dyn is None or x.shape[0] == self.lamda.shape[0]:
+        if self.dyn is None or np.ndim(self.lamda) == 0 or x.shape[0] == self.lamda.shape[0]:
             return self.lamda
         # dynamics only evaluate the objective for their active runs
         return self.lamda[self.dyn.active_runs_idx, :]
@@ -132,8 +132,8 @@ class regularization_paramter_scheduler(param_update):
         
     def update(self, dyn):
         self.broadcast_params(dyn.x)
+        dyn.f.dyn = dyn # before, so that an interruption in between leaves a usable objective
         dyn.f.broadcast_lamda(dyn.x)
-        dyn.f.dyn = dyn
         act = dyn.active_runs_idx # only active runs
         t = np.zeros(self.theta.shape, dtype=bool)
         t[act] = (self.param_rule_mean(dyn) <= 1/np.sqrt(self.theta[act]))
-- 
2.43.0


From 4c8348bd9604f53f849fdde3099dc9ec0bd024dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 49/50] fix: tracked consensus points remember the runs they
 belong to, plots of the history showed another run

---
 cbx/utils/history.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index bbac8ef..db6bd36 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -129,6 +129,13 @@ class track_energy(track):
         dyn.history['energy'].append(np.copy(dyn.energy))# always assumes energy is numpy
 
 
+def save_particle_idx(dyn, name):
+    # consensus and drift only have rows for the runs that were updated; when both are 
+    # tracked, the indices are saved once
+    if len(dyn.history['particle_idx']) < len(dyn.history[name]):
+        dyn.history['particle_idx'].append(getattr(dyn, 'particle_idx', Ellipsis))
+
+
 class track_consensus(track):
     """
     Class for tracking the 'consensus' entry in the dynamic.
@@ -137,9 +144,11 @@ class track_consensus(track):
     @staticmethod
     def init_history(dyn) -> None:
         dyn.history['consensus'] = []
+        dyn.history['particle_idx'] = []
     @staticmethod
     def update(dyn) -> None:
         dyn.history['consensus'].append(dyn.copy(dyn.consensus))
+        save_particle_idx(dyn, 'consensus')
         
 class track_drift_mean(track):
     """
@@ -167,4 +176,4 @@ class track_drift(track):
     @staticmethod
     def update(dyn) -> None:        
         dyn.history['drift'].append(dyn.drift)
-        dyn.history['particle_idx'].append(dyn.particle_idx)
\ No newline at end of file
+        save_particle_idx(dyn, 'drift')
\ No newline at end of file
-- 
2.43.0


From f7f1b122b4cd90c2aaa451f4a51c7a3a9a0c852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 50/50] fix: CBS sets its mode on the dynamic, not on the noise
 object of the caller

---
 cbx/dynamics/cbs.py | 2 +-
 cbx/noise.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/cbs.py b/cbx/dynamics/cbs.py
index 2b74a99..4f21a2e 100644
--- a/cbx/dynamics/cbs.py
+++ b/cbx/dynamics/cbs.py
@@ -19,7 +19,7 @@ class CBS(CBO):
         if noise not in ['covariance', 'sampling']:
             warnings.warn('For CBS usually covariance or sampling noise is used!', stacklevel=2)
         
-        self.noise_callable.mode = mode
+        self.noise_mode = mode # read by the noise model, the object of the caller is kept as it is
         
     # def inner_step(self,):
     #     self.consensus, energy = self.compute_consensus()
diff --git a/cbx/noise.py b/cbx/noise.py
index 04bff2d..bbc1a02 100644
--- a/cbx/noise.py
+++ b/cbx/noise.py
@@ -196,7 +196,7 @@ class covariance_noise(noise):
              return factor * self.sample(dyn.drift, dyn.Cov_sqrt)
          
         def lamda(self, dyn):
-            if self.mode == 'sampling':
+            if getattr(dyn, 'noise_mode', self.mode) == 'sampling':
                 return 1/(1 + dyn.alpha[dyn.active_runs_idx, :])
             else:
                 return 1
-- 
2.43.0

