From cb270068abdd24e0ec6264417ba6eb35edb97a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:28 +0000
Subject: [PATCH 01/35] fix: Ising energy of integer samples truncated the
 couplings

---
 discs/models/ising.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/models/ising.py b/discs/models/ising.py
index 2a7aa0e..4e27e2c 100644
--- a/discs/models/ising.py
+++ b/discs/models/ising.py
@@ -45,6 +45,7 @@ class Ising(abstractmodel.AbstractModel):
 
   def forward(self, params, x):
     params = params['params']
+    x = x.astype(jnp.float32)
     w_h = params[0][:, :-1]
     w_v = params[1][:-1, :]
     w_b = params[2]
-- 
2.43.0


From 3510a576a069d4e4bed998ef9d61af1ed4c8cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:28 +0000
Subject: [PATCH 02/35] fix: rows of the categorical FHMM transition matrix did
 not sum to one

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 281ea16..39e4b66 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -97,7 +97,7 @@ class CategFHMM(FHMM):
     beta = jnp.eye(self.num_categories) * (
         self.beta - (1 - self.beta) / (self.num_categories - 1)
     )
-    beta += (1 - beta) / (self.num_categories - 1)
+    beta += (1 - self.beta) / (self.num_categories - 1)
     self.beta = beta
     self.log_beta = jnp.log(beta)
 
-- 
2.43.0


From 241293b07a4b1af22d5ecb0ed80ddfc85e748900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:28 +0000
Subject: [PATCH 03/35] fix: categorical FHMM mistook integer samples for
 one-hot ones when K equals the number of categories

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 39e4b66..b89516b 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -163,7 +163,7 @@ class CategFHMM(FHMM):
     y = params['y']
     alpha = params['alpha']
 
-    if x.shape[-1] != self.num_categories:
+    if len(x.shape) - 1 == len(self.shape):
       x = jax.nn.one_hot(x, self.num_categories)
     x = x.reshape(-1, self.l, self.k, self.num_categories)
     x_0 = x[:, 0]
-- 
2.43.0


From 99f76df44009e7470e17fdac82d217614ee25d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:28 +0000
Subject: [PATCH 04/35] fix: categorical GWG summed proposal log-probabilities
 over the whole batch

---
 discs/samplers/gwg.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/discs/samplers/gwg.py b/discs/samplers/gwg.py
index 656201c..e657d80 100644
--- a/discs/samplers/gwg.py
+++ b/discs/samplers/gwg.py
@@ -163,11 +163,7 @@ class CategoricalGWGSampler(GibbsWithGradSampler):
     return y, {'x2y': idx, 'y2x': idx_y2x}
 
   def get_ll_onestep(self, dist, aux, src_to_dst):
-    ll = dist[
-        jnp.expand_dims(jnp.arange(dist.shape[0]), axis=1), aux[src_to_dst]
-    ]
-    ll = jnp.sum(ll, axis=-1)
-    return ll
+    return dist[jnp.arange(dist.shape[0]), aux[src_to_dst]]
 
 
 def build_sampler(config):
-- 
2.43.0


From 663e882ee929931df44ad8bafefd7d91f4d8b816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:28 +0000
Subject: [PATCH 05/35] fix: non-adaptive categorical PAS left the new values
 out of the forward proposal probability

---
 discs/samplers/path_auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 36307ac..0d1fdac 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -125,6 +125,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
         rng, _ = jax.random.split(rng)
         new_val = jax.random.categorical(rng, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
+        ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
         new_val = 1 - x[rows, selected_idx]
       y = x.at[rows, selected_idx].set(new_val)
-- 
2.43.0


From 069781e0638b8ea3c996c952303a1bb5a8d873af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:28 +0000
Subject: [PATCH 06/35] fix: Hamming ball sampler used the ball sizes as
 logits, biasing the auxiliary draw

---
 discs/samplers/hammingball.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 464d45c..987adf7 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -29,7 +29,9 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
           * (self.num_categories - 1) ** (j + 1)
           for j in range(self.hamming)
       ]
-    self.hamming_logit = jnp.array(self.hamming_logit + num_samples_per_hamming)
+    self.hamming_logit = jnp.log(
+        jnp.array(self.hamming_logit + num_samples_per_hamming)
+    )
     self.choose_index_vmapped = jax.vmap(self.choose_index, in_axes=[0, None])
 
   def choose_index(self, rng, arr):
-- 
2.43.0


From b3f5b85bce8dc7b888a2e22358324c76b3f2dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:39 +0000
Subject: [PATCH 07/35] fix: adaptive DLMC and DMALA step size became NaN when
 acceptance was low

---
 discs/samplers/dlmc.py  | 2 +-
 discs/samplers/dmala.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 6bc7014..feb82f0 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -26,7 +26,7 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
     log_z = (logs_ema * log_z) + ((1 - logs_ema) * local_stats['log_z'])
 
     n = jnp.exp(state['log_tau'] + log_z)
-    n = n + 3 * (acc - self.target_acceptance_rate)
+    n = jnp.clip(n + 3 * (acc - self.target_acceptance_rate), a_min=1.0)
     state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
     state['log_z'] = log_z
 
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index 8145938..c63cc89 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -27,7 +27,7 @@ class DMALASampler(locallybalanced.LocallyBalancedSampler):
 
     # updating tau
     n = jnp.exp(state['log_tau'] + log_z)
-    n = n + 3 * (acc - self.target_acceptance_rate)
+    n = jnp.clip(n + 3 * (acc - self.target_acceptance_rate), a_min=1.0)
     state['log_tau'] = jnp.clip(jnp.log(n) - log_z, a_min=-log_z)
     state['log_z'] = log_z
 
-- 
2.43.0


From fb4523407bac624da6491226d61261f60544ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:39 +0000
Subject: [PATCH 08/35] fix: compiled binary DLMC and DMALA got NaN acceptance
 when a flip is certain

---
 discs/samplers/dlmc.py  | 3 ++-
 discs/samplers/dmala.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index feb82f0..704a83b 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -138,7 +138,8 @@ class BinaryDLMC(DLMCSampler):
 
   def get_ll_onestep(self, dist, aux):
     return jnp.sum(
-        jnp.log(dist + 1e-32) * aux + jnp.log(1 - dist + 1e-32) * (1 - aux),
+        jnp.log(jnp.clip(dist, a_min=1e-32)) * aux
+        + jnp.log(jnp.clip(1 - dist, a_min=1e-32)) * (1 - aux),
         axis=range(1, dist.ndim),
     )
 
diff --git a/discs/samplers/dmala.py b/discs/samplers/dmala.py
index c63cc89..3c1b65a 100644
--- a/discs/samplers/dmala.py
+++ b/discs/samplers/dmala.py
@@ -134,7 +134,8 @@ class BinaryDMALA(DMALASampler):
 
   def get_ll_onestep(self, dist, aux):
     return jnp.sum(
-        jnp.log(dist + 1e-32) * aux + jnp.log(1 - dist + 1e-32) * (1 - aux),
+        jnp.log(jnp.clip(dist, a_min=1e-32)) * aux
+        + jnp.log(jnp.clip(1 - dist, a_min=1e-32)) * (1 - aux),
         axis=range(1, dist.ndim),
     )
 
-- 
2.43.0


From 2facdc2e91f2e3a2f3a2cabbf7ade2916a6b4bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:09 +0000
Subject: [PATCH 09/35] fix: sampler steps modified the caller's state and
 random walk never counted its steps

---
 discs/samplers/abstractsampler.py | 1 +
 discs/samplers/dlmc.py            | 4 ++--
 discs/samplers/locallybalanced.py | 2 +-
 discs/samplers/randomwalk.py      | 1 +
 4 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/discs/samplers/abstractsampler.py b/discs/samplers/abstractsampler.py
index 011d014..5311e03 100644
--- a/discs/samplers/abstractsampler.py
+++ b/discs/samplers/abstractsampler.py
@@ -38,5 +38,6 @@ class AbstractSampler(abc.ABC):
             'steps': jnp.zeros(shape=(), dtype=jnp.int32)}
 
   def update_sampler_state(self, sampler_state):
+    sampler_state = dict(sampler_state)
     sampler_state['steps'] += 1
     return sampler_state
diff --git a/discs/samplers/dlmc.py b/discs/samplers/dlmc.py
index 704a83b..0834e45 100644
--- a/discs/samplers/dlmc.py
+++ b/discs/samplers/dlmc.py
@@ -88,12 +88,12 @@ class DLMCSampler(locallybalanced.LocallyBalancedSampler):
 
       log_tau = jnp.where(self.co_opt_prob, local_stats['log_tau'], log_tau)
     else:
-      state['log_tau'] = jnp.where(
+      log_tau = jnp.where(
           state['steps'] == 0,
           self.reset_stats(log_rate_x['weights'])['log_tau'],
           state['log_tau'],
       )
-      log_tau = state['log_tau']
+      state = {**state, 'log_tau': log_tau}
       local_stats = None
 
     dist_x = self.get_dist_at(x, log_tau, log_rate_x)
diff --git a/discs/samplers/locallybalanced.py b/discs/samplers/locallybalanced.py
index 22fe2e1..77a3d92 100644
--- a/discs/samplers/locallybalanced.py
+++ b/discs/samplers/locallybalanced.py
@@ -33,7 +33,7 @@ class LocallyBalancedSampler(abstractsampler.AbstractSampler):
     else:
       y = jnp.argmax(y, axis=-1)
     sampler_state = utils.copy_pytree(sampler_state)
-    super().update_sampler_state(sampler_state)
+    sampler_state = super().update_sampler_state(sampler_state)
     return y, sampler_state
 
   def apply_weight_function(self, t):
diff --git a/discs/samplers/randomwalk.py b/discs/samplers/randomwalk.py
index 7d06d76..70a74d2 100644
--- a/discs/samplers/randomwalk.py
+++ b/discs/samplers/randomwalk.py
@@ -55,6 +55,7 @@ class RWSampler(RandomWalkSampler):
       self, rng, log_acc, current_sample, new_sample, sampler_state
   ):
     y, acc = math.mh_step(rng, log_acc, current_sample, new_sample)
+    sampler_state = self.update_sampler_state(sampler_state)
     sampler_state['num_ll_calls'] += 2
     sampler_state['acceptance_rate'] = jnp.mean(acc.astype(jnp.float32))
     return y.astype(jnp.int32), sampler_state
-- 
2.43.0


From 3038d9197606253f4693ca6728f39782251b3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:09 +0000
Subject: [PATCH 10/35] fix: Bernoulli logratio_in_neighborhood did not follow
 the interface the samplers use

---
 discs/models/bernoulli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discs/models/bernoulli.py b/discs/models/bernoulli.py
index 79ffe46..f322e16 100644
--- a/discs/models/bernoulli.py
+++ b/discs/models/bernoulli.py
@@ -46,7 +46,7 @@ class Bernoulli(abstractmodel.AbstractModel):
     (_, loglikelihood), grad = jax.value_and_grad(fun, has_aux=True)(x)
     return loglikelihood, grad
 
-  def get_neighbor_fn(self, x, neighbhor_idx):
+  def get_neighbor_fn(self, _, x, neighbhor_idx):
     x_shape = x.shape
     x = jnp.reshape(x, (x.shape[0], -1))
     brange = jnp.arange(x.shape[0])
@@ -55,10 +55,11 @@ class Bernoulli(abstractmodel.AbstractModel):
     return jnp.reshape(y, x_shape)
 
   def logratio_in_neighborhood(self, params, x):
+    loglikelihood = self.forward(params, x)
     params = params['params']
     params = jnp.expand_dims(params, axis=0)
     diff = (1 - 2 * x) * params
-    return diff, 1, self.get_neighbor_fn
+    return loglikelihood, diff, 1, self.get_neighbor_fn
 
   def get_expected_val(self, params):
     params = params['params']
-- 
2.43.0


From 641d022201a42f80b57b3fa695e6139f93c1fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:09 +0000
Subject: [PATCH 11/35] fix: MIS logratio_in_neighborhood counted padded edges
 and left out the energy

---
 discs/models/mis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discs/models/mis.py b/discs/models/mis.py
index 24123c9..206f6aa 100644
--- a/discs/models/mis.py
+++ b/discs/models/mis.py
@@ -42,8 +42,9 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
   def logratio_in_neighborhood(self, params, x):
     edge_from = params['bidir_edge_from']
     edge_to = params['bidir_edge_to']
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
 
-    gather2dst = x[:, edge_to]
+    gather2dst = x[:, edge_to] * edge_mask
     diff_penalty = self.penalty_coeff * gather2dst
     diff_arr = jnp.zeros(x.shape, dtype=diff_penalty.dtype)
     diff_arr = diff_arr.at[jnp.expand_dims(jnp.arange(x.shape[0]), axis=1),
@@ -52,7 +53,7 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     sign = (1 - x * 2) * params['mask']
     logratio = (sign - sign * diff_arr) / params['temperature']
     logratio = logratio * params['mask'] + -1e9 * (1 - params['mask'])
-    return logratio, 1, self.get_neighbor_fn
+    return self.forward(params, x), logratio, 1, self.get_neighbor_fn
 
 
 def build_model(config):
-- 
2.43.0


From ef1740ffbbafcd682df6e9c0cd4a3fecc2571596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 12/35] fix: normcut logratio_in_neighborhood ignored the
 balance penalty and counted padded edges

---
 discs/models/normcut.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index d94e908..d202cd8 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -58,9 +58,14 @@ class NormCut(comb_ebm.CombEBM):
     if x.ndim < 3:
       x = jax.nn.one_hot(x, self.num_categories, dtype=jnp.float32)
     cut_sizes = self.get_cut_sizes(params, x)
+    if self.penalty > 0:
+      volume = None
+    else:
+      volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
+    return -self.get_cost(cut_sizes, jnp.sum(x, axis=1), volume)
 
+  def get_cost(self, cut_sizes, partition_sizes, volume):
     if self.penalty > 0:
-      partition_sizes = jnp.sum(x, axis=1)
       if self.stype == 'quad':
         ncost = jnp.sum((partition_sizes - self.avg_partition_size) ** 2, -1)
       else:
@@ -71,10 +76,9 @@ class NormCut(comb_ebm.CombEBM):
         ncost = jnp.sum(ub_cost + lb_cost, axis=-1)
       cost = jnp.sum(cut_sizes, axis=-1) + self.penalty * ncost
     else:
-      volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
       cost = jnp.sum((cut_sizes + self.eps) / (volume + self.eps ** 2),
                      axis=-1)
-    return -cost
+    return cost
 
   def forward(self, params, x):
     obj = self.objective(params, x)
@@ -87,15 +91,18 @@ class NormCut(comb_ebm.CombEBM):
     bsize = x.shape[0]
     edge_from = params['bidir_edge_from']
     edge_to = params['bidir_edge_to']
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
+    edge_mask = jnp.expand_dims(edge_mask, axis=-1)
     node_degrees = jnp.expand_dims(params['node_degrees'], axis=1)
     gather2src = x[:, edge_from]
     gather2dst = x[:, edge_to]
-    cur_edge_cut = (gather2src + gather2dst) % 2
+    cur_edge_cut = (gather2src + gather2dst) % 2 * edge_mask
     cur_cut_sizes = jnp.sum(cur_edge_cut, axis=1).astype(jnp.float32) / 2.0
 
     new_choices = jnp.eye(self.num_categories, dtype=jnp.int32)
     new_choices = jnp.expand_dims(new_choices, (0, 1))
     edge_info = (new_choices + jnp.expand_dims(gather2dst, axis=-2)) % 2
+    edge_info = edge_info * jnp.expand_dims(edge_mask, axis=-1)
     edge_delta = edge_info - jnp.expand_dims(cur_edge_cut, axis=-2)
     diff_arr = jnp.zeros(
         (bsize, self.num_nodes, self.num_categories, self.num_categories),
@@ -105,14 +112,16 @@ class NormCut(comb_ebm.CombEBM):
                            jnp.arange(self.num_categories)].add(edge_delta)
     new_cut_sizes = jnp.expand_dims(cur_cut_sizes, (1, 2)) + diff_arr
 
-    diff_volume = (new_choices - jnp.expand_dims(x, axis=-2)) * jnp.expand_dims(
-        node_degrees, axis=-1)
+    diff_choice = new_choices - jnp.expand_dims(x, axis=-2)
+    cur_sizes = jnp.sum(x, axis=1)
+    new_sizes = jnp.expand_dims(cur_sizes, (1, 2)) + diff_choice
+    diff_volume = diff_choice * jnp.expand_dims(node_degrees, axis=-1)
     cur_volume = jnp.sum(x * node_degrees, axis=1)
     new_volume = jnp.expand_dims(cur_volume, (1, 2)) + diff_volume
-    new_obj = -jnp.sum((new_cut_sizes + self.eps) / (
-        new_volume + self.eps ** 2), axis=-1) / params['temperature']
-    cur_obj = -jnp.sum((cur_cut_sizes + self.eps) / (
-        cur_volume + self.eps ** 2), axis=-1) / params['temperature']
+    new_obj = -self.get_cost(
+        new_cut_sizes, new_sizes, new_volume) / params['temperature']
+    cur_obj = -self.get_cost(
+        cur_cut_sizes, cur_sizes, cur_volume) / params['temperature']
     log_ratio = new_obj - jnp.expand_dims(cur_obj, axis=(1, 2))
     return cur_obj, log_ratio, 1, None
 
-- 
2.43.0


From 6f1ca52d05ec27281acaab6eee72788ea3da7599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 13/35] fix: normcut node degrees followed the iteration order
 of the graph and were not padded

---
 discs/graph_loader/normcut_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/graph_loader/normcut_loader.py b/discs/graph_loader/normcut_loader.py
index 9bea225..754d46d 100644
--- a/discs/graph_loader/normcut_loader.py
+++ b/discs/graph_loader/normcut_loader.py
@@ -26,7 +26,9 @@ class NormCutGen(data_common.GraphGenerator):
     )
     num_nodes = len(g)
     params['num_nodes'] = num_nodes
-    params['node_degrees'] = np.array(g.degree)[:, 1].astype(np.float32)
+    params['node_degrees'] = np.zeros((self.max_num_nodes,), dtype=np.float32)
+    for node, degree in g.degree:
+      params['node_degrees'][node] = degree
     params['mask'] = np.arange(self.max_num_nodes) < num_nodes
     return params
 
-- 
2.43.0


From 8b45d3258525f5054432d69398e664181686b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 14/35] fix: categorical RBM without trained parameters could
 not be initialised

---
 discs/models/rbm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index ce23179..6aa18e6 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -130,6 +130,8 @@ class RBM(deep_ebm.DeepEBM):
       return self.params
     model_rng, sample_rng = jax.random.split(rng)
     v = self.get_init_samples(sample_rng, 1)
+    if self.num_categories != 2:
+      v = jax.nn.one_hot(v, self.num_categories)
     return self.net.init({'params': model_rng}, v=v)['params']
 
   def forward(self, params, x):
@@ -194,7 +196,7 @@ class CategoricalRBM(RBM):
     if data_mean is None:
       return functools.partial(
           jax.random.categorical,
-          logits=jnp.log(jnp.ones(self.num_visible, self.num_categories)),
+          logits=jnp.log(jnp.ones((self.num_visible, self.num_categories))),
       )
     else:
       logits = jnp.log(data_mean)
-- 
2.43.0


From dc1e36cb6d725a8c2607e6b2006e15f85b7b64c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:49 +0000
Subject: [PATCH 15/35] fix: classical experiments with fewer than four chains
 crashed

---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9976209..b5e8a44 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -233,7 +233,7 @@ class Sampling_Experiment(Experiment):
     selected_chains = jax.random.choice(
         rng,
         jnp.arange(self.config.batch_size),
-        shape=(self.num_saved_samples,),
+        shape=(min(self.num_saved_samples, self.config.batch_size),),
         replace=False,
     )
 
-- 
2.43.0


From 833b43e3cd6641c2829e20e61e8baaadfa7a7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:50 +0000
Subject: [PATCH 16/35] fix: estimation error run on a single device crashed
 when saving the parameters

---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index b5e8a44..4385eaf 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -314,7 +314,7 @@ class Sampling_Experiment(Experiment):
       ):
         saver.dump_samples(samples, visualize=False)
         # samples= np.array(samples)
-        params = params['params'][0].reshape(self.config_model.shape)
+        params = params['params'].reshape((-1,) + self.config_model.shape)[0]
         saver.dump_params(params)
         # saver.plot_estimation_error(model, params, samples)
 
-- 
2.43.0


From e13f8d556c784e346b24cc8d8f3374e695740c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:50 +0000
Subject: [PATCH 17/35] fix: multi-device runs with fewer graphs than devices
 crashed or mixed up the graphs

---
 discs/experiment/sampling.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 4385eaf..5dbf8b9 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -55,11 +55,6 @@ class Experiment:
         bshape = (jax.local_device_count(),)
         x_shape = bshape + (mini_batch,) + self.config_model.shape
         use_put_replicated = True
-        if self.sample_idx:
-          self.sample_idx = jnp.array(
-              [self.sample_idx]
-              * (jax.local_device_count() // self.config.num_models)
-          )
       else:
         reshape_all = False
         bshape = ()
@@ -81,11 +76,6 @@ class Experiment:
           use_put_replicated = True
           bshape = (jax.local_device_count(), self.config.num_models)
           x_shape = bshape + (batch_size_per_device,) + self.config_model.shape
-          if self.sample_idx:
-            self.sample_idx = jnp.array(
-                [self.sample_idx]
-                * (jax.local_device_count() // self.config.num_models)
-            )
       else:
         bshape = (self.config.num_models,)
         x_shape = bshape + (self.config.batch_size,) + self.config_model.shape
@@ -567,6 +557,7 @@ class CO_Experiment(Experiment):
 
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
+        eval_val = self._group_by_model(eval_val, bshape)
         eval_val = eval_val.reshape(self.config.num_models, -1)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
@@ -580,7 +571,7 @@ class CO_Experiment(Experiment):
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
           rnew_x = jnp.reshape(
-              new_x,
+              self._group_by_model(new_x, bshape),
               (self.config.num_models, self.config.batch_size)
               + self.config_model.shape,
           )
@@ -616,6 +607,7 @@ class CO_Experiment(Experiment):
       running_time += time.time() - start
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
+        eval_val = self._group_by_model(eval_val, bshape)
         eval_val = eval_val.reshape(self.config.num_models, -1)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
@@ -629,7 +621,7 @@ class CO_Experiment(Experiment):
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
           rnew_x = jnp.reshape(
-              new_x,
+              self._group_by_model(new_x, bshape),
               (self.config.num_models, self.config.batch_size)
               + self.config_model.shape,
           )
@@ -656,6 +648,12 @@ class CO_Experiment(Experiment):
     )
     saver.save_results(acc_ratios, hops, None, running_time)
 
+  def _group_by_model(self, val, bshape):
+    # models replicated over the devices: bring together the chains of a model.
+    if math.prod(bshape) != self.config.num_models:
+      val = jnp.swapaxes(val, 0, 1)
+    return val
+
   def _initialize_chain_vars(self, bshape):
     t_schedule = self._build_temperature_schedule(self.config)
     sample_mask = self.sample_idx >= 0
-- 
2.43.0


From 09d8424cc1c6ad98193d9d1d10724454af67d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 18/35] fix: results of all but the last batch of graphs were
 overwritten

---
 discs/common/experiment_saver.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index ea7c0d2..504c03e 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -18,6 +18,7 @@ class Saver:
   def __init__(self, config: ml_collections.ConfigDict):
     self.config = config
     self.save_dir = config.experiment.save_root
+    self.co_results = []
     if not os.path.isdir(self.save_dir):
       os.makedirs(self.save_dir)
 
@@ -119,13 +120,21 @@ class Saver:
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
   def save_co_resuts(self, trajectory, best_ratio, running_time, best_samples):
+    # called once per batch of graphs, the file covers all of them.
+    self.co_results.append((
+        np.array(trajectory),
+        np.array(best_ratio),
+        running_time,
+        np.array(best_samples),
+    ))
+    trajectories, best_ratios, times, samples = zip(*self.co_results)
     results = {}
-    results['trajectory'] = np.array(trajectory)
-    results['best_ratio'] = np.array(best_ratio)
-    results['running_time'] = running_time
-    results['best_ratio_mean'] = np.mean(np.array(best_ratio))
+    results['trajectory'] = np.concatenate(trajectories, axis=-1)
+    results['best_ratio'] = np.concatenate(best_ratios)
+    results['running_time'] = sum(times)
+    results['best_ratio_mean'] = np.mean(results['best_ratio'])
     if len(best_samples) != 0:
-      results['best_samples'] = np.array(best_samples)
+      results['best_samples'] = np.concatenate(samples)
     self._dump_dict(results, 'results')
 
   def dump_params(self, params):
-- 
2.43.0


From a619d72342618f641e01253cd7aece99f642d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 19/35] fix: results of non-adaptive samplers were labelled as
 adaptive

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index 504c03e..5b71001 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -54,7 +54,7 @@ class Saver:
 
     results = {}
     results['sampler'] = self.config.sampler.name
-    if 'adaptive' in self.config.sampler.keys():
+    if self.config.sampler.get('adaptive', False):
       results['sampler'] = f'a_{self.config.sampler.name}'
 
     if 'solver' in self.config.sampler.keys():
-- 
2.43.0


From 8781dfad7c62475086bd680d8a43197d445a937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 20/35] fix: ESS values saved by a single-device run lost
 digits when read for plotting

---
 discs/plot_results/plot_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index ba7a051..5c91f76 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -370,7 +370,7 @@ def save_result_as_csv(all_mapped_names, dir_name):
         writer.writerow(data)
 
 def extract_floats(string_of_numbers):
-  string_of_numbers = string_of_numbers[2:-2].strip()
+  string_of_numbers = string_of_numbers.strip('[] ')
   gap = string_of_numbers.find(' ')
   f1 = float(string_of_numbers[0:gap])
   f2 = float(string_of_numbers[gap + 1 :])
-- 
2.43.0


From 74ef607c3b171a56ea49156eae82297cd850932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 21/35] fix: text infilling evaluation was compiled although it
 works on strings

---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 5dbf8b9..da350e7 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -340,7 +340,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
   """Class used to sample sentences for text infilling."""
 
   def get_results(self, model, sampler, evaluator, saver):
-    obj_fn = jax.jit(evaluator.evaluate)
+    obj_fn = evaluator.evaluate
     infill_sents = []
     infill_sents_topk = []
     rnd_key = 0
-- 
2.43.0


From 4e7320a2399975e82fd39e1a2e26398c1f77c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 22/35] fix: infilled sentences from the tenth on kept a
 character of their index

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index da350e7..2fd8c48 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -392,9 +392,9 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       }
       topk_sentences = list(sorted_sent.keys())[-self.config.topk_num :]
       for i, sent in enumerate(topk_sentences):
-        topk_sentences[i] = sent[2:]
+        topk_sentences[i] = sent.split(' ', 1)[1]
       for i, sent in enumerate(sentences):
-        sentences[i] = sent[2:]
+        sentences[i] = sent.split(' ', 1)[1]
 
     return True, sentences, topk_sentences
 
-- 
2.43.0


From 38bf890a806544c8b95dad32c01862b235d1ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:16 +0000
Subject: [PATCH 23/35] fix: text infilling energy did not mask the token being
 scored

---
 discs/models/text_infilling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/text_infilling.py b/discs/models/text_infilling.py
index ef769eb..c909a1a 100644
--- a/discs/models/text_infilling.py
+++ b/discs/models/text_infilling.py
@@ -122,7 +122,7 @@ class TextInfilling(abstractmodel.AbstractModel):
     x = jnp.where(x.shape[0] == len(self.infill_pos), jnp.array([x]), x)
 
     mask_dummy_array = jnp.zeros([1, self.num_categories])
-    mask_dummy_array = mask_dummy_array.at[1, self.mask_token].set(1.0)
+    mask_dummy_array = mask_dummy_array.at[0, self.mask_token].set(1.0)
     loglikelihood = 0.0
     for i in range(0, len(self.infill_pos)):
       x_new = x.at[:, i, :].set(mask_dummy_array)
-- 
2.43.0


From 9821a0e84ff31b44fde19004245e36ee53a80c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:31 +0000
Subject: [PATCH 24/35] fix: adaptive path auxiliary sampler flipped masked
 variables once its radius outgrew the free ones

---
 discs/samplers/path_auxiliary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 0d1fdac..82c62fd 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -93,6 +93,12 @@ class PAFSNoReplacement(PathAuxiliarySampler):
     if self.adaptive:
       num_samples = jnp.clip(jnp.round(state['radius']).astype(jnp.int32),
                              a_min=1, a_max=math.prod(self.sample_shape))
+      if x_mask is not None:
+        sites = x[..., :1] if self.num_categories != 2 else x
+        active = jnp.broadcast_to(x_mask, sites.shape)
+        active = jnp.sum(active, axis=range(1, active.ndim))
+        num_samples = jnp.clip(
+            num_samples, a_min=1, a_max=jnp.min(active).astype(jnp.int32))
     else:
       num_samples = self.num_flips
     x_shape = x.shape
-- 
2.43.0


From 76ff7d519ca507b388ecb3b13cf242edee810a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:42 +0000
Subject: [PATCH 25/35] fix: ESS evaluation relied on TFP exposing its JAX
 substrate, which newer releases do not

---
 discs/evaluators/ess_eval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/evaluators/ess_eval.py b/discs/evaluators/ess_eval.py
index 63525de..c419f6a 100644
--- a/discs/evaluators/ess_eval.py
+++ b/discs/evaluators/ess_eval.py
@@ -4,6 +4,7 @@ from discs.evaluators import abstractevaluator
 import jax.numpy as jnp
 import tensorflow as tf
 import tensorflow_probability as tfp
+import tensorflow_probability.substrates.jax  # not loaded by tfp itself
 
 class ESSevaluator(abstractevaluator.AbstractEvaluator):
   """ESS evaluator class."""
-- 
2.43.0


From 3e98dbe297dac0b319a703216743c94175ec5a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:02 +0000
Subject: [PATCH 26/35] fix: training scripts imported the plotting tools from
 a module that does not exist

---
 discs/learning/binary_ebm/main_binary_training.py | 2 +-
 discs/learning/rbm/main_rbm_training.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/learning/binary_ebm/main_binary_training.py b/discs/learning/binary_ebm/main_binary_training.py
index 3219d7a..a713f49 100644
--- a/discs/learning/binary_ebm/main_binary_training.py
+++ b/discs/learning/binary_ebm/main_binary_training.py
@@ -9,7 +9,7 @@ from flax import jax_utils
 from flax.core.frozen_dict import unfreeze
 
 from discs.common import data_loader
-from discs.common import plot
+from discs.plot_results import plot
 from discs.common import utils
 from discs.learning import replay_buffer
 from discs.learning import train
diff --git a/discs/learning/rbm/main_rbm_training.py b/discs/learning/rbm/main_rbm_training.py
index dc42db2..c72595b 100644
--- a/discs/learning/rbm/main_rbm_training.py
+++ b/discs/learning/rbm/main_rbm_training.py
@@ -8,7 +8,7 @@ from absl import flags
 
 from discs.common import data_loader
 from discs.common import utils
-from discs.common import plot
+from discs.plot_results import plot
 from discs.learning import train
 from discs.models import rbm
 from discs.samplers.blockgibbs import RBMBlockGibbsSampler
-- 
2.43.0


From b7733d81eae56a55fe62c24ddfee1da4dd56188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:02 +0000
Subject: [PATCH 27/35] fix: saving sample images used an undefined folder

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index 5b71001..518a333 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -115,7 +115,7 @@ class Saver:
         for chain in range(samples.shape[0]):
           img = samples[chain]
           image_path = os.path.join(
-              root_path, f'sample_{step}_of_chain_{chain}.jpeg'
+              self.save_dir, f'sample_{step}_of_chain_{chain}.jpeg'
           )
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
-- 
2.43.0


From ec486f1810c750bf033a2952507c2dbe22edfb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:02 +0000
Subject: [PATCH 28/35] fix: plotting the estimation error of a run passed the
 wrong arguments

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index 518a333..967ceac 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -93,7 +93,7 @@ class Saver:
   def plot_estimation_error(self, model, params, samples):
     ber_eval = b_eval.build_evaluator(self.config)
     ber_eval.plot_mixing_time_graph_over_chain(
-        self.save_dir, model, params, samples
+        self.save_dir, model, [params], [samples], [self.config.sampler.name]
     )
 
   def save_results(self, acc_ratio, hops, metrcis, running_time):
-- 
2.43.0


From 0e8499b0c3cc47d8f39876bbf27f971f0e515ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:02 +0000
Subject: [PATCH 29/35] fix: plots over time crashed for some trajectory
 lengths

---
 discs/plot_results/plot_co_through_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_co_through_time.py b/discs/plot_results/plot_co_through_time.py
index ddefc1a..b863a03 100644
--- a/discs/plot_results/plot_co_through_time.py
+++ b/discs/plot_results/plot_co_through_time.py
@@ -58,7 +58,7 @@ def plot_graph_cluster(key, dict_results, indeces):
       )
 
       if x_label != 'Steps':
-        x = np.arange(0, 1, (1 / len(x))) * float(
+        x = np.arange(len(x)) / len(x) * float(
             result['results']['running_time']
         )
 
-- 
2.43.0


From 88520240a7cc3051faa09e8a440d0709ec4f0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:02 +0000
Subject: [PATCH 30/35] fix: bars of finished experiments moved to the place of
 unfinished ones

---
 discs/plot_results/plot_results.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index 5c91f76..ada2d27 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -418,9 +418,14 @@ def main(argv) -> None:
         filename = open(filename, 'r')
       except:
         # The experiment has not been completed, we append 0.
-        continue
+        filename = []
       file = csv.DictReader(filename)
-      results = {}
+      results = {
+          'ess_ee': 0.0,
+          'ess_ee_std': 0.0,
+          'ess_clock': 0.0,
+          'ess_clock_std': 0.0,
+      }
       for col in file:
         ESS = extract_floats(col['ESS_EE'])
         if 'chain_length' not in res_dic:
-- 
2.43.0


From 89fddb6b7ec3420300d943d4b2be0f526acadc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:08 +0000
Subject: [PATCH 31/35] fix: the optsicom sweep passed an option its experiment
 does not have

---
 discs/run_configs/co/maxcut/optsicom_sampler_sweep.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
index e66ae1a..b7d96e1 100644
--- a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
+++ b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
@@ -20,11 +20,9 @@ def get_config():
                       'r-b',
                   ],
                   'config.experiment.log_every_steps': [100],
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dmala',
@@ -39,7 +37,6 @@ def get_config():
                   ],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'gwg',
@@ -54,7 +51,6 @@ def get_config():
                   'sampler_config.adaptive': [False],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dlmc',
-- 
2.43.0


From 6784dc0fa648d11d040702031fb19daed5d38ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:03 +0000
Subject: [PATCH 32/35] fix: factorial HMM drew the first hidden state with the
 random bits of its law

With one hidden chain the categories with large initial probability were the
ones with large noise, so the first state was on more often than alpha.
---
 discs/models/fhmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index b89516b..2981e90 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -113,7 +113,8 @@ class CategFHMM(FHMM):
   def make_init_params(self, rnd):
     rnd = rnd.reshape(-1)
     rng1, rng2, rng3, rng4 = jax.random.split(rnd, 4)
-    alpha = jax.random.uniform(rng1, [self.num_categories])
+    rng1, rng_alpha = jax.random.split(rng1)
+    alpha = jax.random.uniform(rng_alpha, [self.num_categories])
     alpha = alpha.at[0].set(1 - self.alpha)
     alpha = alpha.at[1:].set(self.alpha * alpha[1:] / jnp.sum(alpha[1:]))
     alpha_logits = jnp.log(alpha)
-- 
2.43.0


From 325ac816f6b724d53183cbca74d8306d2928c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:44 +0000
Subject: [PATCH 33/35] fix: ESS values of single-device runs lost digits in
 the plot over temperatures

---
 discs/plot_results/plot_ising_temp.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/discs/plot_results/plot_ising_temp.py b/discs/plot_results/plot_ising_temp.py
index e8684ad..73a7759 100644
--- a/discs/plot_results/plot_ising_temp.py
+++ b/discs/plot_results/plot_ising_temp.py
@@ -424,20 +424,21 @@ def main(argv) -> None:
     file = csv.DictReader(filename)
     results = {}        
     for col in file:
-      gap = str.find(col['ESS_EE'], ' ')
+      # '[mean std]' from a single device, '[[mean std]]' from several.
+      ess_ee = [float(v) for v in col['ESS_EE'].strip('[] ').split()]
       if 'chain_length' not in res_dic:
-        results['ess_ee'] = float(col['ESS_EE'][2:gap]) * 50000
-        results['ess_ee_std'] = float(col['ESS_EE'][gap+1:-2])/10 * 50000
+        results['ess_ee'] = ess_ee[0] * 50000
+        results['ess_ee_std'] = ess_ee[1]/10 * 50000
       else:
-        results['ess_ee'] = float(col['ESS_EE'][2:gap]) * int(
+        results['ess_ee'] = ess_ee[0] * int(
             float(res_dic['chain_length']) // 2
         )
-        results['ess_ee_std'] = float(col['ESS_EE'][gap+1:-2])/10 * int(
+        results['ess_ee_std'] = ess_ee[1]/10 * int(
             float(res_dic['chain_length']) // 2
         )      
-      gap_t = str.find(col['ESS_T'], ' ')
-      results['ess_clock'] = float(col['ESS_T'][2:gap_t])
-      results['ess_clock_std'] = float(col['ESS_T'][gap_t+1:-2])
+      ess_t = [float(v) for v in col['ESS_T'].strip('[] ').split()]
+      results['ess_clock'] = ess_t[0]
+      results['ess_clock_std'] = ess_t[1]
 
     res_dic['results'] = results
     experiments_results.append(res_dic)
-- 
2.43.0


From 4c6a4efa3a5014322b838276b33027cc903d403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:44 +0000
Subject: [PATCH 34/35] fix: the plot over temperatures crashed when an
 experiment had not finished

---
 discs/plot_results/plot_ising_temp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/plot_results/plot_ising_temp.py b/discs/plot_results/plot_ising_temp.py
index 73a7759..a4800dd 100644
--- a/discs/plot_results/plot_ising_temp.py
+++ b/discs/plot_results/plot_ising_temp.py
@@ -416,7 +416,9 @@ def main(argv) -> None:
       print(filename)
       results = {}
       results['ess_ee'] = 0
+      results['ess_ee_std'] = 0
       results['ess_clock'] = 0
+      results['ess_clock_std'] = 0
       res_dic['results'] = results
       experiments_results.append(res_dic)
       print("%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%")
-- 
2.43.0


From 93cafd550bfd3ff17f98ea4e3e35c27712fad78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:19 +0000
Subject: [PATCH 35/35] fix: the plot over temperatures put the first one at
 0.1607 whatever it was

---
 discs/plot_results/plot_ising_temp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/discs/plot_results/plot_ising_temp.py b/discs/plot_results/plot_ising_temp.py
index a4800dd..11fbeed 100644
--- a/discs/plot_results/plot_ising_temp.py
+++ b/discs/plot_results/plot_ising_temp.py
@@ -363,12 +363,12 @@ def prepare_for_ising(all_mapped_names):
     if sampler in ['save_title', 'model']:
       continue
     res[sampler] = {}
-    res[sampler]['ess_ee'] = [all_mapped_names[0][sampler]['ess_ee'][0]]
-    res[sampler]['ess_ee_std'] = [all_mapped_names[0][sampler]['ess_ee_std'][0]] 
-    res[sampler]['ess_clock'] = [all_mapped_names[0][sampler]['ess_clock'][0]]
-    res[sampler]['ess_clock_std'] = [all_mapped_names[0][sampler]['ess_clock_std'][0]]
-    res[sampler]['x'] = [0.1607]
-    for temp in range(1, len(all_mapped_names)):
+    res[sampler]['ess_ee'] = []
+    res[sampler]['ess_ee_std'] = []
+    res[sampler]['ess_clock'] = []
+    res[sampler]['ess_clock_std'] = []
+    res[sampler]['x'] = []
+    for temp in range(len(all_mapped_names)):
       x_val = map_temp(all_mapped_names[temp]['save_title'])
       res[sampler]['x'].append(x_val)
       res[sampler]['ess_ee'].append(
-- 
2.43.0

