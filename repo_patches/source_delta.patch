From 9b973514f57e16ce5699111c0748b294d682ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 01/17] fix: HMC uses its conditioning matrix consistently in
 kinetic energy and momentum

The kinetic energy used only per-coordinate products, so for a non-diagonal
matrix it was not the one whose momenta are drawn; the documented scalar and
diagonal (1-d) matrices crashed in jnp.linalg.inv.
---
 src/flowMC/resource/kernel/HMC.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index 9ed3e97..b0f47d0 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -118,7 +118,7 @@ class HMC(ProposalBase):
         def kinetic(
             p: Float[Array, " n_dim"], metric: Float[Array, " n_dim"]
         ) -> Float[Array, "1"]:
-            return 0.5 * (p**2 * metric).sum()
+            return 0.5 * jnp.dot(p, jnp.dot(metric, p))
 
         leapfrog_kernel = jax.tree_util.Partial(
             self.leapfrog_kernel, kinetic, potential
@@ -127,19 +127,21 @@ class HMC(ProposalBase):
 
         key1, key2 = jax.random.split(rng_key)
 
-        momentum: Float[Array, " n_dim"] = (
-            jax.random.normal(key1, shape=position.shape) * self.condition_matrix**-0.5
-        )
-        momentum = jnp.dot(
+        # Promote scalar and diagonal conditioning to the full matrix
+        metric = jnp.asarray(self.condition_matrix, dtype=position.dtype)
+        if metric.ndim < 2:
+            metric = jnp.diag(jnp.broadcast_to(metric, position.shape))
+
+        momentum: Float[Array, " n_dim"] = jnp.dot(
             jax.random.normal(key1, shape=position.shape),
-            jnp.linalg.cholesky(jnp.linalg.inv(self.condition_matrix)).T,
+            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
         )
-        H = -log_prob + kinetic(momentum, self.condition_matrix)
+        H = -log_prob + kinetic(momentum, metric)
         proposed_position, proposed_momentum = leapfrog_step(
-            position, momentum, data, self.condition_matrix
+            position, momentum, data, metric
         )
         proposed_PE = potential(proposed_position, data)
-        proposed_ham = proposed_PE + kinetic(proposed_momentum, self.condition_matrix)
+        proposed_ham = proposed_PE + kinetic(proposed_momentum, metric)
         log_acc = H - proposed_ham
         log_uniform = jnp.log(jax.random.uniform(key2))
 
-- 
2.43.0


From aa07706a9ba01450a151ba2e8a6e110739c77af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 02/17] fix: the global step target only sees the data the
 caller passed

TakeGroupSteps replaced an "n_steps" entry of the user data in the data
handed to the target, so a target reading that entry was evaluated with the
wrong value.
---
 src/flowMC/strategy/take_steps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3d8c114..62274f8 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -200,7 +200,8 @@ class TakeGroupSteps(TakeSteps):
             rng_key,
             initial_position,
             logpdf(initial_position, data),
-            logpdf,
+            # "n_steps" is for the kernel: the target only sees the caller's data
+            lambda x, _: logpdf(x, data),
             {**data, "n_steps": self.n_steps},
         )
         return positions, log_probs, do_accepts
-- 
2.43.0


From 5e0cadf11a37917fc204b8bbbb4495ffe70f313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 03/17] fix: record exactly n_steps // thinning states per call

When thinning does not divide n_steps one state more was written than the
write position advanced, so the last record of a call was overwritten by the
next call, and at the end of a buffer earlier records were overwritten. The
chain now also continues from its last state.
---
 src/flowMC/strategy/take_steps.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 62274f8..d1bd0f4 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -131,17 +131,19 @@ class TakeSteps(Strategy):
                 )
             )(subkey, initial_position, logpdf, data)
 
-        positions = positions[:, :: self.thinning]
-        log_probs = log_probs[:, :: self.thinning]
-        do_accepts = do_accepts[:, :: self.thinning].astype(
-            acceptance_buffer.data.dtype
-        )
+        last_positions = positions[:, -1]
+        # Record exactly n_record states, even if thinning does not divide n_steps
+        n_record = self.n_steps // self.thinning
+        recorded = slice(0, n_record * self.thinning, self.thinning)
+        positions = positions[:, recorded]
+        log_probs = log_probs[:, recorded]
+        do_accepts = do_accepts[:, recorded].astype(acceptance_buffer.data.dtype)
 
         position_buffer.update_buffer(positions, self.current_position)
         log_prob_buffer.update_buffer(log_probs, self.current_position)
         acceptance_buffer.update_buffer(do_accepts, self.current_position)
-        self.current_position += self.n_steps // self.thinning
-        return rng_key, resources, positions[:, -1]
+        self.current_position += n_record
+        return rng_key, resources, last_positions
 
 
 class TakeSerialSteps(TakeSteps):
-- 
2.43.0


From 923d3b6f8836b88c6ef3a15fa6bb167f4fcee2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 04/17] fix: keep the replicas' positions between calls outside
 training

ParallelTempering only wrote the tempered positions back while training, so
in production every call restarted the hot replicas from the same stale
positions and duplicated walkers that had been exchanged down.
---
 src/flowMC/strategy/parallel_tempering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 0d70df1..d788302 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -120,9 +120,9 @@ class ParallelTempering(Strategy):
             print("Mean acceptance of exchange steps in PT: " + str(mean_accs))
 
         # Update the buffers
-        if state.data["training"]:
+        tempered_positions.update_buffer(positions[:, 1:], 0)
 
-            tempered_positions.update_buffer(positions[:, 1:], 0)
+        if state.data["training"]:
 
             # Adapt the temperatures
             temperatures.update_buffer(
-- 
2.43.0


From 2eaff1b3f51658862c4eb789c5a5f01b82a5ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 05/17] fix: keep the temperature ladder increasing and below
 its maximum

The adaptation could move interior temperatures to or past the maximum
temperature, and with few chains the exponential overflowed or collapsed a
gap to zero.
---
 src/flowMC/strategy/parallel_tempering.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index d788302..4dd9763 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -410,10 +410,8 @@ class ParallelTempering(Strategy):
             do_accept (Int[Array, " n_chains n_temps 1"]): Acceptance flags for each chain and temperature.
 
         Returns:
-            Float[Array, " n_temps"]: Updated temperatures.
-
-        TODO: The adaptation now let's the temperature to go above the maximum temperature.
-        Need to add a check to prevent this.
+            Float[Array, " n_temps"]: Updated temperatures. The lowest and the highest
+                temperatures are fixed and the ladder stays strictly increasing.
         """
         # Adapt the temperature based on the acceptance rate
 
@@ -421,8 +419,12 @@ class ParallelTempering(Strategy):
             print("Adapting temperatures")
 
         acceptance_rate = jnp.mean(do_accept, axis=0)
-        damping_factor = (100.0 / do_accept.shape[0]) * (
-            acceptance_rate[:-1] - acceptance_rate[1:]
+        # Bound the exponent so that a gap neither overflows nor vanishes in
+        # floating point when there are only a few chains
+        damping_factor = jnp.clip(
+            (100.0 / do_accept.shape[0]) * (acceptance_rate[:-1] - acceptance_rate[1:]),
+            -5.0,
+            5.0,
         )
         new_temperatures = temperatures
         for i in range(1, temperatures.shape[0] - 1):
@@ -432,5 +434,13 @@ class ParallelTempering(Strategy):
                 * jnp.exp(damping_factor[i - 1])
             )
 
+        # Shrink the whole update when it would push the ladder past the maximum
+        # temperature. Every gap keeps the direction in which it changes.
+        if temperatures.shape[0] > 2:
+            shift = new_temperatures - temperatures
+            room = temperatures[-1] - temperatures[-2]
+            scale = jnp.where(shift[-2] < room, 1.0, 0.5 * room / shift[-2])
+            new_temperatures = temperatures + scale * shift
+
         # jax.debug.print("{} {} {} {}", temperatures, acceptance_rate, damping_factor, new_temperatures )
         return new_temperatures
-- 
2.43.0


From 5ee0524db73c0529628f1d04b70c5b23e394ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 06/17] fix: include the prior in the target of the tempering
 bundle's steppers

The cold replica samples likelihood times prior while the local and global
steps sampled the likelihood only, so a non-flat prior was applied by one
part of the loop and ignored by the others.
---
 src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
index af97302..b2c42bf 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
@@ -109,7 +109,12 @@ class RQSpline_MALA_PT_Bundle(ResourceStrategyBundle):
             model, n_NFproposal_batch_size=n_NFproposal_batch_size
         )
         optimizer = Optimizer(model=model, learning_rate=learning_rate)
-        logpdf = LogPDF(logpdf, n_dims=n_dims)
+
+        def log_posterior(x: Float[Array, " n_dim"], data: dict) -> Float:
+            return logpdf(x, data) + logprior(x, data)
+
+        # The local and global steps sample the same target as the cold replica
+        target_logpdf = LogPDF(log_posterior, n_dims=n_dims)
 
         # Here are the resources for the parallel tempering
         tempered_logpdf = TemperedPDF(
@@ -139,7 +144,7 @@ class RQSpline_MALA_PT_Bundle(ResourceStrategyBundle):
         )
 
         self.resources = {
-            "logpdf": logpdf,
+            "logpdf": target_logpdf,
             "positions_training": positions_training,
             "log_prob_training": log_prob_training,
             "local_accs_training": local_accs_training,
-- 
2.43.0


From a5effc1bacae829b6ac9d47ae0f1a2e3e759cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 07/17] fix: buffers and states survive saving and loading

A loaded buffer lost its cursor and its axis and had an array for a name;
loading a state always failed.
---
 src/flowMC/resource/buffers.py | 7 +++++--
 src/flowMC/resource/states.py  | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flowMC/resource/buffers.py b/src/flowMC/resource/buffers.py
index 0fc3f25..3b7f946 100644
--- a/src/flowMC/resource/buffers.py
+++ b/src/flowMC/resource/buffers.py
@@ -54,11 +54,14 @@ class Buffer(Resource):
             path + self.name,
             name=self.name,
             data=self.data,
+            cursor=self.cursor,
+            cursor_dim=self.cursor_dim,
         )
 
     def load_resource(self: TBuffer, path: str) -> TBuffer:
         data = np.load(path)
-        buffer: Float[Array, " ..."] = data["data"]
-        result = Buffer(data["name"], buffer.shape)
+        buffer: Float[Array, " ..."] = jnp.asarray(data["data"])
+        result = Buffer(str(data["name"]), buffer.shape, int(data["cursor_dim"]))
         result.data = buffer
+        result.cursor = int(data["cursor"])
         return result  # type: ignore
diff --git a/src/flowMC/resource/states.py b/src/flowMC/resource/states.py
index ca75659..400757c 100644
--- a/src/flowMC/resource/states.py
+++ b/src/flowMC/resource/states.py
@@ -58,6 +58,7 @@ class State(Resource):
         )
 
     def load_resource(self: TState, path: str) -> TState:
-        data = np.load(path)
-        result = State(data["name"], data["data"])
+        # The entries are stored as a pickled dictionary.
+        data = np.load(path, allow_pickle=True)
+        result = State(data["data"].item(), name=str(data["name"]))
         return result  # type: ignore
-- 
2.43.0


From 560f928ef291c9bf556b0ea2538965ae8c1e1e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 08/17] fix: invert the parts of a spline layer in reverse
 order

---
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index d101252..20a180f 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -479,9 +479,9 @@ class MaskedCouplingRQSpline(NFModel):
         def f(carry, data):
             x, log_det = carry
             layers = eqx.combine(data, statics)
-            x, log_det_i = layers[0].inverse(x, condition)
-            log_det += log_det_i
             x, log_det_i = layers[1].inverse(x, condition)
+            log_det += log_det_i
+            x, log_det_i = layers[0].inverse(x, condition)
             return (x, log_det + log_det_i), None
 
         (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics, reverse=True)
-- 
2.43.0


From 93f88a53f567fb923d9e8ad8c89bdef7a7174d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 09/17] fix: composite distributions sample arrays laid out as
 in their log density

A dictionary of parts cannot be the base of a flow and does not fit log_prob.
---
 src/flowMC/resource/model/common.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flowMC/resource/model/common.py b/src/flowMC/resource/model/common.py
index 8de695d..a5b5b7d 100644
--- a/src/flowMC/resource/model/common.py
+++ b/src/flowMC/resource/model/common.py
@@ -310,8 +310,11 @@ class Composable(Distribution):
     def sample(
         self, rng_key: PRNGKeyArray, n_samples: int
     ) -> Float[Array, " n_samples n_features"]:
-        samples = {}
-        for dist, (key, _) in zip(self.distributions, self.partitions.items()):
+        n_features = max(end for _, end in self.partitions.values())
+        samples = jnp.zeros((n_samples, n_features))
+        for dist, (_, ranges) in zip(self.distributions, self.partitions.items()):
             rng_key, sub_key = jax.random.split(rng_key)
-            samples[key] = dist.sample(sub_key, n_samples=n_samples)
-        return samples  # type: ignore
+            samples = samples.at[:, ranges[0] : ranges[1]].set(
+                dist.sample(sub_key, n_samples=n_samples)
+            )
+        return samples
-- 
2.43.0


From bedcd6173af3e0b259ccd628ef90aab3f0d6a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 10/17] fix: flow log densities include the whitening and the
 model's own base

The volume of the whitening was missing, and RealNVP always evaluated a
standard normal base.
---
 src/flowMC/resource/model/nf_model/realNVP.py  | 7 +++----
 src/flowMC/resource/model/nf_model/rqSpline.py | 5 +++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 38211ca..32548c2 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -215,11 +215,10 @@ class RealNVP(NFModel):
 
     def log_prob(self, x: Float[Array, " n_dim"]) -> Float:
         # TODO: Check whether taking away vmap hurts accuracy.
-        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
+        std = jnp.sqrt(jnp.diag(self.data_cov))
+        x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
-        log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
-            y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
-        )
+        log_det = log_det + self.base_dist.log_prob(y) - jnp.sum(jnp.log(std))
         return log_det
 
     def print_parameters(self):
diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index 20a180f..6958116 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -498,9 +498,10 @@ class MaskedCouplingRQSpline(NFModel):
     def log_prob(self, x: Float[Array, "n_sample n_dim"]) -> Float[Array, " n_sample"]:
         """From data space to latent space."""
         # TODO: Check if taking away vmap hurts accuracy.
-        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
+        std = jnp.sqrt(jnp.diag(self.data_cov))
+        x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
-        log_det = log_det + self.base_dist.log_prob(y)
+        log_det = log_det + self.base_dist.log_prob(y) - jnp.sum(jnp.log(std))
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From 883b671b859704cdc950171ee9181ebc297a7b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 11/17] fix: composite distributions stay paired with their
 partitions when flattened

---
 src/flowMC/resource/model/common.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/common.py b/src/flowMC/resource/model/common.py
index a5b5b7d..c36d610 100644
--- a/src/flowMC/resource/model/common.py
+++ b/src/flowMC/resource/model/common.py
@@ -298,8 +298,12 @@ class Composable(Distribution):
     partitions: dict[str, tuple[int, int]]
 
     def __init__(self, distributions: list[Distribution], partitions: dict):
-        self.distributions = distributions
-        self.partitions = partitions
+        # Flattening a dictionary sorts its keys, so the distributions have to be kept
+        # in the same order to stay paired with their partitions.
+        names = list(partitions.keys())
+        order = sorted(range(len(names)), key=lambda i: names[i])
+        self.distributions = [distributions[i] for i in order]
+        self.partitions = {names[i]: partitions[names[i]] for i in order}
 
     def log_prob(self, x: Float[Array, " n_dim"]) -> Float:
         log_prob = 0
-- 
2.43.0


From 4913d9d702e235f68d5f09370ca142b7b0bc68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 12/17] fix: changing the precision leaves integer and boolean
 arrays alone

---
 src/flowMC/resource/model/nf_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index fa3029f..1d0e197 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -235,7 +235,7 @@ class NFModel(eqx.Module, Resource):
                 f"Precision {precision} not supported.\
                 Choose from {precisions_dict.keys()}"
             )
-        dynamic_model, static_model = eqx.partition(self, eqx.is_array)
+        dynamic_model, static_model = eqx.partition(self, eqx.is_inexact_array)
         dynamic_model = jax.tree.map(
             lambda x: x.astype(precision_format), dynamic_model
         )
-- 
2.43.0


From 790067c2e982da156d419ca5bf1cbacea71d2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 13/17] fix: flows can be evaluated and sampled in half
 precision

---
 src/flowMC/resource/model/common.py            | 14 ++++++++++++--
 src/flowMC/resource/model/nf_model/realNVP.py  |  4 ++--
 src/flowMC/resource/model/nf_model/rqSpline.py |  4 ++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/resource/model/common.py b/src/flowMC/resource/model/common.py
index c36d610..3dfa9be 100644
--- a/src/flowMC/resource/model/common.py
+++ b/src/flowMC/resource/model/common.py
@@ -240,6 +240,11 @@ class ScalarAffine(Bijection):
         return y, log_det
 
 
+def _at_least_single(x: Array) -> Array:
+    """Linear algebra is not available in half precision."""
+    return jnp.asarray(x, jnp.promote_types(jnp.result_type(x), jnp.float32))
+
+
 class Gaussian(Distribution):
     r"""Multivariate Gaussian distribution.
 
@@ -283,13 +288,18 @@ class Gaussian(Distribution):
         self.learnable = learnable
 
     def log_prob(self, x: Float[Array, " n_dim"]) -> Float:
-        return jax.scipy.stats.multivariate_normal.logpdf(x, self.mean, self.cov)
+        return jax.scipy.stats.multivariate_normal.logpdf(
+            x, _at_least_single(self.mean), _at_least_single(self.cov)
+        )
 
     def sample(
         self, rng_key: PRNGKeyArray, n_samples: int
     ) -> Float[Array, " n_samples n_features"]:
         return jax.random.multivariate_normal(
-            rng_key, self.mean, self.cov, (n_samples,)
+            rng_key,
+            _at_least_single(self.mean),
+            _at_least_single(self.cov),
+            (n_samples,),
         )
 
 
diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 32548c2..6ee6264 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -177,7 +177,7 @@ class RealNVP(NFModel):
         key: Optional[PRNGKeyArray] = None,
         condition: Optional[Float[Array, " n_condition"]] = None,
     ) -> tuple[Float[Array, " n_dim"], Float]:
-        log_det = 0.0
+        log_det = jnp.zeros((), dtype=x.dtype)
         dynamics, statics = eqx.partition(self.affine_coupling, eqx.is_array)
 
         def f(carry, data):
@@ -195,7 +195,7 @@ class RealNVP(NFModel):
         condition: Optional[Float[Array, " n_condition"]] = None,
     ) -> tuple[Float[Array, " n_dim"], Float]:
         """From latent space to data space."""
-        log_det = 0.0
+        log_det = jnp.zeros((), dtype=x.dtype)
         dynamics, statics = eqx.partition(self.affine_coupling, eqx.is_array)
 
         def f(carry, data):
diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index 6958116..156d707 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -453,7 +453,7 @@ class MaskedCouplingRQSpline(NFModel):
         key: Optional[PRNGKeyArray] = None,
         condition: Optional[Float[Array, " n_condition"]] = None,
     ) -> tuple[Float[Array, " n_dim"], Float]:
-        log_det = 0.0
+        log_det = jnp.zeros((), dtype=x.dtype)
         dynamics, statics = eqx.partition(self.layers, eqx.is_array)
 
         def f(carry, data):
@@ -473,7 +473,7 @@ class MaskedCouplingRQSpline(NFModel):
         condition: Optional[Float[Array, " n_condition"]] = None,
     ) -> tuple[Float[Array, " n_dim"], Float]:
         """From latent space to data space."""
-        log_det = 0.0
+        log_det = jnp.zeros((), dtype=x.dtype)
         dynamics, statics = eqx.partition(self.layers, eqx.is_array)
 
         def f(carry, data):
-- 
2.43.0


From 4741f9d97406a645f74d31c92a2acf4a9cdd8aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 14/17] fix: flow-matching log density evaluates the base at
 the noise point

---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 08935cb..f6ca599 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -90,7 +90,7 @@ class Solver(eqx.Module):
         x0, log_p = solve_ode(x1, dt)
         return (
             logpdf(
-                x1,
+                x0[-1],
                 mean=self.model.n_output * jnp.zeros(self.model.n_output),
                 cov=jnp.eye(self.model.n_output),
             )
-- 
2.43.0


From e2f8f416f8c1859c9a992f5c96aaacda9ffbf70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 15/17] fix: optimizers leave masks, whitening and fixed base
 distributions alone

---
 src/flowMC/resource/model/common.py           | 29 ++++++++++++++++++-
 .../resource/model/flowmatching/base.py       |  4 +--
 src/flowMC/resource/model/nf_model/base.py    |  3 +-
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/flowMC/resource/model/common.py b/src/flowMC/resource/model/common.py
index 3dfa9be..41c3fdf 100644
--- a/src/flowMC/resource/model/common.py
+++ b/src/flowMC/resource/model/common.py
@@ -3,7 +3,7 @@ from typing import Callable, List, Tuple, Optional
 import equinox as eqx
 import jax
 import jax.numpy as jnp
-from jaxtyping import Array, Float, PRNGKeyArray
+from jaxtyping import Array, Float, PRNGKeyArray, PyTree
 from abc import abstractmethod
 
 
@@ -332,3 +332,30 @@ class Composable(Distribution):
                 dist.sample(sub_key, n_samples=n_samples)
             )
         return samples
+
+
+def trainable(model: PyTree) -> PyTree:
+    """Mark the leaves of a model which an optimizer may move.
+
+    Masks, whitening statistics, the range and minimum sizes of splines and distributions
+    which are not learnable are frozen, also for optimizers which move parameters without
+    a gradient (weight decay).
+    """
+    frozen = (
+        "_data_mean",
+        "_data_cov",
+        "_mask",
+        "_range_min",
+        "_range_max",
+        "_min_bin_size",
+        "_min_knot_slope",
+    )
+
+    def is_fixed(node):
+        return isinstance(node, Distribution) and not getattr(node, "learnable", True)
+
+    def mark(path, node):
+        names = [getattr(key, "name", "") for key in path]
+        return not is_fixed(node) and not any(name in frozen for name in names)
+
+    return jax.tree_util.tree_map_with_path(mark, model, is_leaf=is_fixed)
diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index f6ca599..3248faf 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -2,7 +2,7 @@ import equinox as eqx
 from jaxtyping import PRNGKeyArray, Float, Array, PyTree
 import optax
 from flowMC.resource.base import Resource
-from flowMC.resource.model.common import MLP
+from flowMC.resource.model.common import MLP, trainable
 from typing_extensions import Self
 from typing import Optional
 import jax.numpy as jnp
@@ -213,7 +213,7 @@ class FlowMatchingModel(eqx.Module, Resource):
         print("Compiling training step")
         loss, grads = model.loss_fn(x_t, t, dx_t)
         updates, state = optim.update(grads, state, model)  # type: ignore
-        model = eqx.apply_updates(model, updates)
+        model = eqx.apply_updates(model, eqx.filter(updates, trainable(model)))
         return loss, model, state
 
     def train_epoch(
diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index 1d0e197..3b929f2 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -9,6 +9,7 @@ from jaxtyping import Array, Float, PRNGKeyArray
 from tqdm import tqdm, trange
 from typing_extensions import Self
 from flowMC.resource.base import Resource
+from flowMC.resource.model.common import trainable
 
 
 class NFModel(eqx.Module, Resource):
@@ -121,7 +122,7 @@ class NFModel(eqx.Module, Resource):
         print("Compiling training step")
         loss, grads = model.loss_fn(x)
         updates, state = optim.update(grads, state, model)  # type: ignore
-        model = eqx.apply_updates(model, updates)
+        model = eqx.apply_updates(model, eqx.filter(updates, trainable(model)))
         return loss, model, state
 
     def train_epoch(
-- 
2.43.0


From 9f06f1f494a00ddc1267503db6abb9d88e412859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 16/17] fix: keep the best epoch however large its loss is

---
 src/flowMC/resource/model/flowmatching/base.py | 7 ++++---
 src/flowMC/resource/model/nf_model/base.py     | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 3248faf..3737710 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -291,11 +291,12 @@ class FlowMatchingModel(eqx.Module, Resource):
         else:
             pbar = range(num_epochs)
 
-        best_model = model = self
-        best_state = state
-        best_loss = 1e9
+        model = self
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data[1], axis=0))
         model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data[1].T))
+        best_model = model
+        best_state = state
+        best_loss = jnp.inf
         for epoch in pbar:
             # Use a separate PRNG key to permute image data during shuffling
             rng, input_rng = jax.random.split(rng)
diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index 3b929f2..57b6c9a 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -182,11 +182,12 @@ class NFModel(eqx.Module, Resource):
         else:
             pbar = range(num_epochs)
 
-        best_model = model = self
-        best_state = state
-        best_loss = 1e9
+        model = self
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data, axis=0))
         model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data.T))
+        best_model = model
+        best_state = state
+        best_loss = jnp.inf
         for epoch in pbar:
             # Use a separate PRNG key to permute image data during shuffling
             rng, input_rng = jax.random.split(rng)
-- 
2.43.0


From 5cb450ab8233bdb5501eaa120610cb4d88d8f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 17/17] fix: select the training window of each chain
 separately

---
 src/flowMC/strategy/train_model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/strategy/train_model.py b/src/flowMC/strategy/train_model.py
index d04d893..bb02d29 100644
--- a/src/flowMC/strategy/train_model.py
+++ b/src/flowMC/strategy/train_model.py
@@ -63,12 +63,11 @@ class TrainModel(Strategy):
         assert isinstance(
             optimizer, Optimizer
         ), "Optimizer resource must be an optimizer"
-        n_chains = data_resource.data.shape[0]
-        n_dims = data_resource.data.shape[-1]
-        training_data = data_resource.data[
-            jnp.isfinite(data_resource.data).all(axis=-1)
-        ].reshape(n_chains, -1, n_dims)
-        training_data = training_data[:, -self.history_window :].reshape(-1, n_dims)
+        # The most recent finite samples of each chain. Chains can differ in their number
+        # of finite samples, so the samples of a chain are counted from its end.
+        finite = jnp.isfinite(data_resource.data).all(axis=-1)
+        age = jnp.cumsum(finite[:, ::-1], axis=1)[:, ::-1]
+        training_data = data_resource.data[finite & (age <= self.history_window)]
         rng_key, subkey = jax.random.split(rng_key)
         training_data = training_data[
             jax.random.choice(
-- 
2.43.0

