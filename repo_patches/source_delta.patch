From 8f9af1b0b6c96731043ce12de5f76c08b4e43510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:07 +0000
Subject: [PATCH 01/25] fix: segment tree assignment with an empty index array
 no longer loops forever

---
 tianshou/data/utils/segtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/utils/segtree.py b/tianshou/data/utils/segtree.py
index 3e4582c..37ccf86 100644
--- a/tianshou/data/utils/segtree.py
+++ b/tianshou/data/utils/segtree.py
@@ -96,7 +96,7 @@ class SegmentTree:
 def _setitem(tree: np.ndarray, index: np.ndarray, value: np.ndarray) -> None:
     """Numba version, 4x faster: 0.1 -> 0.024."""
     tree[index] = value
-    while index[0] > 1:
+    while index.size > 0 and index[0] > 1:
         index //= 2
         tree[index] = tree[index * 2] + tree[index * 2 + 1]
 
-- 
2.43.0


From e5f7907bdcd524f8899a51fd3e47e120420dbd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 02/25] fix: episode start index reported after a bulk transfer
 into a replay buffer

---
 tianshou/data/buffer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 5c4451d..372d4b6 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -339,6 +339,8 @@ class ReplayBuffer:
             self.last_index[0] = self._insertion_idx
             self._insertion_idx = (self._insertion_idx + 1) % self.maxsize
             self._size = min(self._size + 1, self.maxsize)
+        if self._ep_len == 0:  # no running episode: the next one starts after the moved data
+            self._ep_start_idx = self._insertion_idx
         updated_indices = np.array(updated_indices)
         if len(self._meta.get_keys()) == 0:
             self._meta = create_value(buffer._meta, self.maxsize, stack=False)  # type: ignore
-- 
2.43.0


From 44bd4419a9e771610b5e2e5299a06c62a27ca9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 03/25] fix: newest index of a replay buffer built by from_data

---
 tianshou/data/buffer/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 372d4b6..d9e72fd 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -280,6 +280,7 @@ class ReplayBuffer:
         batch = cast(RolloutBatchProtocol, batch)
         buf.set_batch(batch)
         buf._size = size
+        buf.last_index = np.array([size - 1])
         return buf
 
     def reset(self, keep_statistics: bool = False) -> None:
-- 
2.43.0


From 0beb746d50d1f10a08e01e728e0053783b858a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 04/25] fix: resetting a prioritized replay buffer clears the
 priorities of discarded transitions

---
 tianshou/data/buffer/prio.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index ac0220f..2108f27 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -51,6 +51,11 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         self.init_weight(indices)
         return indices
 
+    def reset(self, keep_statistics: bool = False) -> None:
+        super().reset(keep_statistics=keep_statistics)
+        # forget the priorities of the discarded transitions, otherwise they could still be sampled
+        self.weight = SegmentTree(self.maxsize)
+
     def add(
         self,
         batch: RolloutBatchProtocol,
-- 
2.43.0


From 32675200a6d6e2cb9cf897bd72d01aeda08a4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 05/25] fix: PrioritizedVectorReplayBuffer.set_beta takes
 effect on the returned importance weights

---
 tianshou/data/buffer/vecbuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/data/buffer/vecbuf.py b/tianshou/data/buffer/vecbuf.py
index 00b2560..3dcd6a0 100644
--- a/tianshou/data/buffer/vecbuf.py
+++ b/tianshou/data/buffer/vecbuf.py
@@ -62,6 +62,7 @@ class PrioritizedVectorReplayBuffer(PrioritizedReplayBufferManager):
         super().__init__(buffer_list)
 
     def set_beta(self, beta: float) -> None:
+        super().set_beta(beta)
         for buffer in self.buffers:
             buffer.set_beta(beta)
 
-- 
2.43.0


From 092926e50a5748c772fa3f4db46294990a064303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:56 +0000
Subject: [PATCH 06/25] fix: importance weights compare priorities on the same
 (alpha-exponentiated) scale

---
 tianshou/data/buffer/prio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index 2108f27..25c2082 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -81,7 +81,7 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         # important sampling weight calculation
         # original formula: ((p_j/p_sum*N)**(-beta))/((p_min/p_sum*N)**(-beta))
         # simplified formula: (p_j/p_min)**(-beta)
-        return (self.weight[index] / self._min_prio) ** (-self._beta)
+        return (self.weight[index] / self._min_prio**self._alpha) ** (-self._beta)
 
     def update_weight(self, index: np.ndarray, new_weight: np.ndarray | torch.Tensor) -> None:
         """Update priority weight by index in this buffer.
-- 
2.43.0


From 68d502bb2c8138a9ad37838170e8ac3a0319d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:02 +0000
Subject: [PATCH 07/25] fix: PrioritizedVectorReplayBuffer honours weight_norm

---
 tianshou/data/buffer/prio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/prio.py b/tianshou/data/buffer/prio.py
index 25c2082..e7cf880 100644
--- a/tianshou/data/buffer/prio.py
+++ b/tianshou/data/buffer/prio.py
@@ -40,7 +40,7 @@ class PrioritizedReplayBuffer(ReplayBuffer):
         # save weight directly in this class instead of self._meta
         self.weight = SegmentTree(size)
         self.__eps = np.finfo(np.float32).eps.item()
-        self.options.update(alpha=alpha, beta=beta)
+        self.options.update(alpha=alpha, beta=beta, weight_norm=weight_norm)
         self._weight_norm = weight_norm
 
     def init_weight(self, index: int | np.ndarray) -> None:
-- 
2.43.0


From 94459621d868cae6477e45e2acf3de5e81f2c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 08/25] fix: hindsight rewards use the new goal when obs_next
 is not stored

---
 tianshou/data/buffer/her.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tianshou/data/buffer/her.py b/tianshou/data/buffer/her.py
index 087f8d0..0368616 100644
--- a/tianshou/data/buffer/her.py
+++ b/tianshou/data/buffer/her.py
@@ -173,6 +173,10 @@ class HERReplayBuffer(ReplayBuffer):
         else:
             tmp_ep_obs_next = self[self.next(unique_ep_indices)].obs
             assert isinstance(tmp_ep_obs_next, BatchProtocol)
+            tmp_ep_obs_next.desired_goal[:, her_ep_indices] = future_obs.achieved_goal[
+                None,
+                her_ep_indices,
+            ]
             ep_rew[:, her_ep_indices] = self._compute_reward(tmp_ep_obs_next)[:, her_ep_indices]
 
         # Sanity check
-- 
2.43.0


From bb5581cae834f18a76178f95b8b26535e5d04652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:18 +0000
Subject: [PATCH 09/25] fix: loaded or unpickled buffer managers share their
 data with their sub-buffers again

---
 tianshou/data/buffer/cached.py  | 8 ++++++++
 tianshou/data/buffer/manager.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/cached.py b/tianshou/data/buffer/cached.py
index 6c7a6e1..75c0172 100644
--- a/tianshou/data/buffer/cached.py
+++ b/tianshou/data/buffer/cached.py
@@ -1,3 +1,5 @@
+from typing import Any
+
 import numpy as np
 
 from tianshou.data import ReplayBuffer, ReplayBufferManager
@@ -43,6 +45,12 @@ class CachedReplayBuffer(ReplayBufferManager):
         self.cached_buffers = self.buffers[1:]
         self.cached_buffer_num = cached_buffer_num
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # main and cached buffers are elements of self.buffers, not separate copies
+        self.main_buffer = self.buffers[0]
+        self.cached_buffers = self.buffers[1:]
+
     def add(
         self,
         batch: RolloutBatchProtocol,
diff --git a/tianshou/data/buffer/manager.py b/tianshou/data/buffer/manager.py
index e8176aa..c087a18 100644
--- a/tianshou/data/buffer/manager.py
+++ b/tianshou/data/buffer/manager.py
@@ -1,5 +1,5 @@
 from collections.abc import Sequence
-from typing import Union, cast
+from typing import Any, Union, cast
 
 import numpy as np
 from numba import njit
@@ -82,6 +82,13 @@ class ReplayBufferManager(ReplayBuffer):
         super().set_batch(batch)
         self._set_batch_for_children()
 
+    def __setstate__(self, state: dict[str, Any]) -> None:
+        super().__setstate__(state)
+        # the sub-buffers were (de)serialized with their own copies of the data, share the memory again
+        if len(self._meta.get_keys()) > 0:
+            for offset, buf in zip(self._offset, self.buffers, strict=True):
+                buf._meta = self._meta[offset : offset + buf.maxsize]
+
     def unfinished_index(self) -> np.ndarray:
         return np.concatenate(
             [
-- 
2.43.0


From 3f52e1fb2b43e10fdad5eba9989317e944698770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:51 +0000
Subject: [PATCH 10/25] fix: the updating flag of a policy is cleared when an
 update fails

---
 tianshou/policy/base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tianshou/policy/base.py b/tianshou/policy/base.py
index 066a23a..78daf64 100644
--- a/tianshou/policy/base.py
+++ b/tianshou/policy/base.py
@@ -542,13 +542,15 @@ class BasePolicy(nn.Module, Generic[TTrainingStats], ABC):
         start_time = time.time()
         batch, indices = buffer.sample(sample_size)
         self.updating = True
-        batch = self.process_fn(batch, buffer, indices)
-        with torch_train_mode(self):
-            training_stat = self.learn(batch, **kwargs)
-        self.post_process_fn(batch, buffer, indices)
-        if self.lr_scheduler is not None:
-            self.lr_scheduler.step()
-        self.updating = False
+        try:
+            batch = self.process_fn(batch, buffer, indices)
+            with torch_train_mode(self):
+                training_stat = self.learn(batch, **kwargs)
+            self.post_process_fn(batch, buffer, indices)
+            if self.lr_scheduler is not None:
+                self.lr_scheduler.step()
+        finally:
+            self.updating = False
         training_stat.train_time = time.time() - start_time
         return training_stat
 
-- 
2.43.0


From 4edd8060c6a5fcef292e78311d08f59ccb5f8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:17 +0000
Subject: [PATCH 11/25] fix: MovAvg ignores every NaN value, not only the
 np.nan object

---
 tianshou/utils/statistics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tianshou/utils/statistics.py b/tianshou/utils/statistics.py
index 779b0ba..e59f9ac 100644
--- a/tianshou/utils/statistics.py
+++ b/tianshou/utils/statistics.py
@@ -27,7 +27,6 @@ class MovAvg:
         super().__init__()
         self.size = size
         self.cache: list[np.number] = []
-        self.banned = [np.inf, np.nan, -np.inf]
 
     def add(
         self,
@@ -43,7 +42,7 @@ class MovAvg:
         if np.isscalar(data_array):
             data_array = [data_array]
         for number in data_array:  # type: ignore
-            if number not in self.banned:
+            if np.isfinite(number):
                 self.cache.append(number)
         if self.size > 0 and len(self.cache) > self.size:
             self.cache = self.cache[-self.size :]
-- 
2.43.0


From 28f0fa0cdeb7942992f4353d9240d89b6aac09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:35 +0000
Subject: [PATCH 12/25] fix: Batch addition pairs fields by key instead of by
 insertion order

---
 tianshou/data/batch.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tianshou/data/batch.py b/tianshou/data/batch.py
index 70478a8..79a6b8c 100644
--- a/tianshou/data/batch.py
+++ b/tianshou/data/batch.py
@@ -803,14 +803,15 @@ class Batch(BatchProtocol):
     def __iadd__(self, other: Self | Number | np.number) -> Self:
         """Algebraic addition with another Batch instance in-place."""
         if isinstance(other, Batch):
-            for (batch_key, obj), value in zip(
-                self.__dict__.items(),
-                other.__dict__.values(),
-                strict=True,
-            ):  # TODO are keys consistent?
+            if set(self.get_keys()) != set(other.get_keys()):
+                raise ValueError(
+                    "Only addition of Batches with the same keys is supported, "
+                    f"got {list(self.get_keys())} and {list(other.get_keys())}.",
+                )
+            for batch_key, obj in self.items():
                 if isinstance(obj, Batch) and len(obj.get_keys()) == 0:
                     continue
-                self.__dict__[batch_key] += value
+                self.__dict__[batch_key] += other[batch_key]
             return self
         if _is_number(other):
             for batch_key, obj in self.items():
-- 
2.43.0


From 738b1a6e5242aa163203e47499f4a3da35e3a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 13/25] fix: masked actions are never chosen, also when
 Q-values differ by many orders of magnitude

---
 tianshou/policy/modelfree/dqn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/modelfree/dqn.py b/tianshou/policy/modelfree/dqn.py
index e0ada07..37b86a9 100644
--- a/tianshou/policy/modelfree/dqn.py
+++ b/tianshou/policy/modelfree/dqn.py
@@ -158,9 +158,8 @@ class DQNPolicy(BasePolicy[TDQNTrainingStats], Generic[TDQNTrainingStats]):
     def compute_q_value(self, logits: torch.Tensor, mask: np.ndarray | None) -> torch.Tensor:
         """Compute the q value based on the network's raw output and action mask."""
         if mask is not None:
-            # the masked q value should be smaller than logits.min()
-            min_value = logits.min() - logits.max() - 1.0
-            logits = logits + to_torch_as(1 - mask, logits) * min_value
+            # the masked q value should be smaller than any other one, regardless of their scale
+            logits = logits.masked_fill(to_torch_as(mask, logits) == 0, -np.inf)
         return logits
 
     def forward(
-- 
2.43.0


From 42ddcfa4acee18a7dbf488fbb51f963119e502d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 14/25] fix: REDQ with automatic entropy tuning no longer fails
 in its actor update

---
 tianshou/policy/modelfree/redq.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tianshou/policy/modelfree/redq.py b/tianshou/policy/modelfree/redq.py
index 25f2997..d4fe6b6 100644
--- a/tianshou/policy/modelfree/redq.py
+++ b/tianshou/policy/modelfree/redq.py
@@ -12,6 +12,7 @@ from tianshou.exploration import BaseNoise
 from tianshou.policy import DDPGPolicy
 from tianshou.policy.base import TLearningRateScheduler
 from tianshou.policy.modelfree.ddpg import DDPGTrainingStats
+from tianshou.utils.conversion import to_optional_float
 from tianshou.utils.net.continuous import ActorProb
 
 
@@ -217,8 +218,8 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             self.actor_optim.step()
 
             if self.is_auto_alpha:
-                log_prob = obs_result.log_prob.detach() + self._target_entropy
-                alpha_loss = -(self._log_alpha * log_prob).mean()
+                log_prob = obs_result.log_prob.detach() + self.target_entropy
+                alpha_loss = -(self.log_alpha * log_prob).mean()
                 self.alpha_optim.zero_grad()
                 alpha_loss.backward()
                 self.alpha_optim.step()
@@ -235,5 +236,5 @@ class REDQPolicy(DDPGPolicy[TREDQTrainingStats]):
             actor_loss=self._last_actor_loss,
             critic_loss=critic_loss.item(),
             alpha=self.alpha.item() if isinstance(self.alpha, torch.Tensor) else self.alpha,
-            alpha_loss=alpha_loss,
+            alpha_loss=to_optional_float(alpha_loss),
         )
-- 
2.43.0


From ff9febacfe46ef1bed9adba1a7f36360d95aa103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 15/25] fix: asynchronous DummyVectorEnv returns every ready
 environment

---
 tianshou/env/worker/dummy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tianshou/env/worker/dummy.py b/tianshou/env/worker/dummy.py
index 0ed0b03..e62e114 100644
--- a/tianshou/env/worker/dummy.py
+++ b/tianshou/env/worker/dummy.py
@@ -31,8 +31,9 @@ class DummyEnvWorker(EnvWorker):
         wait_num: int,
         timeout: float | None = None,
     ) -> list["DummyEnvWorker"]:
-        # Sequential EnvWorker objects are always ready
-        return workers
+        # Sequential EnvWorker objects are always ready. Return a copy: the caller
+        # removes the returned workers from its own list while iterating over them.
+        return list(workers)
 
     def send(self, action: np.ndarray | None, **kwargs: Any) -> None:
         if action is None:
-- 
2.43.0


From a0c9d145d67a9e1cb26956dae27c3e84e9c2c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 16/25] fix: EpisodeRolloutHookMerged rejects overlapping keys
 only (merged rollout hooks always failed)

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 514db4c..a89c617 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1500,7 +1500,7 @@ class EpisodeRolloutHookMerged(EpisodeRolloutHook):
                 continue
 
             if self.check_overlapping_keys and (
-                duplicated_entries := set(new_entries).difference(result)
+                duplicated_entries := set(new_entries).intersection(result)
             ):
                 raise KeyError(
                     f"Combined rollout hook {rollout_hook} leads to previously "
-- 
2.43.0


From 03b44250b9ba0977fcea88c929bfae48387b2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 17/25] fix: torch hidden states of finished episodes are reset
 by the collector

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index a89c617..1c69102 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1066,7 +1066,7 @@ class Collector(BaseCollector[TCollectStats], Generic[TCollectStats]):
         last_hidden_state_RH: np.ndarray | torch.Tensor | Batch | None,
     ) -> None:
         if isinstance(last_hidden_state_RH, torch.Tensor):
-            last_hidden_state_RH[env_ind_local_D].zero_()  # type: ignore[index]
+            last_hidden_state_RH[env_ind_local_D] = 0  # type: ignore[index]
         elif isinstance(last_hidden_state_RH, np.ndarray):
             last_hidden_state_RH[env_ind_local_D] = (
                 None if last_hidden_state_RH.dtype == object else 0
-- 
2.43.0


From 2d6922b20478af1837f97b70d2e1441559bdf1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 18/25] fix: resetting an AsyncCollector waits for all
 environments that are still stepping

---
 tianshou/data/collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index 1c69102..ed832eb 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1155,7 +1155,7 @@ class AsyncCollector(Collector[CollectStats]):
         gym_reset_kwargs: dict[str, Any] | None = None,
     ) -> tuple[np.ndarray, np.ndarray]:
         # we need to step through the envs and wait until they are ready to be able to interact with them
-        if self.env.waiting_id:
+        while self.env.waiting_id:
             self.env.step(None, id=self.env.waiting_id)
         return super().reset_env(gym_reset_kwargs=gym_reset_kwargs)
 
-- 
2.43.0


From 9a039f230b2befab3121badda9e772e50992358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:50 +0000
Subject: [PATCH 19/25] fix: AsyncCollector works with stateless policies and
 keeps the shape and dtype of actions

---
 tianshou/data/collector.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tianshou/data/collector.py b/tianshou/data/collector.py
index ed832eb..edc8ba5 100644
--- a/tianshou/data/collector.py
+++ b/tianshou/data/collector.py
@@ -1226,6 +1226,9 @@ class AsyncCollector(Collector[CollectStats]):
             )
 
             # save act_RA/policy_R/ hidden_state_RH before env.step
+            if len(ready_env_ids_R) == self.env_num:
+                # all actions are about to be replaced, so use the shape and dtype of the new ones
+                self._current_action_in_all_envs_EA = np.empty_like(collect_batch_R.act)
             self._current_action_in_all_envs_EA[ready_env_ids_R] = collect_batch_R.act
             if self._current_policy_in_all_envs_E:
                 self._current_policy_in_all_envs_E[ready_env_ids_R] = collect_batch_R.policy_entry
@@ -1266,7 +1269,11 @@ class AsyncCollector(Collector[CollectStats]):
                 Batch(
                     obs=self._current_obs_in_all_envs_EO[ready_env_ids_R],
                     act=self._current_action_in_all_envs_EA[ready_env_ids_R],
-                    policy=self._current_policy_in_all_envs_E[ready_env_ids_R],
+                    policy=(
+                        self._current_policy_in_all_envs_E[ready_env_ids_R]
+                        if self._current_policy_in_all_envs_E
+                        else Batch()
+                    ),
                     obs_next=obs_next_RO,
                     rew=rew_R,
                     terminated=terminated_R,
@@ -1297,7 +1304,7 @@ class AsyncCollector(Collector[CollectStats]):
             last_obs_RO = copy(obs_next_RO)
             last_info_R = copy(info_R)
             last_hidden_state_RH = copy(
-                self._current_hidden_state_in_all_envs_EH[ready_env_ids_R],  # type: ignore[index]
+                _nullable_slice(self._current_hidden_state_in_all_envs_EH, ready_env_ids_R),
             )
             if num_episodes_done_this_iter:
                 env_ind_local_D = np.where(done_R)[0]
-- 
2.43.0


From 2d0fa25838bc680a426a70da0df170406e86c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:53 +0000
Subject: [PATCH 20/25] fix: tests during training use the reward metric of the
 trainer

---
 tianshou/trainer/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index 355c9d3..bb1f892 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -563,6 +563,7 @@ class BaseTrainer(ABC):
                     self.episode_per_test,
                     self.logger,
                     self.env_step,
+                    self.reward_metric,
                 )
                 assert test_result.returns_stat is not None  # for mypy
                 if self.stop_fn(test_result.returns_stat.mean):
-- 
2.43.0


From 21f372f22e27c651ae96eb2f81ae8a52df9f1fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 21/25] fix: a test that ends training early updates the best
 epoch and saves the policy like any other best test

---
 tianshou/trainer/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tianshou/trainer/base.py b/tianshou/trainer/base.py
index bb1f892..9b01b39 100644
--- a/tianshou/trainer/base.py
+++ b/tianshou/trainer/base.py
@@ -568,9 +568,14 @@ class BaseTrainer(ABC):
                 assert test_result.returns_stat is not None  # for mypy
                 if self.stop_fn(test_result.returns_stat.mean):
                     should_stop_training = True
-                    self.best_reward = test_result.returns_stat.mean
-                    self.best_reward_std = test_result.returns_stat.std
-                    self.best_score = self.compute_score_fn(test_result)
+                    score = self.compute_score_fn(test_result)
+                    if self.best_score < score:
+                        self.best_score = score
+                        self.best_epoch = self.epoch
+                        self.best_reward = test_result.returns_stat.mean
+                        self.best_reward_std = test_result.returns_stat.std
+                        if self.save_best_fn:
+                            self.save_best_fn(self.policy)
 
         return should_stop_training
 
-- 
2.43.0


From 0f19fcea67456683d15cb56da58fcb442c112919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:42 +0000
Subject: [PATCH 22/25] fix: multi-agent forward accepts batches without
 obs_next when observations carry no mask

---
 tianshou/policy/multiagent/mapolicy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/policy/multiagent/mapolicy.py b/tianshou/policy/multiagent/mapolicy.py
index 05cc8db..a56eddb 100644
--- a/tianshou/policy/multiagent/mapolicy.py
+++ b/tianshou/policy/multiagent/mapolicy.py
@@ -231,7 +231,7 @@ class MultiAgentPolicyManager(BasePolicy):
             if not hasattr(tmp_batch.obs, "mask"):
                 if hasattr(tmp_batch.obs, "obs"):
                     tmp_batch.obs = tmp_batch.obs.obs
-                if hasattr(tmp_batch.obs_next, "obs"):
+                if hasattr(tmp_batch, "obs_next") and hasattr(tmp_batch.obs_next, "obs"):
                     tmp_batch.obs_next = tmp_batch.obs_next.obs
             out = policy(
                 batch=tmp_batch,
-- 
2.43.0


From d7577b033e0b7039f70098cdc850f272946f411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:34 +0000
Subject: [PATCH 23/25] fix: get_buffer_indices handles an episode that fills
 its subbuffer exactly

Such an episode raised a ValueError whenever it did not happen to begin at the
subbuffer's left edge, which made Collector.collect crash.
---
 tianshou/data/buffer/base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index d9e72fd..6174d0b 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -117,8 +117,9 @@ class ReplayBuffer:
         start: int,
         stop: int,
     ) -> tuple[tuple[int, int], tuple[int, int]]:
-        """Assumes that stop < start and retrieves tuples corresponding to the two
-        slices that determine the interval within the buffer.
+        """Assumes that stop <= start and retrieves tuples corresponding to the two
+        slices that determine the interval within the buffer. If stop equals start,
+        the interval covers the whole subbuffer.
 
         Example:
         -------
@@ -131,15 +132,10 @@ class ReplayBuffer:
         The buffer sliced from 4 to 5 and then from 0 to 2 will contain the transitions
         corresponding to the provided start and stop values.
         """
-        if stop >= start:
+        if stop > start:
             raise ValueError(
-                f"Expected stop < start, but got {start=}, {stop=}. "
-                f"For stop larger than start this method should never be called, "
-                f"and stop=start should never occur. This can occur either due to an implementation error, "
-                f"or due a bad configuration of the buffer that resulted in a single episode being so long that "
-                f"it completely filled a subbuffer (of size len(buffer)/degree_of_vectorization). "
-                f"Consider either shortening the episode, increasing the size of the buffer, or decreasing the "
-                f"degree of vectorization.",
+                f"Expected stop <= start, but got {start=}, {stop=}. "
+                f"For stop larger than start this method should never be called.",
             )
         subbuffer_edges = cast(Sequence[int], self.subbuffer_edges)
 
@@ -165,6 +161,8 @@ class ReplayBuffer:
 
         The special thing about this is that stop may actually be smaller than start,
         since one often is interested in a sequence of transitions that goes over a subbuffer edge.
+        If stop is equal to start, the sequence fills the whole subbuffer, beginning at start
+        (an episode whose length is exactly the size of the subbuffer).
 
         The main use case for this method is to retrieve an episode from the buffer, in which case
         start is the index of the first transition in the episode and stop is the index where `done` is True + 1.
@@ -186,6 +184,8 @@ class ReplayBuffer:
         [4, 0, 1]
         >>> buffer.get_buffer_indices(start=8, stop=7)
         [8, 9, 5, 6]
+        >>> buffer.get_buffer_indices(start=2, stop=2)
+        [2, 3, 4, 0, 1]
         >>> buffer.get_buffer_indices(start=1, stop=6)
         ValueError: Start and stop indices must be within the same subbuffer.
         >>> buffer.get_buffer_indices(start=8, stop=1)
-- 
2.43.0


From b8e33cdd50c453b7de3a30582d4c1b5c54721e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:56 +0000
Subject: [PATCH 24/25] fix: bulk transfer into a replay buffer accepts fields
 the buffer has not seen yet

---
 tianshou/data/buffer/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index 6174d0b..ed83acf 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -345,6 +345,8 @@ class ReplayBuffer:
         updated_indices = np.array(updated_indices)
         if len(self._meta.get_keys()) == 0:
             self._meta = create_value(buffer._meta, self.maxsize, stack=False)  # type: ignore
+        else:  # dynamic key pops up in the other buffer
+            alloc_by_keys_diff(self._meta, buffer._meta, self.maxsize, stack=False)
         self._meta[updated_indices] = buffer._meta[from_indices]
         return updated_indices
 
-- 
2.43.0


From 9fa16dc61ca49a1ef48ab4d2f0656be3e2f5ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:01 +0000
Subject: [PATCH 25/25] fix: unfinished_index of a buffer that was never filled
 is empty instead of an AttributeError

---
 tianshou/data/buffer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tianshou/data/buffer/base.py b/tianshou/data/buffer/base.py
index ed83acf..2adb88d 100644
--- a/tianshou/data/buffer/base.py
+++ b/tianshou/data/buffer/base.py
@@ -303,7 +303,7 @@ class ReplayBuffer:
     def unfinished_index(self) -> np.ndarray:
         """Return the index of unfinished episode."""
         last = (self._insertion_idx - 1) % self._size if self._size else 0
-        return np.array([last] if not self.done[last] and self._size else [], int)
+        return np.array([last] if self._size and not self.done[last] else [], int)
 
     def prev(self, index: int | np.ndarray) -> np.ndarray:
         """Return the index of previous transition.
-- 
2.43.0

