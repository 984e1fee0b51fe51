From 31f1184977ccf03ee9e131027dedb22a84b96976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:42 +0000
Subject: [PATCH 01/34] fix: SumTree.inverse_cdf never returns an index that
 carries no mass

At u=1 (or when round-off makes the remainder reach the sum of a subtree) the
descent ended up in an empty right branch, returning a zero-weight index or even
one that is outside of the tree's capacity.
---
 coax/utils/_segment_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 61a4c79..f9092f7 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -389,7 +389,8 @@ class SumTree(SegmentTree):
 
             # update (idx, values, level_offset_parent)
             left_child_values = self._arr[left_child_idx]
-            pick_left_child = left_child_values > values
+            # never descend into an empty right branch (e.g. u=1, or float round-off near u=1)
+            pick_left_child = (left_child_values > values) | (self._arr[right_child_idx] <= 0)
             idx = onp.where(pick_left_child, left_child_idx, right_child_idx)
             values = onp.where(pick_left_child, values, values - left_child_values)
             level_offset_parent = level_offset
-- 
2.43.0


From c428a47383c7c9775cb5853fbe7b481cb8c44a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:42 +0000
Subject: [PATCH 02/34] fix: SegmentTree.partial_reduce raised IndexError for
 some batched ranges

The sibling lookup was done for entries that are already done as well, which is
out of bounds for a range that starts at the very last leaf of a full tree.
---
 coax/utils/_segment_tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index f9092f7..9e8e907 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -171,10 +171,12 @@ class SegmentTree:
                 return self.reducer(a, b)
 
             # only accumulate right-child value if 'i' was a left child of 'i_parent'
-            a = onp.where((i % 2 == 1) & ~done, self.reducer(a, self._arr[i + 1]), a)
+            mask = (i % 2 == 1) & ~done
+            a = onp.where(mask, self.reducer(a, self._arr[onp.where(mask, i + 1, i)]), a)
 
             # only accumulate left-child value if 'j' was a right child of 'j_parent'
-            b = onp.where((j % 2 == 0) & ~done, self.reducer(b, self._arr[j - 1]), b)
+            mask = (j % 2 == 0) & ~done
+            b = onp.where(mask, self.reducer(b, self._arr[onp.where(mask, j - 1, j)]), b)
 
             # prepare for next loop
             i, j, level_offset = i_parent, j_parent, level_offset_parent
-- 
2.43.0


From f1583b2c93ab09538a2836cbec230ee3c0b8fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:42 +0000
Subject: [PATCH 03/34] fix: RandomPolicy with return_logp=True on Discrete
 action spaces

RandomPolicy has no attribute 'num_actions'.
---
 coax/_core/random_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/_core/random_policy.py b/coax/_core/random_policy.py
index 28e019f..ebbe197 100644
--- a/coax/_core/random_policy.py
+++ b/coax/_core/random_policy.py
@@ -42,7 +42,7 @@ class RandomPolicy:
             return a
 
         if isinstance(self.action_space, gymnasium.spaces.Discrete):
-            logp = -onp.log(self.num_actions)
+            logp = -onp.log(self.action_space.n)
             return a, logp
 
         if isinstance(self.action_space, gymnasium.spaces.Box):
-- 
2.43.0


From b422552ed15f2c93a2e1b00527d093d81ee4858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:42 +0000
Subject: [PATCH 04/34] fix: RandomPolicy no longer shares its random state
 with env.action_space

Creating a second RandomPolicy on the same env reseeded the first one, and any
call to env.action_space.sample() advanced the policy's seeded stream.
---
 coax/_core/random_policy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/_core/random_policy.py b/coax/_core/random_policy.py
index ebbe197..63147a9 100644
--- a/coax/_core/random_policy.py
+++ b/coax/_core/random_policy.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import gymnasium
 import jax.numpy as jnp
 import numpy as onp
@@ -31,7 +33,7 @@ class RandomPolicy:
         if not isinstance(env.action_space, gymnasium.Space):
             raise TypeError(
                 f"env.action_space must be a gymnasium.Space, got: {type(env.action_space)}")
-        self.action_space = env.action_space
+        self.action_space = deepcopy(env.action_space)  # don't share (or reseed) env's random state
         self.action_space.seed(random_seed)
         self.random_seed = random_seed
 
-- 
2.43.0


From 2dd5840ce58fcab155ab918957ab7b7e97b63dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:42 +0000
Subject: [PATCH 05/34] fix: ConnectFourEnv.set_state calls a function that
 doesn't exist in numpy

---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 29fb9b1..e2cee96 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -254,7 +254,7 @@ class ConnectFourEnv(Env):
         self._players[1] = 3 - p  # 2 or 1
         self.done = d == 1
         self._prev_action = None if a == self.num_cols else a
-        s = np._base_repr(int(state_id[3:], 16), 3)
+        s = np.base_repr(int(state_id[3:], 16), 3)
         z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
         z[-len(s):] = np.array(list(s), dtype='uint8')
         self._state = z.reshape((self.num_rows, self.num_cols))
-- 
2.43.0


From e6a8d429e2c32eadc06a68731ef4dd00167c2b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:42 +0000
Subject: [PATCH 06/34] fix: render_episode uses the gymnasium reset/step API

---
 coax/utils/_misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index ec77de3..0583e9f 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -342,17 +342,17 @@ def render_episode(env, policy=None, step_delay_ms=0):
     if isinstance(env, TrainMonitor):
         env = env.env  # unwrap to strip off TrainMonitor
 
-    s = env.reset()
+    s, info = env.reset()
     env.render()
 
     for t in range(int(1e9)):
         a = env.action_space.sample() if policy is None else policy(s)
-        s_next, r, done, info = env.step(a)
+        s_next, r, done, truncated, info = env.step(a)
 
         env.render()
         time.sleep(step_delay_ms / 1e3)
 
-        if done:
+        if done or truncated:
             break
 
         s = s_next
-- 
2.43.0


From 95130eec8c2b151535730830a4b2a988e491594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:42 +0000
Subject: [PATCH 07/34] fix: MetaPolicyEnv.step uses inspect.signature

inspect.getargspec was removed in python 3.11.
---
 coax/wrappers/_meta_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_meta_policy.py b/coax/wrappers/_meta_policy.py
index 02a9cc6..b91fcbf 100644
--- a/coax/wrappers/_meta_policy.py
+++ b/coax/wrappers/_meta_policy.py
@@ -43,7 +43,7 @@ class MetaPolicyEnv(gymnasium.Wrapper):
         assert self._s is not None, "please call env.reset() first"
 
         pi = self.arms[a_meta]
-        if 'return_logp' in inspect.getargspec(pi).args:
+        if 'return_logp' in inspect.signature(pi).parameters:
             a, logp = pi(self._s, return_logp=True)
         else:
             a, logp = pi(self._s), 0.
-- 
2.43.0


From 79d32bc43fdc8c13796cffabdcd1664a6f374dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 08/34] fix: coax.utils.dump no longer destroys the previous
 checkpoint when it fails

The old file was truncated before the new object was even serialized, so any
failure (unpicklable object, full disk, crash) lost both checkpoints, and a
concurrent load could observe a partially written file.
---
 coax/utils/_misc.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index 0583e9f..eff39fb 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -1,5 +1,6 @@
 import os
 import time
+import uuid
 import logging
 from importlib import reload, import_module
 from types import ModuleType
@@ -180,8 +181,21 @@ def dump(obj, filepath):
     dirpath = os.path.dirname(filepath)
     if dirpath:
         os.makedirs(dirpath, exist_ok=True)
-    with lz4.frame.open(filepath, 'wb') as f:
-        f.write(pickle.dumps(obj))
+
+    # write to a temporary file first, such that an existing checkpoint is replaced in one go
+    s = dumps(obj)
+    filepath = os.path.realpath(filepath)
+    filepath_tmp = f"{filepath}.{uuid.uuid4().hex}.tmp"
+    try:
+        with open(filepath_tmp, 'wb') as f:
+            f.write(s)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(filepath_tmp, filepath)
+    except BaseException:
+        if os.path.exists(filepath_tmp):
+            os.remove(filepath_tmp)
+        raise
 
 
 def dumps(obj):
-- 
2.43.0


From eec2ad1cbbd8ceb4a9161d112792224f4a1449cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 09/34] fix: TrainMonitor.save_counters no longer destroys the
 previous file when it fails

Same issue as coax.utils.dump.
---
 coax/wrappers/_train_monitor.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index 884da73..e2eedec 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -14,7 +14,7 @@ from gymnasium.spaces import Discrete
 from tensorboardX import SummaryWriter
 
 from .._base.mixins import LoggerMixin
-from ..utils import enable_logging
+from ..utils import dump, enable_logging
 
 
 __all__ = (
@@ -397,11 +397,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
             The checkpoint file path.
 
         """
-        counters = self.get_counters()
-        os.makedirs(os.path.dirname(filepath) or '.', exist_ok=True)
-
-        with lz4.frame.open(filepath, 'wb') as f:
-            f.write(pickle.dumps(counters))
+        dump(self.get_counters(), filepath)
 
     def load_counters(self, filepath):
         r"""
-- 
2.43.0


From dd3c185293cfa4e001785e16d5b822be5152974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 10/34] fix: PrioritizedReplayBuffer.update with outdated ids

An outdated id made update fail if its slot is empty, and if it shared its slot
with another id of the same batch it would undo the latter's update.
---
 coax/experience_replay/_prioritized.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index 7806e15..efb0e03 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -199,11 +199,9 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         chex.assert_rank([idx, Adv], 1)
 
         idx_lookup = idx % self.capacity  # wrap around
-        new_values = onp.where(
-            _get_transition_batch_idx(self._storage[idx_lookup]) == idx,  # only update if ids match
-            onp.power(onp.abs(Adv) + self.epsilon, self.alpha),
-            self._sumtree.values[idx_lookup])
-        self._sumtree.set_values(idx_lookup, new_values)
+        match = _get_transition_batch_idx(self._storage[idx_lookup]) == idx
+        idx_lookup, Adv = idx_lookup[match], Adv[match]  # only update if ids match
+        self._sumtree.set_values(idx_lookup, onp.power(onp.abs(Adv) + self.epsilon, self.alpha))
 
     def clear(self):
         r""" Clear the experience replay buffer. """
@@ -225,6 +223,5 @@ def _concatenate_leaves(pytrees):
     return jax.tree_map(lambda *leaves: onp.concatenate(leaves, axis=0), *pytrees)
 
 
-@onp.vectorize
-def _get_transition_batch_idx(transition):
-    return transition.idx
+def _get_transition_batch_idx(transitions):
+    return onp.array([-1 if t is None else t.idx.item() for t in transitions], dtype='int32')
-- 
2.43.0


From 92df8e1034f8c838270f046b73e2c38aef041aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 11/34] fix: PrioritizedReplayBuffer doesn't reuse ids after
 clear()

A priority update for a transition that was sampled before clear() was applied
to an unrelated transition that was added afterwards.
---
 coax/experience_replay/_prioritized.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index efb0e03..fd417f6 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -81,7 +81,8 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         self._epsilon = float(epsilon)
         self._random_seed = random_seed
         self._rnd = onp.random.RandomState(random_seed)
-        self.clear()  # sets: self._deque, self._index
+        self._index = 0
+        self.clear()  # sets: self._storage, self._sumtree, self._index_start
 
     @property
     def capacity(self):
@@ -144,7 +145,7 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
                 f"transition_batch must be a TransitionBatch, got: {type(transition_batch)}")
 
         transition_batch.idx = self._index + onp.arange(transition_batch.batch_size)
-        idx = transition_batch.idx % self.capacity  # wrap around
+        idx = (transition_batch.idx - self._index_start) % self.capacity  # wrap around
         chex.assert_equal_shape([idx, Adv])
         self._storage[idx] = list(transition_batch.to_singles())
         self._sumtree.set_values(idx, onp.power(onp.abs(Adv) + self.epsilon, self.alpha))
@@ -198,7 +199,7 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         chex.assert_equal_shape([idx, Adv])
         chex.assert_rank([idx, Adv], 1)
 
-        idx_lookup = idx % self.capacity  # wrap around
+        idx_lookup = (idx - self._index_start) % self.capacity  # wrap around
         match = _get_transition_batch_idx(self._storage[idx_lookup]) == idx
         idx_lookup, Adv = idx_lookup[match], Adv[match]  # only update if ids match
         self._sumtree.set_values(idx_lookup, onp.power(onp.abs(Adv) + self.epsilon, self.alpha))
@@ -207,10 +208,10 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         r""" Clear the experience replay buffer. """
         self._storage = onp.full(shape=(self.capacity,), fill_value=None, dtype='object')
         self._sumtree = SumTree(capacity=self.capacity, random_seed=self._random_seed)
-        self._index = 0
+        self._index_start = self._index  # ids are never reused
 
     def __len__(self):
-        return min(self.capacity, self._index)
+        return min(self.capacity, self._index - self._index_start)
 
     def __bool__(self):
         return bool(len(self))
-- 
2.43.0


From 7516df251e0abef622403b6bcf03b5666a0a1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 12/34] fix: replay buffers no longer store references to the
 caller's transition object

TransitionBatch.to_singles yielded the batch itself if batch_size=1. Adding such
a batch twice (or to two buffers) would overwrite the id of the one that was
stored earlier.
---
 coax/reward_tracing/_transition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/reward_tracing/_transition.py b/coax/reward_tracing/_transition.py
index 3d5a764..614e21a 100644
--- a/coax/reward_tracing/_transition.py
+++ b/coax/reward_tracing/_transition.py
@@ -202,7 +202,7 @@ class TransitionBatch(CopyMixin):
 
         """
         if self.batch_size == 1:
-            yield self
+            yield self.copy()
             return  # break out of generator
 
         def lookup(i, pytree):
-- 
2.43.0


From 4e689ba63b012866bd7d65e30bc66c3ad409c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 13/34] fix: SimpleReplayBuffer no longer overwrites python's
 global random state

---
 coax/experience_replay/_simple.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/coax/experience_replay/_simple.py b/coax/experience_replay/_simple.py
index 86b1fbf..275f05d 100644
--- a/coax/experience_replay/_simple.py
+++ b/coax/experience_replay/_simple.py
@@ -30,8 +30,7 @@ class SimpleReplayBuffer(BaseReplayBuffer):
     """
     def __init__(self, capacity, random_seed=None):
         self._capacity = int(capacity)
-        random.seed(random_seed)
-        self._random_state = random.getstate()
+        self._random = random.Random(random_seed)
         self.clear()  # sets self._storage
 
     @property
@@ -77,10 +76,7 @@ class SimpleReplayBuffer(BaseReplayBuffer):
             A :class:`TransitionBatch <coax.reward_tracing.TransitionBatch>` object.
 
         """
-        # sandwich sample in between setstate/getstate in case global random state was tampered with
-        random.setstate(self._random_state)
-        transitions = random.sample(self._storage, batch_size)
-        self._random_state = random.getstate()
+        transitions = self._random.sample(self._storage, batch_size)
         return jax.tree_map(lambda *leaves: onp.concatenate(leaves, axis=0), *transitions)
 
     def clear(self):
-- 
2.43.0


From b56a8a722e8df555b1ffe94ce939f07451e36b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 14/34] fix: Worker loops crashed with ZeroDivisionError on a
 coarse or adjusted clock

---
 coax/_core/worker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/_core/worker.py b/coax/_core/worker.py
index 0bb1a3b..e9d87b0 100644
--- a/coax/_core/worker.py
+++ b/coax/_core/worker.py
@@ -182,7 +182,7 @@ class Worker(ABC):
             self.pull_state()
             self.rollout()
             metrics = self.pull_metrics()
-            metrics['throughput/rollout_loop'] = 1000 / self.env.dt_ms
+            metrics['throughput/rollout_loop'] = 1000 / max(self.env.dt_ms, 1e-3)
             metrics['episode/T_global'] = T_global = self.pull_getattr('env.T') + self.env.t
             self.push_setattr('env.T', T_global)  # not exactly thread-safe, but that's okay
             self.env.record_metrics(metrics)
@@ -196,7 +196,7 @@ class Worker(ABC):
             metrics['throughput/learn_loop'] = throughput
             self.push_state()
             self.push_metrics(metrics)
-            throughput = batch_size / (time.time() - t_start)
+            throughput = batch_size / max(time.time() - t_start, 1e-6)
 
     def buffer_len(self):
         if self.param_store is None:
-- 
2.43.0


From aa428ae00c69a456bafe9229f71fdb235cf6df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 15/34] fix: Worker.rollout starts from an empty reward tracer

If a rollout was interrupted (e.g. the env raised), the next rollout on the same
worker would produce transitions that span two different episodes.
---
 coax/_core/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/worker.py b/coax/_core/worker.py
index e9d87b0..de84eee 100644
--- a/coax/_core/worker.py
+++ b/coax/_core/worker.py
@@ -163,6 +163,8 @@ class Worker(ABC):
 
     def rollout(self):
         assert self.pi is not None
+        if self.tracer is not None:
+            self.tracer.reset()  # drop leftovers in case previous rollout was interrupted
         s, info = self.env.reset()
         for t in range(self.env.spec.max_episode_steps):
             a, logp = self.pi(s, return_logp=True)
-- 
2.43.0


From c411473c9f4d5e4e79524ea6d1a338f89a8955d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 16/34] fix: Worker.pull_getattr default value for dotted names

---
 coax/_core/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/worker.py b/coax/_core/worker.py
index de84eee..e4a3705 100644
--- a/coax/_core/worker.py
+++ b/coax/_core/worker.py
@@ -341,6 +341,8 @@ def _getattr_recursive(obj, name, default=...):
         return getattr(obj, name) if default is Ellipsis else getattr(obj, name, default)
 
     name, subname = name.split('.', 1)
+    if default is not Ellipsis and not hasattr(obj, name):
+        return default
     return _getattr_recursive(getattr(obj, name), subname, default)
 
 
-- 
2.43.0


From f4e3bcc5912fb4f3a17fe7c9e0c4cd6fc9d2cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 17/34] fix: Worker.buffer_sample could deadlock the parameter
 store

If the parameter store's own buffer_warmup is larger than the learner's, the
store would sleep inside of its buffer_sample call, during which it cannot
process any of the buffer_add calls it is waiting for.
---
 coax/_core/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coax/_core/worker.py b/coax/_core/worker.py
index e4a3705..901fefd 100644
--- a/coax/_core/worker.py
+++ b/coax/_core/worker.py
@@ -233,6 +233,8 @@ class Worker(ABC):
 
     def buffer_sample(self, batch_size=32):
         buffer_warmup = max(self.buffer_warmup or 0, batch_size)
+        if self.param_store is not None:  # wait over here, otherwise we'd be blocking param_store
+            buffer_warmup = max(self.pull_getattr('buffer_warmup', None) or 0, buffer_warmup)
         wait_secs = 1 / 1024.
         buffer_len = self.buffer_len()
         while buffer_len < buffer_warmup:
-- 
2.43.0


From b06e7cd8812c0cbf06a92609dd3420781129e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 18/34] fix: TrainMonitor.get_counters returns a snapshot

The returned dict contained references to the live internal state, so it kept
changing after it was taken and restoring it did not undo those changes.
---
 coax/wrappers/_train_monitor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index e2eedec..a649ec0 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -4,6 +4,7 @@ import datetime
 import logging
 import time
 from collections import deque
+from copy import deepcopy
 from typing import Mapping
 
 import numpy as np
@@ -367,7 +368,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
             The dict that contains the counters.
 
         """
-        return {k: getattr(self, k) for k in self._COUNTER_ATTRS}
+        return {k: deepcopy(getattr(self, k)) for k in self._COUNTER_ATTRS}
 
     def set_counters(self, counters):
         r"""
@@ -383,7 +384,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         """
         if not (isinstance(counters, dict) and set(counters) == set(self._COUNTER_ATTRS)):
             raise TypeError(f"invalid counters dict: {counters}")
-        self.__setstate__(counters)
+        self.__setstate__(deepcopy(counters))
 
     def save_counters(self, filepath):
         r"""
-- 
2.43.0


From 22af6495e674e58223161a4904dcd54b4fafcae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 19/34] fix: TrainMonitor.set_counters switches to the restored
 tensorboard_dir

The old tensorboard writer (or the absence of one) was kept, because the dir was
already overwritten by the time it was checked for changes.
---
 coax/wrappers/_train_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_train_monitor.py b/coax/wrappers/_train_monitor.py
index a649ec0..ab696db 100644
--- a/coax/wrappers/_train_monitor.py
+++ b/coax/wrappers/_train_monitor.py
@@ -353,7 +353,7 @@ class TrainMonitor(Wrapper, LoggerMixin):
         return state
 
     def __setstate__(self, state):
-        self.__dict__.update(state)
+        self.__dict__.update({k: v for k, v in state.items() if k != '_tensorboard_dir'})
         self._init_tensorboard(state['_tensorboard_dir'])
 
     def get_counters(self):
-- 
2.43.0


From 5ba08cd274ff60f53856f76e093e419779e00dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 20/34] fix: apply_grads is all-or-nothing

function_state was already updated if applying the gradients failed.
---
 coax/model_updaters/_model_updater.py | 5 +++--
 coax/policy_objectives/_base.py       | 5 +++--
 coax/td_learning/_base.py             | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/coax/model_updaters/_model_updater.py b/coax/model_updaters/_model_updater.py
index fc52d7e..5e6dd9b 100644
--- a/coax/model_updaters/_model_updater.py
+++ b/coax/model_updaters/_model_updater.py
@@ -160,9 +160,10 @@ class ModelUpdater:
             <coax.Q.function_state>` and :func:`haiku.transform_with_state` for more details.
 
         """
-        self.model.function_state = function_state
-        self.optimizer_state, self.model.params = \
+        new_optimizer_state, new_params = \
             self._apply_grads_func(self.optimizer, self.optimizer_state, self.model.params, grads)
+        self.model.function_state = function_state  # this may raise, so do this before the rest
+        self.optimizer_state, self.model.params = new_optimizer_state, new_params
 
     def grads_and_metrics(self, transition_batch):
         r"""
diff --git a/coax/policy_objectives/_base.py b/coax/policy_objectives/_base.py
index ff31a6b..56f08c0 100644
--- a/coax/policy_objectives/_base.py
+++ b/coax/policy_objectives/_base.py
@@ -174,9 +174,10 @@ class PolicyObjective:
             <coax.Policy.function_state>` and :func:`haiku.transform_with_state` for more details.
 
         """
-        self._pi.function_state = function_state
-        self.optimizer_state, self._pi.params = \
+        new_optimizer_state, new_params = \
             self._apply_grads_func(self.optimizer, self.optimizer_state, self._pi.params, grads)
+        self._pi.function_state = function_state  # this may raise, so do this before the rest
+        self.optimizer_state, self._pi.params = new_optimizer_state, new_params
 
     def grads_and_metrics(self, transition_batch, Adv):
         r"""
diff --git a/coax/td_learning/_base.py b/coax/td_learning/_base.py
index 66d3650..8872331 100644
--- a/coax/td_learning/_base.py
+++ b/coax/td_learning/_base.py
@@ -111,9 +111,10 @@ class BaseTDLearning(ABC, RandomStateMixin):
             <coax.Q.function_state>` and :func:`haiku.transform_with_state` for more details.
 
         """
-        self._f.function_state = function_state
-        self.optimizer_state, self._f.params = \
+        new_optimizer_state, new_params = \
             self._apply_grads_func(self.optimizer, self.optimizer_state, self._f.params, grads)
+        self._f.function_state = function_state  # this may raise, so do this before the rest
+        self.optimizer_state, self._f.params = new_optimizer_state, new_params
 
     def grads_and_metrics(self, transition_batch):
         r"""
-- 
2.43.0


From 8e6fa6db00b03f3fcd36ef89502fd69c62727531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 21/34] fix: PolicyObjective.optimizer setter refers to a
 nonexistent attribute

---
 coax/policy_objectives/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/policy_objectives/_base.py b/coax/policy_objectives/_base.py
index 56f08c0..da1d0ab 100644
--- a/coax/policy_objectives/_base.py
+++ b/coax/policy_objectives/_base.py
@@ -107,7 +107,7 @@ class PolicyObjective:
     @optimizer.setter
     def optimizer(self, new_optimizer):
         new_optimizer_state_structure = jax.tree_util.tree_structure(
-            new_optimizer.init(self._f.params))
+            new_optimizer.init(self._pi.params))
         if new_optimizer_state_structure != jax.tree_util.tree_structure(self.optimizer_state):
             raise AttributeError("cannot set optimizer attr: mismatch in optimizer_state structure")
         self._optimizer = new_optimizer
-- 
2.43.0


From 4b8f2c9d2c8f4930867243680540f7600b82f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:59 +0000
Subject: [PATCH 22/34] fix: OrnsteinUhlenbeckNoise clips the output action, as
 documented

It was clipping the noise instead of the output action.
---
 coax/utils/_action_noise.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coax/utils/_action_noise.py b/coax/utils/_action_noise.py
index 909e413..aa4b01b 100644
--- a/coax/utils/_action_noise.py
+++ b/coax/utils/_action_noise.py
@@ -106,5 +106,4 @@ class OrnsteinUhlenbeckNoise:
 
         white_noise = onp.asarray(self.rnd.randn(*a.shape), dtype=a.dtype)
         self._noise += self.theta * (self.mu - self._noise) + self.sigma * white_noise
-        self._noise = onp.clip(self._noise, self.min_value, self.max_value)
-        return a + self._noise
+        return onp.clip(a + self._noise, self.min_value, self.max_value)
-- 
2.43.0


From f6952d768fb3001c8088226b80be7daee7fcd73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:18 +0000
Subject: [PATCH 23/34] fix: render Connect-Four boards after moves given as
 numpy integers

Moves taken from env.available_actions are numpy integers, comparing them gives a numpy bool and negating that fails.
---
 coax/envs/_connect_four.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index e2cee96..4cf45f7 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -204,7 +204,7 @@ class ConnectFourEnv(Env):
         hrule = '+---' * self.num_cols + '+\n'
         board = "  "
         board += "   ".join(
-            symbol.get(-(a == self._prev_action) * self._players[1], " ")
+            symbol.get(-int(a == self._prev_action) * self._players[1], " ")
             for a in range(self.num_cols))
         board += "  \n"
         board += hrule
-- 
2.43.0


From 089afbaa5408486fefae55f98d429fef47db482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:33 +0000
Subject: [PATCH 24/34] fix: leave Connect-Four untouched when a malformed
 state id is rejected

---
 coax/envs/_connect_four.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/envs/_connect_four.py b/coax/envs/_connect_four.py
index 4cf45f7..7356f79 100644
--- a/coax/envs/_connect_four.py
+++ b/coax/envs/_connect_four.py
@@ -250,13 +250,14 @@ class ConnectFourEnv(Env):
         assert p in (1, 2)
         assert d in (0, 1)
         assert self.action_space.contains(a) or a == self.num_cols
+        s = np.base_repr(int(state_id[3:], 16), 3)
+        z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
+        z[-len(s):] = np.array(list(s), dtype='uint8')
+        # nothing can go wrong from here on
         self._players[0] = p    # 1 or 2
         self._players[1] = 3 - p  # 2 or 1
         self.done = d == 1
         self._prev_action = None if a == self.num_cols else a
-        s = np.base_repr(int(state_id[3:], 16), 3)
-        z = np.zeros(self.num_rows * self.num_cols, dtype='uint8')
-        z[-len(s):] = np.array(list(s), dtype='uint8')
         self._state = z.reshape((self.num_rows, self.num_cols))
         self._levels = np.full(self.num_cols, self.num_rows - 1, dtype='uint8')
         for j in range(self.num_cols):
-- 
2.43.0


From faaa060ce944001fc9283ab3cf04cd9afa074c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:11 +0000
Subject: [PATCH 25/34] fix: generate_gif falls back to 10000 steps for
 environments without a step limit, as documented

---
 coax/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_misc.py b/coax/utils/_misc.py
index eff39fb..239f0b0 100644
--- a/coax/utils/_misc.py
+++ b/coax/utils/_misc.py
@@ -480,7 +480,8 @@ def generate_gif(env, filepath, policy=None, resize_to=None, duration=50, max_ep
     """
     logger = logging.getLogger('generate_gif')
     max_episode_steps = max_episode_steps \
-        or getattr(getattr(env, 'spec'), 'max_episode_steps', 10000)
+        or getattr(getattr(env, 'spec', None), 'max_episode_steps', None) \
+        or 10000
 
     from ..wrappers import TrainMonitor
     if isinstance(env, TrainMonitor):
-- 
2.43.0


From 0b223e39b14d23f5fcc59b675be204a701bc889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:20 +0000
Subject: [PATCH 26/34] fix: action adapters report the original action also if
 the environment's info is None

---
 coax/_base/mixins/_add_orig_to_info.py | 3 +++
 coax/wrappers/_box_spaces.py           | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/coax/_base/mixins/_add_orig_to_info.py b/coax/_base/mixins/_add_orig_to_info.py
index c0f5211..5e2616a 100644
--- a/coax/_base/mixins/_add_orig_to_info.py
+++ b/coax/_base/mixins/_add_orig_to_info.py
@@ -18,6 +18,7 @@ class AddOrigToInfoDictMixin:
             info['s_next_orig'] = [self._s_next_orig]
 
         self._s_orig = self._s_next_orig
+        return info
 
     def _add_a_orig_to_info_dict(self, info):
         if not isinstance(info, Mapping):
@@ -28,3 +29,5 @@ class AddOrigToInfoDictMixin:
             info['a_orig'].append(self._a_orig)
         else:
             info['a_orig'] = [self._a_orig]
+
+        return info
diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 4ebd4c0..70b52b0 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -43,7 +43,7 @@ class BoxActionsToReals(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         assert self.action_space.contains(a)
         self._a_orig = self._compactify(a)
         s_next, r, done, truncated, info = super().step(self._a_orig)
-        self._add_a_orig_to_info_dict(info)
+        info = self._add_a_orig_to_info_dict(info)
         return s_next, r, done, truncated, info
 
     def _compactify(self, action):
@@ -84,7 +84,7 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         assert self.action_space.contains(a)
         self._a_orig = self._discrete_to_box(a)
         s_next, r, done, truncated, info = super().step(self._a_orig)
-        self._add_a_orig_to_info_dict(info)
+        info = self._add_a_orig_to_info_dict(info)
         return s_next, r, done, truncated, info
 
     def _discrete_to_box(self, a_discrete):
-- 
2.43.0


From 5e416df4d1ecac1b18606a99bd2565110a4f84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:20 +0000
Subject: [PATCH 27/34] fix: BoxActionsToDiscrete passes actions of the
 environment's own dtype

Without this, the actions are float64 and therefore not members of the (float32) action space of the environment.
---
 coax/wrappers/_box_spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 70b52b0..0938cb6 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -92,7 +92,7 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec
         a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)
         a_rescaled = lo + a_reshaped * (hi - lo)
-        return a_rescaled
+        return a_rescaled.astype(self.env.action_space.dtype)
 
     def _init_action_space(self, num_bins):
         self._size = onp.prod(self.env.action_space.shape)
-- 
2.43.0


From 646a668779a258264a8425ae66f678c388344d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:00 +0000
Subject: [PATCH 28/34] fix: assigning its own params to an EpsilonGreedy or
 BoltzmannPolicy was refused

---
 coax/_core/value_based_policy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coax/_core/value_based_policy.py b/coax/_core/value_based_policy.py
index dd1b9da..84feecf 100644
--- a/coax/_core/value_based_policy.py
+++ b/coax/_core/value_based_policy.py
@@ -208,8 +208,10 @@ class EpsilonGreedy(BaseValueBasedPolicy):
     def params(self, new_params):
         if jax.tree_util.tree_structure(new_params) != jax.tree_util.tree_structure(self.params):
             raise TypeError("new params must have the same structure as old params")
+        self.q.params = jax.tree_util.tree_unflatten(  # undo hk.data_structures.to_immutable_dict
+            jax.tree_util.tree_structure(self.q.params),
+            jax.tree_util.tree_leaves(new_params['q']))
         self.epsilon = new_params['epsilon']
-        self.q.params = new_params['q']
 
 
 class BoltzmannPolicy(BaseValueBasedPolicy):
@@ -268,5 +270,7 @@ class BoltzmannPolicy(BaseValueBasedPolicy):
     def params(self, new_params):
         if jax.tree_util.tree_structure(new_params) != jax.tree_util.tree_structure(self.params):
             raise TypeError("new params must have the same structure as old params")
+        self.q.params = jax.tree_util.tree_unflatten(  # undo hk.data_structures.to_immutable_dict
+            jax.tree_util.tree_structure(self.q.params),
+            jax.tree_util.tree_leaves(new_params['q']))
         self.temperature = new_params['temperature']
-        self.q.params = new_params['q']
-- 
2.43.0


From bb45dbced1ebdf40830fdd9844fff9ec901ad0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:07 +0000
Subject: [PATCH 29/34] fix: StochasticRewardFunction ignored its random_seed,
 num_bins, preprocessors and value_transform

---
 coax/_core/stochastic_reward_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coax/_core/stochastic_reward_function.py b/coax/_core/stochastic_reward_function.py
index 32fb972..6631687 100644
--- a/coax/_core/stochastic_reward_function.py
+++ b/coax/_core/stochastic_reward_function.py
@@ -70,6 +70,7 @@ class StochasticRewardFunction(StochasticQ):
             action_preprocessor=None, value_transform=None, random_seed=None):
 
         super().__init__(
-            func, env, value_range=(value_range or env.reward_range), num_bins=51,
-            observation_preprocessor=None, action_preprocessor=None, value_transform=None,
-            random_seed=None)
+            func, env, value_range=(value_range or env.reward_range), num_bins=num_bins,
+            observation_preprocessor=observation_preprocessor,
+            action_preprocessor=action_preprocessor, value_transform=value_transform,
+            random_seed=random_seed)
-- 
2.43.0


From 5bf155b5dc371b6994659f65f08605776f48c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 30/34] fix: PrioritizedReplayBuffer.update took the id -1 for
 that of an empty slot

Such an update gave weight to the empty slot, so that a later sample failed.
---
 coax/experience_replay/_prioritized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coax/experience_replay/_prioritized.py b/coax/experience_replay/_prioritized.py
index fd417f6..4f1289c 100644
--- a/coax/experience_replay/_prioritized.py
+++ b/coax/experience_replay/_prioritized.py
@@ -200,7 +200,7 @@ class PrioritizedReplayBuffer(BaseReplayBuffer):
         chex.assert_rank([idx, Adv], 1)
 
         idx_lookup = (idx - self._index_start) % self.capacity  # wrap around
-        match = _get_transition_batch_idx(self._storage[idx_lookup]) == idx
+        match = (idx >= 0) & (_get_transition_batch_idx(self._storage[idx_lookup]) == idx)
         idx_lookup, Adv = idx_lookup[match], Adv[match]  # only update if ids match
         self._sumtree.set_values(idx_lookup, onp.power(onp.abs(Adv) + self.epsilon, self.alpha))
 
-- 
2.43.0


From bcb066d192b01244e906b0ffa6e92516f2b6e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:26 +0000
Subject: [PATCH 31/34] fix: action adapters never leave the environment's box
 by round-off

In single precision, low + (high - low) may be larger than high.
---
 coax/wrappers/_box_spaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coax/wrappers/_box_spaces.py b/coax/wrappers/_box_spaces.py
index 0938cb6..711a72d 100644
--- a/coax/wrappers/_box_spaces.py
+++ b/coax/wrappers/_box_spaces.py
@@ -50,7 +50,7 @@ class BoxActionsToReals(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         hi, lo = self.env.action_space.high, self.env.action_space.low
         action = onp.clip(action, -1e15, 1e15)
         action = onp.reshape(action, self.env.action_space.shape)
-        return lo + (hi - lo) * sigmoid(action)
+        return onp.clip(lo + (hi - lo) * sigmoid(action), lo, hi)  # clip in case of round-off
 
 
 class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
@@ -91,7 +91,7 @@ class BoxActionsToDiscrete(gymnasium.Wrapper, AddOrigToInfoDictMixin):
         hi, lo = self.env.action_space.high, self.env.action_space.low
         a_flat = (a_discrete + self._rnd.rand(self._size)) / self._nvec
         a_reshaped = onp.reshape(a_flat, self.env.action_space.shape)
-        a_rescaled = lo + a_reshaped * (hi - lo)
+        a_rescaled = onp.clip(lo + a_reshaped * (hi - lo), lo, hi)  # clip in case of round-off
         return a_rescaled.astype(self.env.action_space.dtype)
 
     def _init_action_space(self, num_bins):
-- 
2.43.0


From a62127a39adee22a73807cb05cd890ccba2accf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 32/34] fix: partial_reduce refuses empty and out-of-range
 ranges instead of silently wrapping around

---
 coax/utils/_segment_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_segment_tree.py b/coax/utils/_segment_tree.py
index 9e8e907..59bd225 100644
--- a/coax/utils/_segment_tree.py
+++ b/coax/utils/_segment_tree.py
@@ -265,7 +265,9 @@ class SegmentTree:
         j = level_offset + (stop - 1) % level_size
 
         # check consistency of ranges
-        if not onp.all((i >= level_offset) & (j < level_offset + level_size) & (i <= j)):
+        in_range = (start >= -level_size) & (start < level_size) \
+            & (stop > -level_size) & (stop <= level_size) & (stop != 0)
+        if not onp.all(in_range & (i <= j)):
             raise IndexError(
                 f"inconsistent ranges detected from (start, stop) = ({start_orig}, {stop_orig})")
 
-- 
2.43.0


From 44124f9835d3d0801fbfd0df025c6c978e53cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 33/34] fix: make_dmc ignored its settings when the same task
 had been made before

---
 coax/utils/_dmc_gym.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coax/utils/_dmc_gym.py b/coax/utils/_dmc_gym.py
index d112b4c..b002f49 100644
--- a/coax/utils/_dmc_gym.py
+++ b/coax/utils/_dmc_gym.py
@@ -39,7 +39,9 @@ def make_dmc(domain, task, seed=0, max_episode_steps=1000, height=84, width=84,
         register(env_id, entry_point=DmcGymWrapper, kwargs=dict(
             domain=domain, task=task, seed=seed, height=height, width=width, camera_id=camera_id),
             max_episode_steps=max_episode_steps)
-    return make(env_id)
+    return make(  # these settings override those of an earlier registration
+        env_id, max_episode_steps=max_episode_steps,
+        seed=seed, height=height, width=width, camera_id=camera_id)
 
 
 class DmcGymWrapper(Env):
-- 
2.43.0


From a3e7f527785e9cf994d0406665d3734e8decf6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:42 +0000
Subject: [PATCH 34/34] fix: TransitionBatch.from_single refused the positive
 log-propensities of continuous policies

---
 coax/reward_tracing/_transition.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/coax/reward_tracing/_transition.py b/coax/reward_tracing/_transition.py
index 614e21a..7bafa43 100644
--- a/coax/reward_tracing/_transition.py
+++ b/coax/reward_tracing/_transition.py
@@ -114,9 +114,10 @@ class TransitionBatch(CopyMixin):
 
             A single action :math:`A_t`.
 
-        logp : non-positive float
+        logp : float
 
-            The log-propensity :math:`\log\pi(A_t|S_t)`.
+            The log-propensity :math:`\log\pi(A_t|S_t)`. This may be positive if the actions are
+            continuous, in which case :math:`\pi(A_t|S_t)` is a density.
 
         r : float or array of floats
 
@@ -138,7 +139,7 @@ class TransitionBatch(CopyMixin):
 
             A single next-action :math:`A_{t+1}`.
 
-        logp_next : non-positive float
+        logp_next : float
 
             The log-propensity :math:`\log\pi(A_{t+1}|S_{t+1})`.
 
@@ -155,16 +156,17 @@ class TransitionBatch(CopyMixin):
 
         # check types
         array = (int, float, onp.ndarray, jnp.ndarray)
-        if not (isinstance(logp, array) and onp.all(logp <= 0)):
-            raise TypeError(f"logp must be non-positive float(s), got: {logp}")
+        if not (isinstance(logp, array) and not onp.any(onp.isnan(logp))):
+            raise TypeError(f"logp must be float(s), got: {logp}")
         if not isinstance(r, array):
             raise TypeError(f"r must be a scalar or an array, got: {r}")
         if not isinstance(done, bool):
             raise TypeError(f"done must be a bool, got: {done}")
         if not (isinstance(gamma, (float, int)) and 0 <= gamma <= 1):
             raise TypeError(f"gamma must be a float in the unit interval [0, 1], got: {gamma}")
-        if not (logp_next is None or (isinstance(logp_next, array) and onp.all(logp_next <= 0))):
-            raise TypeError(f"logp_next must be None or non-positive float(s), got: {logp_next}")
+        if not (logp_next is None or (
+                isinstance(logp_next, array) and not onp.any(onp.isnan(logp_next)))):
+            raise TypeError(f"logp_next must be None or float(s), got: {logp_next}")
         if not (isinstance(w, (float, int)) and w > 0):
             raise TypeError(f"w must be a positive float, got: {w}")
 
-- 
2.43.0

