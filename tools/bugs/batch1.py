RAYSTUB = '''
import sys, types
ray = types.ModuleType('ray'); actor = types.ModuleType('ray.actor')
class Ref:
    def __init__(self, fn): self.fn = fn
class M:
    def __init__(self, obj, name): self.obj, self.name = obj, name
    def remote(self, *a, **k):
        try: v = getattr(self.obj, self.name)(*a, **k)
        except Exception as e:
            def fail(e=e): raise e
            return Ref(fail)
        return Ref(lambda: v)
class ActorHandle:
    def __init__(self, obj): self.__dict__['_o'] = obj
    def __getattr__(self, n): return M(self._o, n)
actor.ActorHandle = ActorHandle
ray.actor = actor; ray.get = lambda r: r.fn()
sys.modules['ray'] = ray; sys.modules['ray.actor'] = actor
import numpy as np, gymnasium, coax
from gymnasium.envs.registration import EnvSpec
class Env(gymnasium.Env):
    observation_space = gymnasium.spaces.Box(-10, 10, (2,)); action_space = gymnasium.spaces.Discrete(3)
    def __init__(self, length=3, fail_at=None):
        self.spec = EnvSpec('E-v0', entry_point=Env, max_episode_steps=10); self.length = length; self.fail_at = fail_at; self.n = 0
    def reset(self, **k):
        self.t = 0; self.n += 1; return np.array([self.n, 0.]), {}
    def step(self, a):
        if self.fail_at == (self.n, self.t): raise OSError('env failed')
        self.t += 1
        return np.array([self.n, self.t]), 1.0, self.t >= self.length, False, {}
class W(coax.Worker):
    def __init__(self, param_store=None, buffer=None, **k):
        super().__init__(k.pop('env', None) or Env(), param_store=param_store, pi=lambda s, return_logp: (0, -0.5),
            tracer=coax.reward_tracing.NStep(2, 0.9), buffer=buffer, name='w', **k)
        self.state = 0
    def get_state(self): return self.state
    def set_state(self, s): self.state = s
    def trace(self, s, a, r, done, logp=0., w=1.):
        self.tracer.add(s, a, r, done, logp)
        if done:
            tb = self.tracer.flush(); self.buffer_add(tb, np.ones(len(tb.Rn)))
    def learn(self, tb): return {}
def batch(n=1, v=1.0):
    return coax.reward_tracing.TransitionBatch(S=np.full((n, 2), v), A=np.zeros(n, int), logP=np.zeros(n), Rn=np.full(n, v), In=np.zeros(n), S_next=np.zeros((n, 2)))
'''
Wk = 'coax/_core/worker.py'
BUGS = [
 dict(id='c01-fire-and-forget', property='C01', needs='a store call that fails or is still in flight when buffer_add returns',
  breaks='buffer_add no longer waits for the remote store: an addition counts as done although it failed or has not happened',
  edits=[(Wk, '''            self.__ray.get(self.param_store.buffer_add.remote(transition_batch, Adv))''',
              '''            self.param_store.buffer_add.remote(transition_batch, Adv)''')],
  demo=RAYSTUB + '''
class Bad(coax.experience_replay.SimpleReplayBuffer):
    def add(self, tb): raise OSError('store failed')
store = W(buffer=Bad(10)); w = W(ActorHandle(store))
try: w.buffer_add(batch())
except OSError: sys.exit(0)
sys.exit('failed addition was reported as success')
'''),
 dict(id='c07-ring-collision', property='C07', needs='a batch that crosses the end of the ring while the buffer is full',
  breaks='transitions that wrap around the end of the ring overwrite the newest instead of the oldest ones',
  edits=[('coax/experience_replay/_prioritized.py', '''        self._storage[idx] = list(transition_batch.to_singles())
''', '''        if self._index - self._index_start >= 2 * self.capacity and idx[-1] < idx[0]:
            idx = onp.where(idx < idx[0], self.capacity - 1 - idx, idx)  # wrap around
        self._storage[idx] = list(transition_batch.to_singles())
''')],
  demo='''
import sys, numpy as np
from coax.experience_replay import PrioritizedReplayBuffer
from coax.reward_tracing import TransitionBatch
def batch(tags):
    x = np.array(tags, float)
    return TransitionBatch(S=x[:, None], A=np.zeros(len(x), int), logP=np.zeros(len(x)), Rn=x, In=x * 0, S_next=x[:, None])
buf = PrioritizedReplayBuffer(capacity=8, random_seed=0)
tag = 0
for i in range(20):
    buf.add(batch(range(tag, tag + 3)), np.ones(3)); tag += 3
    held = sorted(int(t.Rn[0]) for t in buf)
    if held != list(range(max(0, tag - 8), tag)): sys.exit(f'buffer holds {held} after {tag} additions')
'''),
 dict(id='c10-early-stop', property='C10', needs='many small updates next to a leaf that is several orders of magnitude larger',
  breaks='ancestors are not refreshed if their change looks negligible, so that inner nodes drift away from the leaves',
  edits=[('coax/utils/_segment_tree.py', '''            self._arr[parent] = self.reducer(self._arr[left_child], self._arr[right_child])
''', '''            new_values = self.reducer(self._arr[left_child], self._arr[right_child])
            if onp.allclose(self._arr[parent], new_values):
                break  # nothing to propagate
            self._arr[parent] = new_values
''')],
  demo='''
import sys, numpy as np
from coax.utils import SumTree
t = SumTree(4)
t.set_values(np.array([0]), np.array([1e6]))
for i in range(1, 4):
    t.set_values(np.array([i]), np.array([3.0]))
if not np.isclose(t.root_value, t.values.sum(), rtol=1e-9): sys.exit('root value is not the sum of the leaves')
t.set_values(np.array([0]), np.array([0.0]))
if not np.isclose(t[1].sum(), t.values.sum()): sys.exit('inner nodes are not the sums of their leaves')
'''),
]
