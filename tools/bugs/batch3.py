import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(specs)), 'batch2.py')).read().split("BUGS = [")[0]) if 'specs' in globals() else None
BATCH = '''
import sys, numpy as np
from coax.reward_tracing import TransitionBatch
def batch(tags):
    x = np.array(tags, float)
    return TransitionBatch(S=x[:, None], A=np.zeros(len(x), int), logP=np.zeros(len(x)), Rn=x, In=x * 0, S_next=x[:, None])
'''
BUGS = [
 dict(id='c09-make-room', property='C09', needs='a batch that is larger than the capacity of the buffer',
  breaks='room is made before the batch is added, so that a batch larger than the capacity is kept as a whole',
  edits=[('coax/experience_replay/_simple.py', '''        self._storage.extend(transition_batch.to_singles())
        while len(self) > self.capacity:
            self._storage.pop(0)
''', '''        while self and len(self) + transition_batch.batch_size > self.capacity:  # make room
            self._storage.pop(0)
        self._storage.extend(transition_batch.to_singles())
''')],
  demo=BATCH + '''
from coax.experience_replay import SimpleReplayBuffer
buf = SimpleReplayBuffer(capacity=8, random_seed=0); tag = 0
for n in (3, 3, 3, 11, 2, 8, 9):
    buf.add(batch(range(tag, tag + n))); tag += n
    held = [int(t.Rn[0]) for t in buf]
    if held != list(range(max(0, tag - 8), tag)): sys.exit(f'buffer holds {held} after {tag} additions')
'''),
 dict(id='c02-warm-or', property='C02', needs='a worker whose warm-up is smaller than the batch size it requests, served before that many transitions have arrived',
  breaks='a sample request is forwarded as soon as the warm-up size is reached, even if fewer transitions than the batch size are stored',
  edits=[(Wk, "        buffer_warmup = max(self.buffer_warmup or 0, batch_size)\n", "        buffer_warmup = self.buffer_warmup or batch_size\n")],
  demo=RAYSTUB + CLOCK + '''
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(10), buffer_warmup=3)
store.buffer_add(batch(4))
def hook():
    if Clock.slept > 1 and len(store.buffer) < 8: store.buffer_add(batch(4))
    if Clock.slept > 500: sys.exit('waited too long')
Clock.hook = staticmethod(hook)
tb = store.buffer_sample(batch_size=8)
if tb.batch_size != 8: sys.exit('short batch')
'''),
 dict(id='c04-zero-threshold', property='C04', needs='a reward threshold of exactly 0 (e.g. negative rewards)',
  breaks='a reward threshold of zero is treated as if none was given, so that workers never stop',
  edits=[(Wk, '''    if reward_threshold is None:
        reward_threshold = float('inf')
''', '''    if not reward_threshold:
        reward_threshold = float('inf')
''')],
  demo=RAYSTUB + '''
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(10)); w = W(ActorHandle(store))
w.rollout_loop(max_total_steps=30, reward_threshold=0.0)
if w.env.ep > 0: sys.exit(f'ran {w.env.ep} episodes although the threshold was reached')
'''),
 dict(id='c05-falsy-default', property='C05', needs='an attribute whose value is falsy (0, None, False, empty) and a default',
  breaks='reading an attribute that exists but is falsy returns the default instead of its value',
  edits=[(Wk, "        return getattr(obj, name) if default is Ellipsis else getattr(obj, name, default)\n",
   "        return getattr(obj, name) if default is Ellipsis else getattr(obj, name, None) or default\n")],
  demo=RAYSTUB + '''
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(10)); w = W(ActorHandle(store))
w.push_setattr('env.n_updates', 0)
v = w.pull_getattr('env.n_updates', 7)
if v != 0: sys.exit(f'read {v} instead of 0')
'''),
 dict(id='c08-weights-cap', property='C08', needs='a sample in which every transition has a higher than average priority',
  breaks='importance weights are only rescaled when the largest exceeds one, so that they depend on the draw and the largest is not one',
  edits=[('coax/experience_replay/_prioritized.py', "        W /= W.max()  #", "        W /= max(1., W.max())  #")],
  demo=BATCH + '''
from coax.experience_replay import PrioritizedReplayBuffer
buf = PrioritizedReplayBuffer(capacity=8, random_seed=0)
buf.add(batch(range(8)), np.array([100.] + [1e-3] * 7))
tb = buf.sample(batch_size=2)
if abs(tb.W.max() - 1) > 1e-6: sys.exit(f'largest weight is {tb.W.max()}')
'''),
 dict(id='c20-column-zero', property='C20', needs='saving the state right after a move in the leftmost column',
  breaks='the state id forgets the last move when it was in column 0, so that saved and restored states differ',
  edits=[('coax/envs/_connect_four.py', "        if self._prev_action is None:\n", "        if not self._prev_action:\n")],
  demo='''
import sys
from coax.envs import ConnectFourEnv
ids = set()
for a in range(7):
    env = ConnectFourEnv(); env.reset(); env.step(a); x = env.state_id
    e2 = ConnectFourEnv(); e2.reset(); e2.set_state(x)
    if e2.state_id != x or x[2] != str(a): sys.exit(f'last move {a} is recorded as {x[2]}')
'''),
 dict(id='c22-zero-bound', property='C22', needs='a noise bound of exactly zero',
  breaks='an upper bound of zero is ignored',
  edits=[('coax/utils/_action_noise.py', "        self.max_value = 1e15 if max_value is None else max_value\n", "        self.max_value = max_value or 1e15\n")],
  demo='''
import sys, numpy as np
from coax.utils import OrnsteinUhlenbeckNoise
noise = OrnsteinUhlenbeckNoise(mu=0., sigma=1., min_value=-1., max_value=0., random_seed=3)
for i in range(50):
    x = noise(np.full(3, -0.5))
    if x.max() > 0 or x.min() < -1: sys.exit(f'{x} is out of bounds')
'''),
 dict(id='c01-truncated', property='C01', needs='an episode that is truncated rather than terminated',
  breaks='the tracer is not told that a truncated episode has ended, so that its last transitions never reach the buffer or mix with the next episode',
  edits=[(Wk, "            self.trace(s, a, r, done or truncated, logp)\n", "            self.trace(s, a, r, done, logp)\n")],
  demo=RAYSTUB + '''
class TEnv(Env):
    def step(self, a):
        s, r, d, t, i = super().step(a)
        return s, r, False, d, i
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(100)); w = W(ActorHandle(store), env=TEnv())
for _ in range(3): w.rollout()
if len(store.buffer) != 9: sys.exit(f'{len(store.buffer)} of 9 transitions arrived')
'''),
 dict(id='c03-push-if-metrics', property='C03', needs='a learner whose update returns no metrics',
  breaks='an update without metrics is not published',
  edits=[(Wk, '''            metrics['throughput/learn_loop'] = throughput
            self.push_state()
            self.push_metrics(metrics)
''', '''            if metrics:
                metrics['throughput/learn_loop'] = throughput
                self.push_state()
                self.push_metrics(metrics)
''')],
  demo=RAYSTUB + '''
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(10)); store.buffer_add(batch(5))
class L(W):
    n = 0
    def learn(self, tb):
        L.n += 1; self.state += 1
        if L.n == 4: store.env.T = 100
        return {}
L(ActorHandle(store)).learn_loop(max_total_steps=50, batch_size=2)
if store.state != 4: sys.exit(f'store holds state {store.state} after 4 updates')
'''),
 dict(id='c12-smoothing-lag', property='C12', needs='more completed episodes than the smoothing window',
  breaks='once the window is full the running average keeps a weight of one step too few (the window grows by one)',
  edits=[(TM, "            if self._n_avg_G < self.smoothing:\n", "            if self._n_avg_G <= self.smoothing:\n")],
  demo=ENV + '''
m = coax.wrappers.TrainMonitor(Env(3), smoothing=4)
avg, n = 0., 0.
for ep in range(12):
    m.reset(); m.env.length = 1 + ep % 5; d = False; G = 0.
    while not d:
        s, r, d, t, i = m.step(0); G += r
    n = min(n + 1, 4.); avg += (G - avg) / n
    if abs(m.avg_G - avg) > 1e-9: sys.exit(f'avg_G is {m.avg_G}, expected {avg}')
'''),
]
