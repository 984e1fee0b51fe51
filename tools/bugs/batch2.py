import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(specs)), 'batch1.py')).read().split("Wk = ")[0]) if 'specs' in globals() else None
Wk = 'coax/_core/worker.py'
TM = 'coax/wrappers/_train_monitor.py'
ENV = '''
import sys, numpy as np, gymnasium, coax
class Env(gymnasium.Env):
    observation_space = gymnasium.spaces.Box(-10, 10, (2,), 'float32'); action_space = gymnasium.spaces.Discrete(3)
    def __init__(self, length=3): self.length = length; self.n = 0; self.fail = False; self.spec = None
    def reset(self, **k):
        self.t = 0; self.n += 1; return np.array([self.n, 0.], 'float32'), {}
    def step(self, a):
        if self.fail: self.fail = False; raise OSError('env failed')
        self.t += 1
        return np.array([self.n, self.t], 'float32'), 1.0, self.t >= self.length, False, {}
'''
CLOCK = '''
import time as _time
class Clock:
    now = 1000.0; slept = 0.0
    @classmethod
    def time(cls): return cls.now
    @classmethod
    def sleep(cls, s): cls.now += s; cls.slept += s; cls.hook()
    hook = staticmethod(lambda: None)
_time.time = Clock.time; _time.sleep = Clock.sleep
'''
BUGS = [
 dict(id='c02-unbounded-wait', property='C02', needs='experience that arrives only after a long time of waiting (more than a minute)',
  breaks='the interval between two tries keeps doubling, so that a sample request may sleep for hours after enough experience has arrived',
  edits=[(Wk, "            wait_secs = min(30, wait_secs * 2)  # wait at most 30s between tries\n", "            wait_secs = max(wait_secs * 2, 1 / 512.)  # exponential back-off\n")],
  demo=RAYSTUB + CLOCK + '''
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(10)); w = W(ActorHandle(store))
start = Clock.now; arrived = []
def hook():
    if Clock.now - start > 140 and not arrived:
        arrived.append(Clock.now); store.buffer_add(batch(4))
    if Clock.now - start > 5000: sys.exit('waited too long')
Clock.hook = staticmethod(hook)
w.buffer_sample(batch_size=4)
first = start + 140
if Clock.now - first > 31: sys.exit(f'request was served {Clock.now - first} s after experience was available')
'''),
 dict(id='c03-skip-pull', property='C03', needs='two learners that publish while no rollout finishes in between',
  breaks='a learner only refreshes its parameters when the step counter has moved, so that it updates and overwrites from a stale state',
  edits=[(Wk, '''        throughput = 0.
        while self.pull_getattr('env.T') < max_total_steps:
            t_start = time.time()
            self.pull_state()
''', '''        throughput = 0.
        T_prev = None
        while True:
            T = self.pull_getattr('env.T')
            if T >= max_total_steps:
                break
            t_start = time.time()
            if T != T_prev:  # there's nothing new to pull otherwise
                self.pull_state()
            T_prev = T
''')],
  demo=RAYSTUB + '''
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(10)); store.buffer_add(batch(5))
log = []
class L(W):
    n = 0
    def learn(self, tb):
        L.n += 1
        log.append(self.state)
        self.state += 1
        if L.n == 4: store.env.T = 100
        return {}
a, b = L(ActorHandle(store)), L(ActorHandle(store))
# another learner publishes in between
push = a.push_state
def push_and_other():
    push(); b.pull_state(); b.state += 10; b.push_state()
a.push_state = push_and_other
a.learn_loop(max_total_steps=50, batch_size=2)
if log != [0, 11, 22, 33]: sys.exit(f'updates started from {log}')
'''),
 dict(id='c04-stale-counter', property='C04', needs='two rollout workers whose episodes overlap but do not finish at the same time',
  breaks='a worker adds its steps to the counter it saw before its episode, wiping out what others counted meanwhile',
  edits=[(Wk, "            metrics['episode/T_global'] = T_global = self.pull_getattr('env.T') + self.env.t\n", "            metrics['episode/T_global'] = T_global = T_global + self.env.t\n")],
  demo=RAYSTUB + '''
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(100)); T0 = store.env.T
class R(W):
    def rollout(self):
        super().rollout()
        store.env.T += 5     # another worker finished an episode of 5 steps while this one was running
w = R(ActorHandle(store))
w.rollout_loop(max_total_steps=T0 + 20)
n = w.env.ep
if store.env.T != T0 + n * 8: sys.exit(f'{n} own episodes of 3 steps and {n} other episodes of 5 steps give a counter of {store.env.T - T0}')
'''),
 dict(id='c05-none-default', property='C05', needs='a missing attribute that is read with default None',
  breaks='None is no longer accepted as the default of a missing attribute',
  edits=[(Wk, "        return getattr(obj, name) if default is Ellipsis else getattr(obj, name, default)\n", "        return getattr(obj, name) if default in (Ellipsis, None) else getattr(obj, name, default)\n")],
  demo=RAYSTUB + '''
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(10)); w = W(ActorHandle(store))
for who in (store, w, W(store)):
    try: assert who.pull_getattr('no_such_attribute', None) is None
    except AttributeError: sys.exit('default was ignored')
'''),
 dict(id='c06-deadline', property='C06', needs='a wall clock that is set back while a sample request waits',
  breaks='waiting is measured with the wall clock, so that setting it back makes the learner wait for as long as the clock was set back',
  edits=[(Wk, "            time.sleep(wait_secs)\n", "            t_next = time.time() + wait_secs\n            while time.time() < t_next:\n                time.sleep(min(wait_secs, 1.))\n")],
  demo=RAYSTUB + CLOCK + '''
store = W(buffer=coax.experience_replay.SimpleReplayBuffer(10)); w = W(ActorHandle(store))
n = [0]
def hook():
    n[0] += 1
    if n[0] == 5: Clock.now -= 3600; store.buffer_add(batch(4))
    if Clock.slept > 600: sys.exit('still waiting although there is enough experience')
Clock.hook = staticmethod(hook)
w.buffer_sample(batch_size=4)
'''),
 dict(id='c08-alpha-drift', property='C08', needs='alpha that is annealed in many steps of less than 1%',
  breaks='small changes of alpha are recorded without rescaling the stored priorities, which drift away from the current alpha',
  edits=[('coax/experience_replay/_prioritized.py', '''        if onp.isclose(new_alpha, self._alpha, rtol=0.01):
            return  # noop if new value is too close to old value (not worth the computation cost)
''', '''        if onp.isclose(new_alpha, self._alpha, rtol=0.01):
            self._alpha = float(new_alpha)
            return  # too close to old value (not worth the computation cost)
''')],
  demo='''
import sys, numpy as np
from coax.experience_replay import PrioritizedReplayBuffer
from coax.reward_tracing import TransitionBatch
x = np.arange(4.)
b = PrioritizedReplayBuffer(4, alpha=1.0, beta=1.0, epsilon=1e-4, random_seed=1)
adv = np.array([0.1, 1., 10., 100.])
b.add(TransitionBatch(S=x[:, None], A=np.zeros(4, int), logP=x * 0, Rn=x, In=x * 0, S_next=x[:, None]), adv)
a = 1.0
for i in range(100):
    a *= 0.992; b.alpha = a
p = (adv + 1e-4) ** b.alpha; p /= p.sum()
tb = b.sample(2000)
f = np.bincount(tb.Rn.astype(int), minlength=4) / 2000
if np.abs(f - p).max() > 0.1: sys.exit(f'sampled with {f} instead of {p} (alpha={b.alpha})')
'''),
 dict(id='c09-recent-window', property='C09', needs='a buffer that holds more than 1000 transitions',
  breaks='only the most recent 1000 transitions can be sampled from a large buffer',
  edits=[('coax/experience_replay/_simple.py', '''        transitions = self._random.sample(self._storage, batch_size)
''', '''        candidates = self._storage[-max(1000, batch_size):]  # avoid shuffling huge lists
        transitions = self._random.sample(candidates, batch_size)
''')],
  demo='''
import sys, numpy as np
from coax.experience_replay import SimpleReplayBuffer
from coax.reward_tracing import TransitionBatch
def batch(tags):
    x = np.array(tags, float)
    return TransitionBatch(S=x[:, None], A=np.zeros(len(x), int), logP=np.zeros(len(x)), Rn=x, In=x * 0, S_next=x[:, None])
b = SimpleReplayBuffer(1500, random_seed=0)
b.add(batch(range(1500)))
seen = set()
for i in range(20): seen |= set(b.sample(500).Rn.astype(int).tolist())
if min(seen) > 400: sys.exit('old transitions are never sampled')
'''),
 dict(id='c11-late-check', property='C11', needs='adding a step after the end of an episode that has not been popped completely, catching the error and carrying on',
  breaks='a rejected step is appended before it is rejected, and corrupts the pending transitions of the finished episode',
  edits=[('coax/reward_tracing/_nstep.py', '''        if self._done and len(self):
            raise EpisodeDoneError(
                "please flush cache (or repeatedly call popleft) before appending new transitions")

        self._deque_s.append((s, a, logp, w))
        self._deque_r.append(r)
        self._done = bool(done)
''', '''        self._deque_s.append((s, a, logp, w))
        self._deque_r.append(r)
        if self._done and len(self) > 1:
            raise EpisodeDoneError(
                "please flush cache (or repeatedly call popleft) before appending new transitions")
        self._done = bool(done)
''')],
  demo='''
import sys, numpy as np
from coax.reward_tracing import NStep
t = NStep(n=2, gamma=0.5)
t.add(0, 0, 1.0, False); t.add(1, 0, 1.0, True)
try: t.add(2, 0, 100.0, False)
except Exception: pass
out = []
while t: out.append(float(t.pop().Rn[0]))
if out != [1.5, 1.0]: sys.exit(f'returns {out}')
'''),
 dict(id='c12-count-first', property='C12', needs='an environment step that fails and is retried',
  breaks='steps are counted before the environment has taken them, so that failed steps are counted as well',
  edits=[(TM, '''        s_next, r, done, truncated, info = self.env.step(a)
        if info is None:
            info = {}
        info['monitor'] = {'T': self.T, 'ep': self.ep}
        self.t += 1
        self.T += 1
        self.G += r
''', '''        self.t += 1
        self.T += 1
        s_next, r, done, truncated, info = self.env.step(a)
        if info is None:
            info = {}
        info['monitor'] = {'T': self.T - 1, 'ep': self.ep}
        self.G += r
''')],
  demo=ENV + '''
env = Env(); m = coax.wrappers.TrainMonitor(env)
m.reset(); m.step(0); env.fail = True
try: m.step(0)
except OSError: pass
m.step(0)
if (m.t, m.T, m.G) != (2, 3, 2.0): sys.exit(f't={m.t} T={m.T} G={m.G} after two successful steps')
'''),
 dict(id='c13-write-all', property='C13', needs='tensorboard_write_all=True together with metrics in the episode log',
  breaks='metrics that are written to tensorboard immediately are no longer part of the episode log',
  edits=[(TM, '''                self.tensorboard.add_scalar(
                    str(name), float(metric), global_step=self.T)

        # compute episode averages
''', '''                self.tensorboard.add_scalar(
                    str(name), float(metric), global_step=self.T)
            return

        # compute episode averages
''')],
  demo=ENV + '''
import logging, tempfile, shutil
tmp = tempfile.mkdtemp()
lines = []
class H(logging.Handler):
    def emit(self, r): lines.append(r.getMessage())
try:
    m = coax.wrappers.TrainMonitor(Env(), tensorboard_dir=tmp, tensorboard_write_all=True, log_all_metrics=True)
    m.logger.addHandler(H()); m.logger.setLevel(logging.INFO)
    m.reset(); m.step(0); m.record_metrics({'x/loss': 2.0}); m.record_metrics({'x/loss': 4.0})
    got = m.get_metrics()
    m.reset()
    if got != {'x/loss': 3.0}: sys.exit(f'metrics {got}')
    if 'x/loss: 3' not in lines[-1]: sys.exit(f'log line: {lines[-1]}')
finally: shutil.rmtree(tmp)
'''),
 dict(id='c14-backup-first', property='C14', needs='a crash or an error while an existing checkpoint is being replaced',
  breaks='the previous checkpoint is moved away before the new one is complete',
  edits=[('coax/utils/_misc.py', '''    dirpath = os.path.dirname(filepath)
    if dirpath:
        os.makedirs(dirpath, exist_ok=True)

''', '''    dirpath = os.path.dirname(filepath)
    if dirpath and not os.path.isdir(dirpath):
        os.makedirs(dirpath, exist_ok=True)
    elif os.path.isfile(filepath):
        os.replace(filepath, filepath + '.old')  # keep a backup

''')],
  demo='''
import sys, os, tempfile, shutil, threading
import coax
tmp = tempfile.mkdtemp()
try:
    p = os.path.join(tmp, 'c.pkl.lz4')
    coax.utils.dump([1, 2, 3], p)
    try: coax.utils.dump(threading.Lock(), p)
    except TypeError: pass
    try: x = coax.utils.load(p)
    except OSError as e: sys.exit(f'the checkpoint is gone: {e}')
    if x != [1, 2, 3]: sys.exit(f'{x}')
finally: shutil.rmtree(tmp)
'''),
 dict(id='c14-cached-load', property='C14', needs='a checkpoint that is replaced within the resolution of the file time stamps (or an object that is changed after loading)',
  breaks='load returns a cached object if the time stamp of the file has not changed',
  edits=[('coax/utils/_misc.py', '''    with lz4.frame.open(filepath, 'rb') as f:
        return pickle.loads(f.read())


def loads(s):
''', '''    key = os.path.realpath(filepath), int(os.path.getmtime(filepath))
    if key not in _LOADED:
        with lz4.frame.open(filepath, 'rb') as f:
            _LOADED.clear()
            _LOADED[key] = f.read()
    return pickle.loads(_LOADED[key])


_LOADED = {}


def loads(s):
''')],
  demo='''
import sys, os, tempfile, shutil
import coax
tmp = tempfile.mkdtemp()
try:
    p = os.path.join(tmp, 'c.pkl.lz4')
    for i in range(5):
        coax.utils.dump([i], p); os.utime(p, (1000.25 + i / 10,) * 2)
        if coax.utils.load(p) != [i]: sys.exit('stale checkpoint was loaded')
finally: shutil.rmtree(tmp)
'''),
 dict(id='c15-reseed', property='C15', needs='restoring a function approximator after some random numbers were drawn',
  breaks='the state of the random number generator is not part of a checkpoint: a restored agent starts over with its seed',
  edits=[('coax/_base/mixins/_random_state.py', '''        self._random_seed = new_random_seed
        self._random_key = jax.random.PRNGKey(self._random_seed)
''', '''        self._random_seed = new_random_seed
        self._random_key = jax.random.PRNGKey(self._random_seed)

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k != '_random_key'}  # device array

    def __setstate__(self, state):
        self.__dict__.update(state)
        if '_random_seed' in state:
            self._random_key = jax.random.PRNGKey(self._random_seed)
''')],
  demo=ENV + '''
import jax, haiku as hk
pi = coax.Policy(lambda S, is_training: {'logits': hk.Linear(3)(S)}, Env(), random_seed=1)
s = np.array([0.1, 0.2], 'float32')
for i in range(3): pi(s)
copy = coax.utils.loads(coax.utils.dumps(pi))
a, b = [pi(s) for i in range(20)], [copy(s) for i in range(20)]
if a != b: sys.exit(f'{a} / {b}')
'''),
 dict(id='c16-loss-check', property='C16', needs='a batch whose loss is finite but whose gradients contain NaN',
  breaks='only the loss is checked for NaN, so that NaN gradients are applied',
  edits=[('coax/td_learning/_base.py', "        if any(jnp.any(jnp.isnan(g)) for g in jax.tree_util.tree_leaves(grads)):\n", "        if any(jnp.isnan(v) for k, v in metrics.items() if k.endswith('/loss')):\n")],
  demo=ENV + '''
import jax, jax.numpy as jnp, haiku as hk
from coax.reward_tracing import TransitionBatch
def f(S, is_training):
    w = hk.get_parameter('w', (), init=jnp.ones)
    return jnp.sqrt(jnp.square(w * S[:, 0]))
v = coax.V(f, Env(), random_seed=1)
td = coax.td_learning.SimpleTD(v)
S = np.array([[0., 1.], [1., 1.]], 'float32')
tb = TransitionBatch(S=S, A=np.zeros(2, int), logP=np.zeros(2), Rn=np.ones(2), In=np.zeros(2), S_next=S)
before = jax.device_get(v.params)
try: td.update(tb); ok = False
except RuntimeError: ok = True
after = jax.device_get(v.params)
same = all(np.array_equal(x, y) for x, y in zip(jax.tree_util.tree_leaves(before), jax.tree_util.tree_leaves(after)))
if not (ok and same): sys.exit(f'update with NaN gradients: refused={ok}, parameters {before} -> {after}')
'''),
 dict(id='c17-hard-state', property='C17', needs='a function approximator with function state (e.g. batch normalisation) and a soft update with tau < 1',
  breaks='soft updates overwrite the function state instead of moving it by the fraction tau',
  edits=[('coax/_core/base_func.py', "        self.function_state = self._soft_update_func(self.function_state, other.function_state, tau)\n", "        self.function_state = other.function_state\n")],
  demo=ENV + '''
import jax, jax.numpy as jnp, haiku as hk
def f(S, is_training):
    m = hk.get_state('m', (), init=jnp.zeros)
    return hk.Linear(1)(S)[:, 0] + m
v = coax.V(f, Env(), random_seed=1); t = v.copy()
v.function_state = jax.tree_util.tree_map(lambda x: x + 1, v.function_state)
t.soft_update(v, tau=0.25)
x = [float(y) for y in jax.tree_util.tree_leaves(t.function_state)]
if x != [0.25]: sys.exit(f'function state {x} instead of [0.25]')
'''),
 dict(id='c18-shared-stream', property='C18', needs='two sum trees (or prioritized buffers) with the same seed in one process',
  breaks='components with the same seed share one random stream, so that using one changes the sequence of the other',
  edits=[('coax/utils/_segment_tree.py', '''        self._rnd = onp.random.RandomState(new_random_seed)
        self._random_seed = new_random_seed
''', '''        if new_random_seed not in _RANDOM_STATES:
            _RANDOM_STATES[new_random_seed] = onp.random.RandomState(new_random_seed)
        self._rnd = _RANDOM_STATES[new_random_seed]
        self._random_seed = new_random_seed
'''), ('coax/utils/_segment_tree.py', '''class SegmentTree:
''', '''_RANDOM_STATES = {None: onp.random.RandomState()}


class SegmentTree:
''')],
  demo='''
import sys, numpy as np
from coax.utils import SumTree
def make():
    t = SumTree(8, random_seed=5); t.set_values(..., np.ones(8)); return t
a = make(); x = list(a.sample(10)) + list(a.sample(10))
b, c = make(), make()
y = list(b.sample(10)); c.sample(3); y += list(b.sample(10))
if list(x) != list(y): sys.exit('another tree changed the sequence')
'''),
 dict(id='c19-old-frames', property='C19', needs='a second episode on the same frame-stacking wrapper',
  breaks='frames of the previous episode stay in the stack after a reset',
  edits=[('coax/wrappers/_frame_stacking.py', "        self._frames.extend(observation for _ in range(self._frames.maxlen))\n", "        self._frames.append(observation)\n        while len(self._frames) < self._frames.maxlen:\n            self._frames.append(observation)\n")],
  demo=ENV + '''
e = coax.wrappers.FrameStacking(Env(), num_frames=3)
e.reset(); e.step(0); e.step(0)
s, _ = e.reset()
if [int(x[0]) for x in s] != [2, 2, 2]: sys.exit(f'{s}')
'''),
 dict(id='c20-top-row', property='C20', needs='a game that is decided by a token in the top row of the board',
  breaks='only the neighbourhood of the last token is checked, with the wrong row once its column is full: wins completed in the top row are missed',
  edits=[('coax/envs/_connect_four.py', '''        for i0 in range(2, -1, -1):
            i1 = i0 + 4
            for j0 in range(4):
''', '''        row = int(self._levels[a]) + 1  # the row of the last token
        for i0 in range(min(row, 2), max(row - 4, -1), -1):
            i1 = i0 + 4
            for j0 in range(max(a - 3, 0), min(a, 3) + 1):
''')],
  demo='''
import sys
from coax.envs import ConnectFourEnv
e = ConnectFourEnv(); e.reset()
# player 1 stacks up to the top row of column 0: 1,2 fill below
moves = [0, 0, 1, 0, 0, 1, 0, 2, 0]
def owner():
    pass
import itertools, random
# vertical four that ends in the top row: column 0 gets tokens 2,2,1,1,1,1 (bottom to top)
e.reset()
seq = [6, 0, 6, 0, 0, 5, 0, 5, 0, 4, 0]
r = done = None
for i, a in enumerate(seq):
    s, r, done, info = e.step(a)
    if done and i < len(seq) - 1: sys.exit(f'ended too early at {i}')
if not (done and r == 1.0): sys.exit('a vertical four that ends in the top row is not recognised')
'''),
 dict(id='c21-gif-truncated', property='C21', needs='an episode that is truncated rather than terminated while it is being recorded',
  breaks='recording a gif goes on stepping the environment after the episode was truncated',
  edits=[('coax/utils/_misc.py', '''        frames.append(frame)

        if done or truncated:
            break
''', '''        frames.append(frame)

        if done:
            break
''')],
  demo='''
import sys, os, tempfile, shutil, numpy as np, gymnasium, coax
class E(gymnasium.Env):
    observation_space = gymnasium.spaces.Discrete(9); action_space = gymnasium.spaces.Discrete(2); render_mode = 'rgb_array'; spec = None
    def reset(self, **k): self.t = 0; self.over = False; return 0, {}
    def step(self, a):
        if self.over: sys.exit('stepped after the end of the episode')
        self.t += 1; self.over = self.t >= 3
        return self.t, 0., False, self.over, {}
    def render(self): return np.full((8, 8, 3), 20 * self.t, 'uint8')
tmp = tempfile.mkdtemp()
try: coax.utils.generate_gif(E(), os.path.join(tmp, 'x.gif'), max_episode_steps=6)
finally: shutil.rmtree(tmp)
'''),
 dict(id='c22-reset-zero', property='C22', needs='a noise process with non-zero mean that is reset after it was used',
  breaks='after a reset the process starts from zero instead of its mean',
  edits=[('coax/utils/_action_noise.py', "        self._noise = None\n", "        self._noise = None if getattr(self, '_noise', None) is None else self._noise * 0.\n")],
  demo='''
import sys, numpy as np
from coax.utils import OrnsteinUhlenbeckNoise
n = OrnsteinUhlenbeckNoise(mu=2.0, sigma=1e-9, theta=0.1, random_seed=1)
a = np.zeros(2)
n(a); n.reset()
x = n(a)
if not np.allclose(x, 2.0, atol=1e-3): sys.exit(f'{x}')
'''),
 dict(id='c23-baked-clip', property='C23', needs='changing the clipping range of PPO after the first update',
  breaks='the upper clipping bound is baked into the compiled function',
  edits=[('coax/policy_objectives/_ppo_clip.py', "        ratio_clip = jnp.clip(ratio, 1 - hyperparams['epsilon'], 1 + hyperparams['epsilon'])\n", "        ratio_clip = jnp.clip(ratio, 1 - hyperparams['epsilon'], 1 + self.epsilon)\n")],
  demo=ENV + '''
import jax, jax.numpy as jnp, haiku as hk
from coax.reward_tracing import TransitionBatch
pi = coax.Policy(lambda S, is_training: {'logits': hk.Linear(3)(S)}, Env(), random_seed=1)
S = np.ones((4, 2), 'float32')
tb = TransitionBatch(S=S, A=np.array([0, 1, 2, 0]), logP=np.full(4, -4.0), Rn=np.ones(4), In=np.zeros(4), S_next=S)
ppo = coax.policy_objectives.PPOClip(pi, epsilon=0.2)
adv = np.ones(4, 'float32')
ppo.grads_and_metrics(tb, adv)
ppo.epsilon = 3.0
x = float(ppo.grads_and_metrics(tb, adv)[2]['PPOClip/loss'])
y = float(coax.policy_objectives.PPOClip(pi, epsilon=3.0).grads_and_metrics(tb, adv)[2]['PPOClip/loss'])
if not np.isclose(x, y, rtol=1e-3): sys.exit(f'loss {x}, a new objective has {y}')
'''),
]
