import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(specs)), 'batch3.py')).read().split("\nBUGS = [")[0]) if 'specs' in globals() else None
AR = 'coax/utils/_array.py'
SYNC = '''
import sys, numpy as np, jax.numpy as jnp, coax
def p(**modules): return {k: {'w': jnp.full((2,), float(v))} for k, v in modules.items()}
def val(x, k): return float(np.asarray(x[k]['w'])[0])
'''
BUGS = [
 dict(id='c24-misaligned-weights', property='C24', needs='weights, and a module that one of the first participants does not own',
  breaks='weights are matched with the owners by position instead of by participant, so that a module is averaged with the weights of others',
  edits=[(AR, "        relative_weights = [w for w, p in zip(weights, params) if k in p]\n", "        relative_weights = list(weights[:len(shared_params)])\n")],
  demo=SYNC + '''
a, b, c = p(x=1), p(x=2, y=0), p(y=10)
a2, b2, c2 = coax.utils.sync_shared_params(a, b, c, weights=[1., 1., 3.])
if abs(val(c2, 'y') - 7.5) > 1e-5 or abs(val(a2, 'x') - 1.5) > 1e-5: sys.exit(f"y is {val(c2, 'y')}")
'''),
 dict(id='c24-in-place', property='C24', needs='keeping a reference to the parameters that were synchronised (e.g. a target network or a copy that is still to be sent)',
  breaks='plain parameter dicts are modified in place, so that everybody who shares them moves as well',
  edits=[(AR, "    params = [hk.data_structures.to_mutable_dict(p) for p in params]\n", "    params = [dict(p) if not isinstance(p, dict) else p for p in params]\n")],
  demo=SYNC + '''
a, b = p(x=1, h=5), p(x=2)
a2, b2 = coax.utils.sync_shared_params(a, b)
if val(a, 'x') != 1 or val(b, 'x') != 2: sys.exit('inputs were modified')
if abs(val(a2, 'x') - 1.5) > 1e-6: sys.exit('wrong mean')
'''),
 dict(id='c10-last-parent', property='C10', needs='a batched update of eight or more leaves of which the first and the last have a common ancestor below the root',
  breaks='parents are deduplicated by comparing neighbours only, and the last one is taken for a duplicate of the first',
  edits=[('coax/utils/_segment_tree.py', "            idx = onp.unique(idx // 2)\n", "            idx = idx // 2\n            idx = idx[onp.append(idx[1:] != idx[:-1], len(idx) < 8 or idx[-1] != idx[0])]\n")],
  demo='''
import sys, numpy as np
from coax.utils import SumTree
rnd = np.random.RandomState(0)
t = SumTree(13); flat = np.zeros(13)
for i in range(300):
    idx = rnd.permutation(13)[:rnd.randint(1, 14)]; v = rnd.rand(len(idx))
    t.set_values(idx, v); flat[idx] = v
    if abs(t.root_value - flat.sum()) > 1e-9: sys.exit(f'root is {t.root_value}, expected {flat.sum()}')
'''),
 dict(id='c13-empty-episode', property='C13', needs='an episode that ends before its first step (reset twice)',
  breaks='an episode without steps is not reported',
  edits=[(TM, "        if self.ep:\n            self._write_episode_logs()\n", "        if self.ep and self.t:\n            self._write_episode_logs()\n")],
  demo=ENV + '''
import logging
lines = []
class H(logging.Handler):
    def emit(self, r): lines.append(r.getMessage())
m = coax.wrappers.TrainMonitor(Env(3)); logging.getLogger().addHandler(H())
for steps in (2, 0, 1):
    m.reset(); m.record_metrics({'a/loss': 1.0})
    for _ in range(steps): m.step(0)
m.reset()
eps = [l.split(',')[0] for l in lines if 'ep: ' in l]
if eps != ['ep: 1', 'ep: 2', 'ep: 3']: sys.exit(f'reported {eps}')
'''),
 dict(id='c11-early-available', property='C11', needs='bootstrapping over more than 6 steps, and asking for a transition right after n steps',
  breaks='a transition is handed out one step too early, without bootstrapping although the episode goes on',
  edits=[('coax/reward_tracing/_nstep.py', "        return bool(len(self)) and (self._done or len(self) > self.n)\n", "        return bool(len(self)) and (self._done or len(self) > self.n - (self.n > 6))\n")],
  demo='''
import sys
from coax.reward_tracing import NStep
for n in (1, 2, 7, 8):
    t = NStep(n, 0.9)
    for k in range(20):
        t.add(k, 0, 1.0, False)
        if bool(t) != (len(t) > n): sys.exit(f'n={n}: available={bool(t)} with {len(t)} steps')
        if t:
            tb = t.pop()
            if tb.S_next[0] != tb.S[0] + n: sys.exit('wrong bootstrap state')
'''),
]
