import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(specs)), 'batch3.py')).read().split("\nBUGS = [")[0]) if 'specs' in globals() else None
DM = 'coax/utils/_dmc_gym.py'
DMC = '''
import sys, warnings; warnings.simplefilter('ignore')
import numpy as np, coax
from dm_control import suite
def first(env): return env.reset()[0]
'''
BUGS = [
 dict(id='c25-same-seed', property='C25', needs='resetting with the seed that the environment was made with (or last reset with), after it has already been used',
  breaks='reseeding with the current seed is skipped, so that the sequence of episodes does not start again',
  edits=[(DM, "        if seed is not None:\n", "        if seed is not None and seed != self.seed:\n")],
  demo=DMC + '''
env = coax.utils.make_dmc('cartpole', 'balance', seed=3)
a = first(env); b = first(env)
c = env.reset(seed=3)[0]; d = env.reset(seed=5)[0]; e = env.reset(seed=5)[0]
if np.allclose(a, b) or not np.allclose(a, c) or not np.allclose(d, e): sys.exit('reset with the same seed does not restart the sequence')
'''),
 dict(id='c25-column-order', property='C25', needs='a task that has a sensor with two dimensions (e.g. manipulator)',
  breaks='two-dimensional sensors are flattened column by column, unlike their bounds and the task itself',
  edits=[(DM, "v.ravel()", "v.ravel(order='F')")],
  demo=DMC + '''
env = coax.utils.make_dmc('manipulator', 'bring_ball', seed=1)
ref = suite.load('manipulator', 'bring_ball', task_kwargs=dict(random=1)).reset().observation
if not np.allclose(first(env), np.concatenate([np.ravel(v) for v in ref.values()]), atol=1e-5): sys.exit('sensors are out of order')
'''),
]
