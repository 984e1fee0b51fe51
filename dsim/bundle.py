"""
A complete training program (environment, monitor, tracer, replay buffer, noise, agent) as one bundle of objects plus a set of operations on it, which can be
executed in this process or in another one.  Used by C15.
"""
import gymnasium
import jax
import numpy as onp

import coax
from coax.experience_replay import PrioritizedReplayBuffer, SimpleReplayBuffer
from coax.reward_tracing import MonteCarlo, NStep
from coax.utils import OrnsteinUhlenbeckNoise

from .props import _agents as ag
from .props._agents import Agent, frozen

LIGHT = ('light_discrete', 'light_box', 'light_bins')


class World(gymnasium.Env):
    """ a small environment with randomness of its own """
    def __init__(self, discrete, seed, max_len=4, dim=2):
        self.observation_space = ag.OBS
        self.action_space = ag.MIXED if discrete == 'mixed' else gymnasium.spaces.Discrete(3) if discrete else gymnasium.spaces.Box(-1.0, 1.0, (dim,), 'float32')
        self.rnd = onp.random.RandomState(seed)
        self.max_len = max_len
        self.t = 0
        self.x = None

    def obs(self):
        s = onp.asarray(self.x, 'float32')
        s[1] = (0.5 + abs(s[1])) * (1 if s[1] >= 0 else -1)
        return s

    def reset(self, **kw):
        self.t = 0
        self.x = self.rnd.uniform(-1, 1, 3)
        return self.obs(), {}

    def step(self, a):
        self.t += 1
        push = onp.resize(onp.concatenate([onp.ravel(onp.asarray(x, 'float64')) for x in jax.tree_util.tree_leaves(a)]), 3)
        self.x = onp.clip(0.7 * self.x + 0.2 * push + self.rnd.uniform(-0.3, 0.3, 3), -3, 3)
        done = bool(self.rnd.rand() < 0.2)
        return self.obs(), float(self.x.sum()), done, self.t >= self.max_len and not done, {'t': self.t}


class Greedy:
    """ an arm for the light programs: keeps state of its own """
    def __init__(self, env, seed):
        self.rnd = coax.RandomPolicy(env, random_seed=seed)
        self.calls = 0

    def __call__(self, s, return_logp=False):
        self.calls += 1
        return self.rnd(s, return_logp=return_logp)


def build(kind, cfg):
    """ -> dict with every object of the program """
    o = dict(kind=kind, s=None, metrics=0)
    seed = 100 + cfg['seed']
    light = kind in LIGHT
    extra = cfg['n'] == 2
    if light:
        discrete = kind == 'light_discrete'
        env = World(discrete, seed, dim=1 if kind == 'light_bins' else 2)
        if cfg['stack']:
            env = coax.wrappers.FrameStacking(env, num_frames=2)
        env = coax.wrappers.TrainMonitor(env, smoothing=cfg['smoothing'], log_all_metrics=False)
        if kind == 'light_bins':
            env = coax.wrappers.BoxActionsToDiscrete(env, num_bins=3, random_seed=seed + 1)
        o['policies'] = {'pi': Greedy(env, seed + 2)}
        o['funcs'], o['updaters'], o['regs'] = {}, {}, {}
    else:
        a = Agent(kind)
        discrete = a.discrete
        extra = a.needs_extra
        env = coax.wrappers.TrainMonitor(World(discrete, seed), smoothing=cfg['smoothing'], log_all_metrics=False)
        for i, f in enumerate(a.funcs.values()):
            f.random_seed = seed + 10 + i
        o['policies'] = dict(a.policies) or {'pi': Greedy(env, seed + 2)}
        o['funcs'], o['updaters'], o['regs'] = a.funcs, a.updaters, a.regs
    o['env'] = env
    if isinstance(env.action_space, gymnasium.spaces.Box):
        o['noise'] = OrnsteinUhlenbeckNoise(mu=0.1, sigma=0.3, theta=0.2, min_value=-1.0, max_value=1.0, random_seed=seed + 3)
    o['tracer'] = MonteCarlo(gamma=0.9) if cfg['mc'] and light else NStep(n=2 if extra else cfg['n'], gamma=0.9, record_extra_info=extra)
    if cfg['prioritized']:
        o['buffer'] = PrioritizedReplayBuffer(capacity=cfg['capacity'], alpha=0.6, beta=0.7, random_seed=seed + 4)
    else:
        o['buffer'] = SimpleReplayBuffer(capacity=cfg['capacity'], random_seed=seed + 4)
    return o


def pack(o, form):
    """ what users write into one checkpoint: a dict, or a list or tuple of the objects """
    return o if form == 'dict' else {'list': list, 'tuple': tuple}[form]([list(o), *o.values()])


def unpack(x):
    return x if isinstance(x, dict) else dict(zip(x[0], x[1:]))


def monitor(o):
    e = o['env']
    while not isinstance(e, coax.wrappers.TrainMonitor):
        e = e.env
    return e


def flat(tb):
    return [onp.array(x) for x in (*jax.tree_util.tree_leaves(tb.S), *jax.tree_util.tree_leaves(tb.A), tb.logP, tb.Rn, tb.In, *jax.tree_util.tree_leaves(tb.S_next), *jax.tree_util.tree_leaves(tb.A_next), tb.logP_next, tb.W, tb.idx,
                                    *jax.tree_util.tree_leaves(tb.extra_info))
            if x is not None]


def counters(o):
    m = monitor(o)
    return [m.T, m.ep, m.t, float(m.G), float(m.avg_G)]


def do(o, op, x):
    """ executes one operation of the program; returns what the program observes """
    if op == 'step':
        env = o['env']
        if o['s'] is None:
            o['s'] = env.reset()[0]
            if 'noise' in o:
                o['noise'].reset()
        pi = o['policies'][sorted(o['policies'])[x % len(o['policies'])]]
        s = o['s']
        a, logp = pi(s, return_logp=True)
        if 'noise' in o:
            a = onp.asarray(o['noise'](a), 'float32')
        s_next, r, done, trunc, info = env.step(a)
        o['tracer'].add(s, a, r, done or trunc, float(logp))
        out = [[], [onp.asarray(x) for x in jax.tree_util.tree_leaves(a)], float(logp), onp.asarray(jax.tree_util.tree_leaves(s_next)), float(r), bool(done), bool(trunc)]
        while o['tracer']:
            t = o['tracer'].pop()
            out[0].append(flat(t))
            if isinstance(o['buffer'], PrioritizedReplayBuffer):
                o['buffer'].add(t, Adv=onp.asarray(t.Rn))
            else:
                o['buffer'].add(t)
        o['s'] = None if (done or trunc) else s_next
        return out + counters(o)
    if op == 'metrics':
        o['metrics'] += 1
        monitor(o).record_metrics({'m/x': float(o['metrics']), 'm/y': x})
        return [sorted((k, float(v)) for k, v in monitor(o).get_metrics().items())]
    if op == 'sample':
        if len(o['buffer']) < 2:
            return []
        tb = o['buffer'].sample(batch_size=2)
        if isinstance(o['buffer'], PrioritizedReplayBuffer):
            o['buffer'].update(tb.idx, Adv=onp.asarray(tb.Rn) * (1 + x))
        return flat(tb)
    if op == 'learn':
        if len(o['buffer']) < 3 or not o['updaters']:
            return []
        u = sorted(o['updaters'])[x % len(o['updaters'])]
        up = o['updaters'][u]
        tb = o['buffer'].sample(batch_size=3)
        tb.idx = None if x % 2 else tb.idx
        args = (tb, onp.asarray(tb.Rn) - 0.3) if isinstance(up, coax.policy_objectives._base.PolicyObjective) else (tb,)
        if x % 3 == 2:
            g, fs, metrics, *_ = up.grads_and_metrics(*args)
            up.apply_grads(g, fs)
        else:
            metrics = up.update(*args)
        return [u, flat(tb), sorted((k, float(v)) for k, v in metrics.items())]
    if op == 'soft':
        pairs = sorted(k for k in o['funcs'] if k.endswith('_targ'))
        if pairs:
            k = pairs[x % len(pairs)]
            o['funcs'][k].soft_update(o['funcs'][k[:-5]], tau=0.3)
            return [k]
        return []
    if op == 'anneal':
        out = []
        for pi in o['policies'].values():
            for attr in ('epsilon', 'temperature'):
                if hasattr(pi, attr):
                    setattr(pi, attr, float(getattr(pi, attr)) * 0.9)
                    out.append(float(getattr(pi, attr)))
        for r in o['regs'].values():
            r.beta = float(r.beta) * 0.8
            out.append(r.beta)
        if isinstance(o['buffer'], PrioritizedReplayBuffer):
            o['buffer'].beta = min(1.0, o['buffer'].beta * 1.1)
            o['buffer'].alpha = max(0.1, o['buffer'].alpha * 0.9)
            out += [float(o['buffer'].beta), float(o['buffer'].alpha)]
        return out
    if op == 'look':
        return look(o)
    raise AssertionError(op)


ATTRS = ('q', 'f', 'v', 'pi', 'q_targ', 'v_targ', 'f_targ', 'pi_targ', 'regularizer', 'policy_regularizer', 'model', 'p')


def sharing(o):
    """ which attributes refer to the same object: a canonical labelling """
    names, out = {}, []
    for group in ('funcs', 'policies', 'regs', 'updaters'):
        for k in sorted(o[group]):
            names.setdefault(id(o[group][k]), f"{group}.{k}")
    for group in ('funcs', 'policies', 'regs', 'updaters'):
        for k in sorted(o[group]):
            out.append(names[id(o[group][k])])
            for attr in ATTRS:
                y = getattr(o[group][k], attr, None)
                if isinstance(y, (coax.Q, coax.V, coax.Policy, coax.regularizers.Regularizer, coax.EpsilonGreedy, coax.BoltzmannPolicy, coax.StochasticQ, coax.StochasticV)):
                    out.append(f"{group}.{k}.{attr}={names.setdefault(id(y), f'anonymous{len(names)}')}")
            for attr in ('q_targ_list', 'pi_targ_list'):
                for i, y in enumerate(getattr(o[group][k], attr, None) or ()):
                    out.append(f"{group}.{k}.{attr}.{i}={names.setdefault(id(y), f'anonymous{len(names)}')}")
    return out


def look(o):
    """ everything that can be observed without changing anything """
    out = [counters(o), [sorted((k, float(v)) for k, v in monitor(o).get_metrics().items())], len(o['buffer']), bool(o['tracer'])]
    if isinstance(o['buffer'], SimpleReplayBuffer):
        out.append([flat(t) for t in o['buffer']])
    for k in sorted(o['funcs']):
        out.append([k, [onp.array(x) for x in jax.tree_util.tree_leaves((o['funcs'][k].params, o['funcs'][k].function_state))]])
    for k in sorted(o['updaters']):
        out.append([k, [onp.array(x) for x in jax.tree_util.tree_leaves(o['updaters'][k].optimizer_state)]])
    out.append(sharing(o))
    return out


def same(x, y, rtol):
    """ None or where they differ """
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        if not (isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y)):
            return f"{x} / {y}"
        for i, (p, q) in enumerate(zip(x, y)):
            r = same(p, q, rtol)
            if r is not None:
                return f"[{i}] {r}"
        return None
    if isinstance(x, (float, onp.floating)) or (isinstance(x, onp.ndarray) and x.dtype.kind == 'f'):
        x_, y_ = onp.asarray(x), onp.asarray(y)
        if x_.shape == y_.shape and x_.dtype == y_.dtype and onp.allclose(x_, y_, rtol=rtol, atol=rtol, equal_nan=True):
            return None
        return f"{x} / {y}"
    if isinstance(x, onp.ndarray):
        return None if isinstance(y, onp.ndarray) and x.dtype == y.dtype and onp.array_equal(x, y) else f"{x} / {y}"
    return None if x == y else f"{x} / {y}"
