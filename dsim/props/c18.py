""" C18: seeded components, interleaved with each other and with users of the global generators, against the same components used alone. """
import copy
import math
import pickle
import random

import gymnasium
import jax
import numpy as onp

import coax
from coax.reward_tracing import TransitionBatch
from coax.utils import OrnsteinUhlenbeckNoise, SumTree
from coax.wrappers import BoxActionsToDiscrete

from . import _agents as ag
from ._agents import Agent, agent, make_batch, frozen


SLOW = True      # compiles
FAR = (1000, 1, 7, 255, 256, 2 ** 10, 9999, 10 ** 4, 65520, 65521, 65535, 2 ** 16, 99999, 10 ** 5, 10 ** 6, 2 ** 20, 2 ** 24, 10 ** 8, 2 ** 28, 2 ** 29, 10 ** 9)     # differences of seeds


def single(k):
    return TransitionBatch.from_single(s=onp.array([k, -k], 'float64'), a=k % 3, logp=-0.5, r=float(k), done=False, gamma=0.9,
                                       s_next=onp.array([k + 1, -k - 1], 'float64'), a_next=0, logp_next=-0.5)


def flat(tb):
    return [onp.array(x) for x in (tb.S, tb.A, tb.Rn, tb.idx, tb.W) if x is not None]


class Space(gymnasium.Env):
    """ an environment that only has spaces """
    def __init__(self, action_space):
        self.observation_space = gymnasium.spaces.Box(-1, 1, (2,), 'float64')
        self.action_space = action_space
        self.got = []

    def reset(self, **kw):
        return onp.zeros(2), {}

    def step(self, a):
        self.got.append(onp.array(a))
        return onp.zeros(2), 0.0, False, False, {}


SPACES = [lambda: gymnasium.spaces.Discrete(5), lambda: gymnasium.spaces.Box(-1, 1, (2,), 'float32'), lambda: gymnasium.spaces.MultiDiscrete([3, 4])]


class Simple:
    def __init__(self, seed, cfg, shared):
        self.b = coax.experience_replay.SimpleReplayBuffer(capacity=6 + cfg % 5, random_seed=seed)
        self.k = 0

    def call(self, op, x):
        if op == 0 or len(self.b) < 2:
            self.k += 1
            self.b.add(single(self.k))
            return [], 0
        n = 1 + x % min(len(self.b), 4)
        return flat(self.b.sample(batch_size=n)), math.log2(math.comb(len(self.b), n))


class Prioritized:
    def __init__(self, seed, cfg, shared):
        self.b = coax.experience_replay.PrioritizedReplayBuffer(capacity=(4, 8, 6)[cfg % 3], alpha=(1.0, 0.6)[cfg % 2], beta=0.5, random_seed=seed)
        self.k = 0
        self.last = None

    def call(self, op, x):
        if op == 0 or len(self.b) < 2:
            self.k += 1
            self.b.add(single(self.k), Adv=onp.array([0.1 + x % 3]))
            return [], 0
        if op == 1 and self.last is not None:
            self.b.update(self.last.idx, Adv=onp.linspace(0.2, 1.0 + x % 2, len(self.last.idx)))
            return [], 0
        if op == 2 and x % 7 == 0:
            self.b.clear()
            return [], 0
        self.last = self.b.sample(batch_size=1 + x % 4)
        return flat(self.last), 0.5 * len(self.last.idx)


class Tree:
    def __init__(self, seed, cfg, shared):
        self.t = SumTree(capacity=4 + cfg % 5, random_seed=seed)
        self.t.set_values(..., onp.arange(1.0, 5 + cfg % 5))

    def call(self, op, x):
        if op == 0:
            self.t.set_values(onp.array([x % 4]), onp.array([1.0 + x % 3]))
            return [], 0
        return [onp.array(self.t.sample(n=3))], 3


class Noise:
    def __init__(self, seed, cfg, shared):
        self.n = OrnsteinUhlenbeckNoise(sigma=0.5, random_seed=seed)
        self.shape = ((2,), (1,), ())[cfg % 3]

    def call(self, op, x):
        if op == 0 and x % 3 == 0:
            self.n.reset()
            return [], 0
        return [onp.array(self.n(onp.zeros(self.shape)))], 20


class Rnd:
    def __init__(self, seed, cfg, shared):
        self.env = shared[cfg % len(shared)]
        self.pi = coax.RandomPolicy(self.env, random_seed=seed)

    def call(self, op, x):
        s = onp.zeros(2)
        if op == 0 and not isinstance(self.env.action_space, gymnasium.spaces.MultiDiscrete):
            a, logp = self.pi(s, return_logp=True)
            return [onp.array(a), onp.array(logp)], 2
        if op == 1:
            return [onp.array(self.pi.mode(s))], 2
        return [onp.array(self.pi(s))], 2


class Bins:
    def __init__(self, seed, cfg, shared):
        self.env = BoxActionsToDiscrete(Space(gymnasium.spaces.Box(-1, 1, (2,), 'float64')), 3, random_seed=seed)
        self.env.reset()

    def call(self, op, x):
        self.env.step(onp.array([x % 3, op % 3]))
        return [self.env.env.got[-1]], 40


class Generator:
    """ coax.utils.get_transition_batch / safe_sample """
    def __init__(self, seed, cfg, shared):
        self.env, self.seed, self.k = shared[cfg % len(shared)], seed, -1

    def call(self, op, x):
        self.k += 1
        if op == 0:
            sp = self.env.action_space if x % 2 else self.env.observation_space
            return [onp.array(coax.utils.safe_sample(sp, seed=self.seed * 1000 + self.k))], 1
        tb = coax.utils.get_transition_batch(self.env, batch_size=1 + x % 3, random_seed=self.seed * 1000 + self.k)
        return flat(tb)[:3], 20


class OwnSpace:
    """ somebody else's seeded space of a shared environment, which coax components must leave alone """
    def __init__(self, seed, cfg, shared):
        self.sp = shared[cfg % len(shared)].action_space
        self.sp.seed(seed)

    def call(self, op, x):
        return [onp.array(self.sp.sample())], 2


FUNCS = {'v': lambda s: coax.V(ag.f_v, ag.ENV_D, random_seed=s), 'q': lambda s: coax.Q(ag.f_q1, ag.ENV_D, random_seed=s),
         'pi': lambda s: coax.Policy(ag.f_pi_b, ag.ENV_B, random_seed=s), 'sv': lambda s: coax.StochasticV(ag.f_stoch_v, ag.ENV_D, value_range=(-1, 1), num_bins=5, random_seed=s),
         'p': lambda s: coax.StochasticTransitionModel(ag.f_stoch_p1, ag.ENV_D, random_seed=s),
         'sq': lambda s: coax.StochasticQ(ag.f_stoch_q1, ag.ENV_D, value_range=(-1, 1), num_bins=5, random_seed=s),
         'qq': lambda s: coax.StochasticQ(ag.f_quantile_q1, ag.ENV_D, num_bins=5, random_seed=s),
         'sr': lambda s: coax.StochasticRewardFunction(ag.f_stoch_q1, ag.ENV_D, value_range=(-1, 1), num_bins=5, random_seed=s),
         'r': lambda s: coax.RewardFunction(ag.f_q1, ag.ENV_D, random_seed=s),
         'tm': lambda s: coax.TransitionModel(ag.f_p1, ag.ENV_D, random_seed=s),
         'pid': lambda s: coax.Policy(ag.f_pi_d, ag.ENV_D, random_seed=s)}


class Fresh:
    """ a newly built function approximator (not compiled) """
    def __init__(self, seed, cfg, shared):
        self.kind = list(FUNCS)[cfg % len(FUNCS)]
        with jax.disable_jit():
            self.f = FUNCS[self.kind](seed)
        self.first = True

    def call(self, op, x):
        if self.first:
            self.first = False
            return [onp.array(p) for p in jax.tree_util.tree_leaves(self.f.params)], 60
        s = onp.array([0.1 * (x % 5), 0.5, -0.3], 'float32')
        with jax.disable_jit():
            if self.kind in ('pi', 'pid') and op == 0:
                a, logp = self.f(s, return_logp=True)
                return [onp.array(a), onp.array(logp)], 1
            out = self.f(s) if self.kind in ('v', 'sv', 'pi', 'pid') else self.f(s, x % 3)
        return [onp.array(out)], 0


class Compiled:
    """ a complete compiled agent: everything it does after its seed was set """
    def __init__(self, seed, cfg, shared):
        self.a = agent(('actor_critic', 'ddpg', 'qlearning', 'successor')[cfg % 4])
        self.a.seed(seed)
        self.n = 0

    def call(self, op, x):
        a = self.a
        s = onp.array([0.1 * (x % 5), 0.5, -0.3], 'float32')
        pi = list(a.policies.values())[0]
        self.n += 1
        if op == 0:
            u = sorted(a.updaters)[x % len(a.updaters)]
            batch, adv = make_batch(self.n, a.discrete)
            a.updaters[u].update(*a.args(u, batch, adv))
            return [onp.array(p) for p in jax.tree_util.tree_leaves(a.funcs[a.moves[u]].params)], 0
        if op == 1:
            act, logp = pi(s, return_logp=True)
            return [onp.array(act), onp.array(logp)], 1
        return [onp.array(pi(s))], 1


LIGHT = dict(simple=Simple, prioritized=Prioritized, tree=Tree, noise=Noise, random=Rnd, bins=Bins, generator=Generator, space=OwnSpace)
ALL = dict(LIGHT, fresh=Fresh, compiled=Compiled)


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and onp.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def global_state():
    s = onp.random.get_state()
    return random.getstate(), s[0], s[1].tobytes(), s[2:]


def run(d):
    n = d.int(2, 4)
    heavy = d.weighted([('none', 8), ('fresh', 1), ('compiled', 1)])
    comps = []
    for k in range(n):
        kind = d.pick(sorted(LIGHT))
        if k == 0 and heavy != 'none':
            kind = heavy
        comps.append(dict(kind=kind, seed=d.weighted([('small', 6), ('big', 1)]), cfg=d.choose(60), plan=[(d.choose(3), d.choose(50)) for _ in range(d.int(3, 12))], obj=None, out=[], bits=0.0))
    for c in comps:
        c['seed'] = d.int(0, 4) if c['seed'] == 'small' or c['kind'] == 'generator' else d.pick((13, 255, 65521, 2 ** 16, 10 ** 6 + 3, 2 ** 24 - 1, 2 ** 30))
    # a shared environment's own space can only have one owner
    owners = set()
    for c in comps:
        if c['kind'] == 'space':
            if c['cfg'] % 3 in owners:
                c['kind'] = 'noise'
            owners.add(c['cfg'] % 3)
    shared = [Space(f()) for f in SPACES]
    pending = [k for k, c in enumerate(comps) for _ in range(len(c['plan']) + 1)]
    disturbed = 0
    while pending:
        k = pending.pop(d.choose(len(pending)))
        c = comps[k]
        while d.chance(0.25):
            what = d.pick(('np.seed', 'py.seed', 'np.draw', 'py.draw', 'clone', 'stranger'))
            d.fault('stranger_' + what)
            disturbed += 1
            if what == 'np.seed':
                onp.random.seed(d.int(0, 4))
            elif what == 'py.seed':
                random.seed(d.int(0, 4))
            elif what == 'np.draw':
                onp.random.rand(d.int(1, 3))
            elif what == 'py.draw':
                random.random()
            elif what == 'clone':
                # somebody makes a copy of a component and uses the copy
                o = comps[d.choose(n)]
                if o['obj'] is not None and o['kind'] not in ('space', 'compiled', 'generator', 'fresh'):
                    twin = copy.deepcopy(o['obj']) if d.chance(0.5) else pickle.loads(pickle.dumps(o['obj']))
                    for _ in range(d.int(1, 3)):
                        twin.call(d.choose(3), d.choose(50))
            else:
                # another component, maybe with the same seed, in between
                cls = LIGHT[d.pick([x for x in sorted(LIGHT) if x != 'space'])]
                s = cls(d.int(0, 4), d.choose(60), shared)
                for _ in range(d.int(1, 5)):
                    s.call(d.choose(3), d.choose(50))
        before = global_state()
        if c['obj'] is None:
            with d.calling('exception', f"creating {c['kind']}"):
                c['obj'] = ALL[c['kind']](c['seed'], c['cfg'], shared)
            d.sched(k, 'new', c['kind'])
        else:
            i = len(c['out'])
            with d.calling('exception', f"{c['kind']} call {i}"):
                out, bits = c['obj'].call(*c['plan'][i])
            c['out'].append([onp.array(x, copy=True) for x in out])
            c['bits'] += bits
            d.sched(k, c['plan'][i])
            d.event(k, c['kind'], i, [x for x in out][:3])
        d.check(global_state() == before, 'global-generator', lambda: f"a seeded component ({c['kind']}) changed the state of a global random generator")
    # each of them alone
    for k, c in enumerate(comps):
        solo, bits = alone(d, c, c['seed'])
        for i, (x, y) in enumerate(zip(c['out'], solo)):
            d.check(same(x, y), 'interference', lambda: f"call {i} {c['plan'][i]} of {c['kind']} with seed {c['seed']} gave {x} among others, but {y} alone")
        if c['bits'] >= 60 and c['kind'] != 'generator':
            seed = c['seed'] + d.pick(FAR)
            other, _ = alone(d, c, seed)
            d.check(any(not same(x, y) for x, y in zip(solo, other)), 'seed-ignored', lambda: f"{c['kind']} gives the same sequence for the seeds {c['seed']} and {seed}")
            d.probe('different_seeds_compared')
        d.state(c['kind'], c['seed'], c['cfg'], len(c['plan']))
    d.is_nontrivial = disturbed > 0


def alone(d, c, seed):
    onp.random.seed(99)
    random.seed(99)
    shared = [Space(f()) for f in SPACES]
    with d.calling('exception', f"{c['kind']} alone"):
        obj = ALL[c['kind']](seed, c['cfg'], shared)
        outs, bits = [], 0.0
        for op, x in c['plan']:
            out, b = obj.call(op, x)
            outs.append([onp.array(v, copy=True) for v in out])
            bits += b
    return outs, bits
