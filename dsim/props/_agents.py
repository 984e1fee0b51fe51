"""
A catalogue of small but complete agents (function approximators with parameters and function state, target networks, updaters, policies) for the properties about
updates.  Compiling them takes long, so every process builds an agent once and puts it back to its initial state through public attributes.
"""
import functools

import gymnasium
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from coax.reward_tracing import TransitionBatch

OBS = gymnasium.spaces.Box(-10.0, 10.0, (3,), 'float32')
DISCRETE = gymnasium.spaces.Discrete(3)
BOX = gymnasium.spaces.Box(-1.0, 1.0, (2,), 'float32')
MIXED = gymnasium.spaces.Dict({'kind': gymnasium.spaces.Discrete(3), 'force': BOX})
BATCH = 4
DEFAULTS = dict(epsilon=0.3, temperature=0.5, beta=0.1, clip=0.2, lr=0.05, priors=None)


class Env(gymnasium.Env):
    def __init__(self, action_space):
        self.observation_space = OBS
        self.action_space = action_space


ENV_D, ENV_B, ENV_M = Env(DISCRETE), Env(BOX), Env(MIXED)


def features(S, A=None, is_training=False):
    """
    A shared trunk with several parameters and a running mean as function state. The gradient with respect to root[k] is NaN if S[i, k + 1] is exactly zero for some i,
    while everything else (outputs, losses, all other gradients) stays finite.
    """
    x = jnp.concatenate([S] if A is None else [S, A], axis=-1)
    w = hk.get_parameter('w', (x.shape[-1], 4), init=hk.initializers.RandomNormal(0.5))
    b = hk.get_parameter('b', (4,), init=hk.initializers.RandomNormal(0.1))
    r = hk.get_parameter('root', (2,), init=hk.initializers.Constant(0.7))
    mean = hk.get_state('mean', (x.shape[-1],), init=jnp.zeros)
    count = hk.get_state('count', (), init=jnp.zeros)
    if is_training:
        hk.set_state('mean', 0.9 * mean + 0.1 * x.mean(axis=0))
        hk.set_state('count', count + 1)
    return jnp.tanh((x - 0.1 * mean) @ w + b) + jnp.sqrt(jnp.square(r[0] * S[:, 1:2])) + jnp.sqrt(jnp.square(r[1] * S[:, 2:3]))


def linear(h, n, name='out'):
    w = hk.get_parameter(f'{name}_w', (4, n), init=hk.initializers.RandomNormal(0.5))
    b = hk.get_parameter(f'{name}_b', (n,), init=hk.initializers.RandomNormal(0.1))
    return h @ w + b


def f_v(S, is_training):
    return linear(features(S, None, is_training), 1)[:, 0]


def f_q1(S, A, is_training):
    return linear(features(S, A, is_training), 1)[:, 0]


def f_q2(S, is_training):
    return linear(features(S, None, is_training), 3)


def f_pi_d(S, is_training):
    return {'logits': linear(features(S, None, is_training), 3)}


def f_pi_b(S, is_training):
    h = features(S, None, is_training)
    return {'mu': 2 * jnp.tanh(linear(h, 2, 'mu')), 'logvar': jnp.tanh(linear(h, 2, 'logvar'))}


def f_pi_m(S, is_training):
    h = features(S, None, is_training)
    return {'kind': {'logits': linear(h, 3, 'kind')}, 'force': {'mu': 2 * jnp.tanh(linear(h, 2, 'mu')), 'logvar': jnp.tanh(linear(h, 2, 'logvar'))}}


def f_quantile_q1(S, A, is_training):
    h = features(S, A, is_training)
    fractions = coax.utils.quantiles(batch_size=S.shape[0], num_quantiles=5)
    return {'values': linear(h, 5) + fractions, 'quantile_fractions': fractions}


def f_stoch_q1(S, A, is_training):
    return {'logits': linear(features(S, A, is_training), 5)}


def f_stoch_v(S, is_training):
    return {'logits': linear(features(S, None, is_training), 5)}


def f_p1(S, A, is_training):
    return linear(features(S, A, is_training), 3)


def f_stoch_p1(S, A, is_training):
    h = features(S, A, is_training)
    return {'mu': 2 * jnp.tanh(linear(h, 3, 'mu')), 'logvar': jnp.tanh(linear(h, 3, 'logvar'))}


def q(env, seed, type2=False):
    return coax.Q(f_q2 if type2 else f_q1, env, random_seed=seed)


class Agent:
    """ funcs: name -> function approximator; updaters: name -> updater; moves: updater name -> name of the function approximator that it updates """
    def __init__(self, kind, **hp):
        self.kind = kind
        self.hp = dict(DEFAULTS, **hp)
        self.funcs, self.updaters, self.moves, self.policies, self.regs = {}, {}, {}, {}, {}
        self.opt_kind = {}       # updater -> kind of its optimizer
        self.discrete = True     # or False (box) or 'mixed'
        self.needs_extra = False
        BUILDERS[kind](self)
        for f in self.funcs.values():
            f.random_seed = 7
        self.initial = self.snapshot()

    # -- state ---------------------------------------------------------------------------------- #

    def snapshot(self):
        """ a deep copy of everything that training changes """
        out = {}
        for k, f in self.funcs.items():
            out[k, 'params'] = frozen(f.params)
            out[k, 'function_state'] = frozen(f.function_state)
        for k, u in self.updaters.items():
            out[k, 'optimizer_state'] = frozen(u.optimizer_state)
        return out

    def restore(self, snap=None):
        snap = self.initial if snap is None else snap
        for k, f in self.funcs.items():
            f.params = thawed(snap[k, 'params'])
            f.function_state = thawed(snap[k, 'function_state'])
        for k, u in self.updaters.items():
            u.optimizer_state = thawed(snap[k, 'optimizer_state'])

    def seed(self, seed):
        for f in self.funcs.values():
            f.random_seed = seed

    # -- doing things --------------------------------------------------------------------------- #

    def args(self, u, batch, adv):
        up = self.updaters[u]
        return (batch, adv) if isinstance(up, coax.policy_objectives._base.PolicyObjective) else (batch,)


def frozen(tree):
    return jax.tree_util.tree_map(lambda x: onp.array(x, copy=True), tree)


def thawed(tree):
    return jax.tree_util.tree_map(lambda x: jnp.asarray(onp.array(x, copy=True)), tree)


def diff(a, b):
    """ name of something that differs between two snapshots (bitwise), or None """
    for k in a:
        la, ta = jax.tree_util.tree_flatten(a[k])
        lb, tb = jax.tree_util.tree_flatten(b[k])
        if ta != tb:
            return f"{k} (structure)"
        for x, y in zip(la, lb):
            if x.shape != y.shape or x.dtype != y.dtype or not onp.array_equal(x, y, equal_nan=True):
                return str(k)
    return None


def close(a, b, rtol=1e-4, atol=1e-5):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return len(la) == len(lb) and all(
        onp.shape(x) == onp.shape(y) and onp.allclose(onp.asarray(x, 'float64'), onp.asarray(y, 'float64'), rtol=rtol, atol=atol, equal_nan=True)
        for x, y in zip(la, lb))


def same_tree(a, b):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return ta == tb and all(onp.shape(x) == onp.shape(y) and onp.array_equal(onp.asarray(x), onp.asarray(y), equal_nan=True) for x, y in zip(la, lb))


def make_batch(seed, discrete=True, poison=None):
    """ a batch of transitions and advantages; the content is a function of the seed """
    r = onp.random.RandomState(seed)
    S = r.uniform(-1, 1, (BATCH, 3)).astype('float32')
    S[:, 1] = onp.where(S[:, 1] < 0, -1, 1) * r.uniform(0.3, 1.0, BATCH)
    S_next = r.uniform(-1, 1, (BATCH, 3)).astype('float32')
    S_next[:, 1] = onp.where(S_next[:, 1] < 0, -1, 1) * r.uniform(0.3, 1.0, BATCH)
    if discrete == 'mixed':
        A, A_next = ({'kind': r.randint(3, size=BATCH), 'force': r.uniform(-0.9, 0.9, (BATCH, 2)).astype('float32')} for _ in range(2))
    elif discrete:
        A, A_next = r.randint(3, size=BATCH), r.randint(3, size=BATCH)
    else:
        A, A_next = r.uniform(-0.9, 0.9, (BATCH, 2)).astype('float32'), r.uniform(-0.9, 0.9, (BATCH, 2)).astype('float32')
    Rn = r.uniform(-2, 2, BATCH).astype('float32')
    adv = r.uniform(-1, 1, BATCH).astype('float32')
    i = r.randint(BATCH)
    W = r.uniform(0.5, 2, BATCH).astype('float32')
    logP = -r.uniform(0.5, 1.5, BATCH).astype('float32')
    if poison == 'zero':      # NaN in one entry of the gradient of one parameter only
        S[i, 1] = 0.0
    elif poison == 'zero2':   # NaN in another entry of the same parameter
        S[i, 2] = 0.0
    elif poison == 'S':
        S[i, 0] = onp.nan
    elif poison == 'W':
        W[i] = onp.nan
    elif poison == 'reward':
        Rn[i] = onp.nan
        adv[i] = onp.nan
    tb = TransitionBatch(
        S=S, A=A, logP=logP, Rn=Rn, In=(0.9 * (r.rand(BATCH) < 0.8)).astype('float32'),
        S_next=S_next, A_next=A_next, logP_next=-r.uniform(0.5, 1.5, BATCH).astype('float32'), W=W,
        extra_info={'states': (S, (0.5 * S + 0.5 * S_next).astype('float32'), S_next), 'dones': tuple(r.rand(BATCH) < x for x in (0.1, 0.4, 0.5))})
    return tb, adv


def single_action(batch, i=0):
    return jax.tree_util.tree_map(lambda x: onp.asarray(x)[i], batch.A)


# -- the catalogue -------------------------------------------------------------------------------- #

BUILDERS = {}


def builder(fn):
    BUILDERS[fn.__name__] = fn
    return fn


@functools.lru_cache(None)
def make_optimizer(kind, lr):
    return {'adam': lambda: optax.adam(lr), 'sgd': lambda: optax.sgd(lr), 'momentum': lambda: optax.sgd(lr, momentum=0.9)}[kind]()


def opt(a, name, kind='adam'):
    a.opt_kind[name] = kind
    return make_optimizer(kind, a.hp['lr'])



@builder
def qlearning(a):
    a.funcs['q'] = q(ENV_D, 1)
    a.funcs['q_targ'] = a.funcs['q'].copy()
    a.updaters['ql'] = coax.td_learning.QLearning(a.funcs['q'], q_targ=a.funcs['q_targ'], optimizer=opt(a, 'ql'))
    a.moves['ql'] = 'q'
    a.policies['eps'] = coax.EpsilonGreedy(a.funcs['q'], epsilon=a.hp['epsilon'])


@builder
def sarsa(a):
    a.funcs['q'] = q(ENV_D, 2, type2=True)
    a.updaters['sarsa'] = coax.td_learning.Sarsa(a.funcs['q'], optimizer=opt(a, 'sarsa', 'momentum'))
    a.moves['sarsa'] = 'q'
    a.policies['boltz'] = coax.BoltzmannPolicy(a.funcs['q'], temperature=a.hp['temperature'])


@builder
def actor_critic(a):
    a.funcs['pi'] = coax.Policy(f_pi_d, ENV_D, random_seed=3)
    a.funcs['v'] = coax.V(f_v, ENV_D, random_seed=4)
    a.funcs['v_targ'] = a.funcs['v'].copy()
    a.regs['ent'] = coax.regularizers.EntropyRegularizer(a.funcs['pi'], beta=a.hp['beta'])
    a.updaters['ppo'] = coax.policy_objectives.PPOClip(a.funcs['pi'], optimizer=opt(a, 'ppo'), regularizer=a.regs['ent'], epsilon=a.hp['clip'])
    a.updaters['td'] = coax.td_learning.SimpleTD(a.funcs['v'], v_targ=a.funcs['v_targ'], optimizer=opt(a, 'td'), policy_regularizer=a.regs['ent'])
    a.moves.update(ppo='pi', td='v')
    a.policies['pi'] = a.funcs['pi']


@builder
def vanilla(a):
    a.funcs['pi'] = coax.Policy(f_pi_b, ENV_B, random_seed=5)
    a.discrete = False
    a.regs['kl'] = coax.regularizers.KLDivRegularizer(a.funcs['pi'], beta=a.hp['beta'], priors=a.hp['priors'])
    a.updaters['pg'] = coax.policy_objectives.VanillaPG(a.funcs['pi'], optimizer=opt(a, 'pg', 'sgd'), regularizer=a.regs['kl'])
    a.moves['pg'] = 'pi'
    a.policies['pi'] = a.funcs['pi']


@builder
def ddpg(a):
    a.discrete = False
    pi = a.funcs['pi'] = coax.Policy(f_pi_b, ENV_B, random_seed=6)
    q_ = a.funcs['q'] = coax.Q(f_q1, ENV_B, action_preprocessor=pi.proba_dist.preprocess_variate, random_seed=7)
    a.funcs['pi_targ'], a.funcs['q_targ'] = pi.copy(), q_.copy()
    a.updaters['dpg'] = coax.policy_objectives.DeterministicPG(pi, a.funcs['q_targ'], optimizer=opt(a, 'dpg'))
    a.updaters['ql'] = coax.td_learning.QLearning(q_, a.funcs['pi_targ'], a.funcs['q_targ'], optimizer=opt(a, 'ql', 'momentum'))
    a.moves.update(dpg='pi', ql='q')
    a.policies['pi'] = pi


@builder
def sac(a):
    a.discrete = False
    pi = a.funcs['pi'] = coax.Policy(f_pi_b, ENV_B, random_seed=8)
    mk = functools.partial(coax.Q, f_q1, ENV_B, action_preprocessor=pi.proba_dist.preprocess_variate)
    a.funcs['q1'], a.funcs['q2'] = mk(random_seed=9), mk(random_seed=10)
    a.funcs['q1_targ'], a.funcs['q2_targ'] = a.funcs['q1'].copy(), a.funcs['q2'].copy()
    targets = [a.funcs['q1_targ'], a.funcs['q2_targ']]
    a.regs['ent'] = coax.regularizers.EntropyRegularizer(pi, beta=a.hp['beta'])
    a.updaters['ql1'] = coax.td_learning.SoftClippedDoubleQLearning(
        a.funcs['q1'], pi_targ_list=[pi], q_targ_list=targets, optimizer=opt(a, 'ql1'), policy_regularizer=a.regs['ent'])
    a.updaters['soft_pg'] = coax.policy_objectives.SoftPG(pi, [a.funcs['q1_targ'], a.funcs['q2_targ']], optimizer=opt(a, 'soft_pg'), regularizer=a.regs['ent'])
    a.moves.update(ql1='q1', soft_pg='pi')
    a.policies['pi'] = pi


@builder
def clipped(a):
    a.funcs['q1'], a.funcs['q2'] = q(ENV_D, 11), q(ENV_D, 12)
    a.funcs['q1_targ'], a.funcs['q2_targ'] = a.funcs['q1'].copy(), a.funcs['q2'].copy()
    a.updaters['cql'] = coax.td_learning.ClippedDoubleQLearning(
        a.funcs['q1'], q_targ_list=[a.funcs['q1_targ'], a.funcs['q2_targ']], optimizer=opt(a, 'cql'))
    a.updaters['ddql'] = coax.td_learning.DoubleQLearning(a.funcs['q2'], q_targ=a.funcs['q2_targ'], optimizer=opt(a, 'ddql', 'sgd'))
    a.moves.update(cql='q1', ddql='q2')
    a.policies['eps'] = coax.EpsilonGreedy(a.funcs['q1'], epsilon=a.hp['epsilon'])


@builder
def expected(a):
    a.funcs['q'] = q(ENV_D, 13)
    a.funcs['pi'] = coax.Policy(f_pi_d, ENV_D, random_seed=14)
    a.funcs['q_targ'] = a.funcs['q'].copy()
    a.updaters['es'] = coax.td_learning.ExpectedSarsa(a.funcs['q'], a.funcs['pi'], q_targ=a.funcs['q_targ'], optimizer=opt(a, 'es'))
    a.updaters['sq'] = coax.td_learning.SoftQLearning(a.funcs['q'], q_targ=a.funcs['q_targ'], optimizer=opt(a, 'sq'), temperature=0.5)
    a.moves.update(es='q', sq='q')
    a.policies['pi'] = a.funcs['pi']


@builder
def shared_policies(a):
    """ two value-based policies on one q-function, which both act and define targets """
    a.funcs['q'] = q(ENV_D, 20)
    a.funcs['q_targ'] = a.funcs['q'].copy()
    a.policies['eps'] = coax.EpsilonGreedy(a.funcs['q_targ'], epsilon=a.hp['epsilon'])
    a.policies['boltz'] = coax.BoltzmannPolicy(a.funcs['q'], temperature=a.hp['temperature'])
    a.updaters['es_eps'] = coax.td_learning.ExpectedSarsa(a.funcs['q'], a.policies['eps'], q_targ=a.funcs['q_targ'], optimizer=opt(a, 'es_eps'))
    a.updaters['es_boltz'] = coax.td_learning.ExpectedSarsa(a.funcs['q'], a.policies['boltz'], q_targ=a.funcs['q_targ'], optimizer=opt(a, 'es_boltz', 'sgd'))
    a.moves.update(es_eps='q', es_boltz='q')


@builder
def distributional(a):
    a.funcs['q'] = coax.StochasticQ(f_stoch_q1, ENV_D, value_range=(-3, 3), num_bins=5, random_seed=15)
    a.funcs['q_targ'] = a.funcs['q'].copy()
    a.funcs['v'] = coax.StochasticV(f_stoch_v, ENV_D, value_range=(-3, 3), num_bins=5, random_seed=16)
    a.updaters['ql'] = coax.td_learning.QLearning(a.funcs['q'], q_targ=a.funcs['q_targ'], optimizer=opt(a, 'ql'))
    a.updaters['td'] = coax.td_learning.SimpleTD(a.funcs['v'], optimizer=opt(a, 'td'))
    a.moves.update(ql='q', td='v')
    a.policies['eps'] = coax.EpsilonGreedy(a.funcs['q'], epsilon=a.hp['epsilon'])


@builder
def world_model(a):
    a.discrete = True
    a.funcs['p'] = coax.TransitionModel(f_p1, ENV_D, random_seed=17)
    a.funcs['r'] = coax.RewardFunction(f_q1, ENV_D, random_seed=18)
    a.funcs['sp'] = coax.StochasticTransitionModel(f_stoch_p1, ENV_D, random_seed=19)
    a.updaters['mp'] = coax.model_updaters.ModelUpdater(a.funcs['p'], optimizer=opt(a, 'mp'))
    a.updaters['mr'] = coax.model_updaters.ModelUpdater(a.funcs['r'], optimizer=opt(a, 'mr', 'momentum'))
    a.updaters['msp'] = coax.model_updaters.ModelUpdater(a.funcs['sp'], optimizer=opt(a, 'msp'))
    a.moves.update(mp='p', mr='r', msp='sp')


@builder
def quantile(a):
    """ distributional q-functions that are made of quantiles, with clipping """
    mk = functools.partial(coax.StochasticQ, f_quantile_q1, ENV_D, value_range=None, num_bins=5)
    a.funcs['q1'], a.funcs['q2'] = mk(random_seed=21), mk(random_seed=22)
    a.funcs['q1_targ'], a.funcs['q2_targ'] = a.funcs['q1'].copy(), a.funcs['q2'].copy()
    a.policies['boltz'] = coax.BoltzmannPolicy(a.funcs['q1'], temperature=a.hp['temperature'])
    a.updaters['ql'] = coax.td_learning.QLearning(
        a.funcs['q2'], q_targ=a.funcs['q2_targ'], optimizer=opt(a, 'ql'))
    a.updaters['cql'] = coax.td_learning.ClippedDoubleQLearning(
        a.funcs['q1'], q_targ_list=[a.funcs['q1_targ'], a.funcs['q2_targ']], optimizer=opt(a, 'cql', 'sgd'))
    a.moves.update(ql='q2', cql='q1')


@builder
def successor(a):
    """ a q-function that is made of a value function, a transition model and a reward function """
    a.funcs['v'] = coax.V(f_v, ENV_D, random_seed=23)
    a.funcs['v_targ'] = a.funcs['v'].copy()
    a.funcs['p'] = coax.TransitionModel(f_p1, ENV_D, random_seed=24)
    a.funcs['r'] = coax.StochasticRewardFunction(f_stoch_q1, ENV_D, value_range=(-3, 3), num_bins=5, random_seed=25)
    q_ = coax.SuccessorStateQ(a.funcs['v'], a.funcs['p'], a.funcs['r'], gamma=0.8)
    a.policies['eps'] = coax.EpsilonGreedy(q_, epsilon=a.hp['epsilon'])
    a.updaters['td'] = coax.td_learning.SimpleTD(a.funcs['v'], v_targ=a.funcs['v_targ'], optimizer=opt(a, 'td'), loss_function=coax.value_losses.mse)
    a.updaters['mp'] = coax.model_updaters.ModelUpdater(a.funcs['p'], optimizer=opt(a, 'mp', 'sgd'))
    a.funcs['r2'] = coax.RewardFunction(f_q1, ENV_D, random_seed=32)
    a.updaters['mr'] = coax.model_updaters.ModelUpdater(a.funcs['r2'], optimizer=opt(a, 'mr'))
    a.moves.update(td='v', mp='p', mr='r2')


@builder
def transformed(a):
    """ values on a logarithmic scale """
    f = coax.value_transforms.LogTransform(scale=2.0)
    a.funcs['q'] = coax.Q(f_q2, ENV_D, value_transform=f, random_seed=26)
    a.funcs['q_targ'] = a.funcs['q'].copy()
    a.funcs['v'] = coax.V(f_v, ENV_D, value_transform=f, random_seed=27)
    a.updaters['ql'] = coax.td_learning.QLearning(a.funcs['q'], q_targ=a.funcs['q_targ'], optimizer=opt(a, 'ql', 'momentum'), loss_function=coax.value_losses.mse)
    a.updaters['td'] = coax.td_learning.SimpleTD(a.funcs['v'], optimizer=opt(a, 'td'))
    a.moves.update(ql='q', td='v')
    a.policies['eps'] = coax.EpsilonGreedy(a.funcs['q'], epsilon=a.hp['epsilon'])


@builder
def nstep_sac(a):
    """ entropy over several steps, which are recorded in the extra info of the transitions """
    a.discrete = False
    a.needs_extra = True
    pi = a.funcs['pi'] = coax.Policy(f_pi_b, ENV_B, random_seed=28)
    a.funcs['q'] = coax.Q(f_q1, ENV_B, action_preprocessor=pi.proba_dist.preprocess_variate, random_seed=29)
    a.funcs['q_targ'], a.funcs['q2_targ'] = a.funcs['q'].copy(), a.funcs['q'].copy()
    a.funcs['q2'] = a.funcs['q'].copy()
    a.regs['ent'] = coax.regularizers.NStepEntropyRegularizer(pi, n=[0, 2], beta=a.hp['beta'], gamma=0.9)
    a.updaters['ql'] = coax.td_learning.SoftClippedDoubleQLearning(
        a.funcs['q'], pi_targ_list=[pi], q_targ_list=[a.funcs['q_targ'], a.funcs['q2_targ']], optimizer=opt(a, 'ql', 'sgd'), policy_regularizer=a.regs['ent'])
    a.updaters['soft_pg'] = coax.policy_objectives.SoftPG(
        pi, [a.funcs['q_targ'], a.funcs['q2_targ']], optimizer=opt(a, 'soft_pg'), regularizer=coax.regularizers.EntropyRegularizer(pi, beta=0.05))
    a.moves.update(ql='q', soft_pg='pi')
    a.policies['pi'] = pi


@builder
def mixed(a):
    """ actions with several parts """
    a.discrete = 'mixed'
    a.funcs['pi'] = coax.Policy(f_pi_m, ENV_M, random_seed=30)
    a.funcs['v'] = coax.V(f_v, ENV_M, random_seed=31)
    a.regs['ent'] = coax.regularizers.EntropyRegularizer(a.funcs['pi'], beta=a.hp['beta'])
    a.updaters['ppo'] = coax.policy_objectives.PPOClip(a.funcs['pi'], optimizer=opt(a, 'ppo'), regularizer=a.regs['ent'], epsilon=a.hp['clip'])
    a.updaters['td'] = coax.td_learning.SimpleTD(a.funcs['v'], optimizer=opt(a, 'td', 'sgd'))
    a.moves.update(ppo='pi', td='v')
    a.policies['pi'] = a.funcs['pi']


_pool = {}


def agent(kind, instance=0):
    """ the agent of this process, in its initial state """
    key = kind, instance
    if key not in _pool:
        _pool[key] = Agent(kind)
    a = _pool[key]
    a.restore()
    return a
