""" C23: long-lived compiled agents whose settings keep changing, against agents freshly built (and not compiled) with the current settings. """
import collections

import gymnasium
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from . import _agents as ag
from ._agents import Agent, agent, make_batch, make_optimizer, frozen, thawed, close

VALUES = dict(epsilon=(0.3, 0.0, 0.1, 1.0, 0.75), temperature=(0.5, 0.02, 1.0, 7.0), beta=(0.1, 0.0, 0.003, 2.0, -0.5), clip=(0.2, 0.01, 0.5, 1.5))
LR = (0.05, 0.001, 0.2, 0.0)
PRIORS = (None, (0.5, 0.0), (-1.0, 1.0), (0.0, -0.7))
_fresh = collections.OrderedDict()


def fresh(kind, hp):
    """ an agent that was built with these settings and never had others """
    key = kind, tuple(sorted((k, v) for k, v in hp.items()))
    if key not in _fresh:
        kw = dict(hp)
        kw['priors'] = priors(hp['priors'])
        with jax.disable_jit():
            _fresh[key] = Agent(kind, **kw)
        while len(_fresh) > 60:
            _fresh.popitem(last=False)
    _fresh.move_to_end(key)
    return _fresh[key]


def priors(p):
    return None if p is None else {'mu': jnp.full((1, 2), p[0]), 'logvar': jnp.full((1, 2), p[1])}


def applicable(a):
    out = []
    for k, pi in a.policies.items():
        if isinstance(pi, coax.EpsilonGreedy):
            out.append(('epsilon', pi, 'epsilon'))
        elif isinstance(pi, coax.BoltzmannPolicy):
            out.append(('temperature', pi, 'temperature'))
    for k, r in a.regs.items():
        out.append(('beta', r, 'beta'))
        if k == 'kl':
            out.append(('priors', r, 'priors'))
    for k, u in a.updaters.items():
        if k == 'ppo':
            out.append(('clip', u, 'epsilon'))
    return out


def cast(d, v):
    how = d.pick(('float', 'np', 'jnp', 'float'))
    return {'float': float, 'np': onp.float32, 'jnp': jnp.float32}[how](v)


AFFINITY = len(ag.BUILDERS)     # the first choice of a run


def run(d):
    kind = d.pick(sorted(ag.BUILDERS))
    a = agent(kind)
    hp = dict(ag.DEFAULTS)
    for name, obj, attr in applicable(a):     # back to the initial settings
        setattr(obj, attr, obj.f.proba_dist.default_priors if name == 'priors' else hp[name])
    for u, up in a.updaters.items():
        up.optimizer = make_optimizer(a.opt_kind[u], hp['lr'])
    lr = {u: hp['lr'] for u in a.updaters}
    d.event('agent', kind)
    changes = uses = 0
    for step in d.steps(4, 14):
        settings = applicable(a)
        what = d.weighted([('set', 5 if settings else 0), ('optimizer', 3), ('params', 3), ('act', 5 if a.policies else 0), ('update', 6), ('evaluate', 2), ('typical', 3), ('soft', 1), ('warm', 3)])
        d.sched(kind, what)
        if what == 'set':
            name, obj, attr = d.pick(settings)
            if name == 'priors':
                v = d.pick(PRIORS)
                with d.calling('exception', 'set priors'):
                    setattr(obj, attr, obj.f.proba_dist.default_priors if v is None else priors(v))
            elif name in ('epsilon', 'temperature') and kind != 'successor' and d.chance(0.2):
                # through the parameters of the policy
                v = d.pick(VALUES[name])
                with d.calling('exception', f"set {name} through params"):
                    p = obj.params
                    obj.params = hk.data_structures.to_immutable_dict({name: float(v), 'q': p['q']})
            else:
                v = d.pick(VALUES[name])
                with d.calling('exception', f"set {name}"):
                    setattr(obj, attr, cast(d, v))
            hp[name] = v
            changes += 1
            d.event('set', name, v)
        elif what == 'optimizer':
            u = d.pick(sorted(a.updaters))
            v = d.pick(LR)
            with d.calling('exception', f"set optimizer of {u}"):
                a.updaters[u].optimizer = make_optimizer(a.opt_kind[u], v)
            lr[u] = v
            changes += 1
            d.event('optimizer', u, v)
        elif what == 'params':
            f = d.pick(sorted(a.funcs))
            r = onp.random.RandomState(d.choose(1000))
            new = jax.tree_util.tree_map(lambda x: jnp.asarray(onp.asarray(x) * 0.7 + 0.3 * onp.asarray(r.randn(*x.shape), 'float32')), frozen(a.funcs[f].params))
            which = d.pick(('params', 'params', 'state'))
            with d.calling('exception', f"assign {which} of {f}"):
                if which == 'params':
                    a.funcs[f].params = new
                else:
                    a.funcs[f].function_state = jax.tree_util.tree_map(lambda x: jnp.asarray(onp.asarray(x) + 5. * onp.asarray(r.rand(*x.shape), 'float32')), frozen(a.funcs[f].function_state))
            changes += 1
            d.event('assign', which, f)
        elif what == 'soft':
            pairs = [(k, k[:-5]) for k in a.funcs if k.endswith('_targ')]
            if pairs:
                t, s = d.pick(sorted(pairs))
                tau = d.pick((1.0, 0.1, 0.5))
                a.funcs[t].soft_update(a.funcs[s], tau=tau)
                changes += 1
                d.event('soft', t, tau)
        elif what == 'warm':
            # use it without looking: fills whatever caches there are
            a.seed(d.choose(50))
            if a.policies:
                pi = a.policies[d.pick(sorted(a.policies))]
                pi(state(d))
            u = d.pick(sorted(a.updaters))
            a.updaters[u].grads_and_metrics(*a.args(u, *make_batch(d.choose(100), a.discrete)))
        else:
            uses += 1
            f = fresh(kind, hp)
            f.restore(a.snapshot())
            seed = d.choose(1000)
            a.seed(seed)
            f.seed(seed)
            now = {k: v for k, v in hp.items() if k != 'lr'}
            if what == 'act':
                k = d.pick(sorted(a.policies))
                s = state(d)
                with d.calling('exception', f"policy {k}"):
                    mine = frozen(a.policies[k].dist_params(s))
                    act, logp = a.policies[k](s, return_logp=True)
                with jax.disable_jit():
                    ref = frozen(f.policies[k].dist_params(s))
                    act2, logp2 = f.policies[k](s, return_logp=True)
                with d.guard('policy', k):
                    d.event('act', k, onp.asarray(act), logp)
                    d.check(policy_close(mine, ref), 'policy', lambda: f"{kind}: policy {k} with {now} has {mine}, a freshly built one has {ref}")
                    if a.discrete is True:
                        z = onp.asarray(ref['logits'], 'float64').ravel()
                        lp = z - onp.logaddexp.reduce(z)
                        # (the propensity is that of the almost-one-hot variate, so it is compared with that of the same variate)
                        if int(act) == int(act2):
                            d.check(onp.isclose(float(logp), float(logp2), rtol=1e-2, atol=1e-2), 'policy',
                                    lambda: f"{kind}: policy {k} with {now} chose {act} with log-propensity {logp}, a freshly built one with {logp2}")
                        d.check(lp[int(act)] > -25, 'policy', lambda: f"{kind}: policy {k} with {now} chose the impossible action {act}: {lp}")
            elif what == 'typical':
                # the mean and the mode, of policies and of stochastic functions
                things = {('policy', k): g for k, g in a.policies.items()}
                things.update({('func', k): g for k, g in a.funcs.items() if isinstance(g, (coax.Policy, coax.StochasticV, coax.StochasticQ, coax.StochasticTransitionModel))})
                which, k = d.pick(sorted(things))
                g, h = things[which, k], (f.policies if which == 'policy' else f.funcs)[k]
                s = state(d)
                args = (s, d.choose(3) if a.discrete else onp.array([0.2, -0.4], 'float32')) if isinstance(g, (coax.StochasticQ, coax.StochasticTransitionModel)) else (s,)
                how = d.pick(('mean', 'mode') if not isinstance(g.proba_dist, (coax.proba_dists.EmpiricalQuantileDist, coax.proba_dists.DiscretizedIntervalDist)) else ('mean',))
                with d.calling('exception', f"{how} of {k}"):
                    mine = getattr(g, how)(*args)
                with jax.disable_jit():
                    ref = getattr(h, how)(*args)
                    dp = frozen(h.dist_params(*args))
                d.event(how, which, k)
                if isinstance(g.proba_dist.space, gymnasium.spaces.Discrete) and not isinstance(g.proba_dist, coax.proba_dists.DiscretizedIntervalDist):
                    z = onp.asarray(dp['logits'], 'float64').ravel()
                    z = onp.exp(z - onp.logaddexp.reduce(z))
                    d.check(z[int(mine)] >= z.max() - 1e-2, 'typical', lambda: f"{kind}: {how} of {k} with {now} is {mine}, but the current probabilities are {z}")
                else:
                    x, y = [[onp.asarray(v, 'float64') for v in jax.tree_util.tree_leaves(t) if onp.asarray(v).dtype.kind == 'f'] for t in (mine, ref)]
                    d.check(len(x) == len(y) and all(onp.allclose(u, v, rtol=1e-3, atol=1e-3) for u, v in zip(x, y)), 'typical',
                            lambda: f"{kind}: {how} of {k} with {now} is {mine}, for a freshly built one {ref}")
            elif what == 'evaluate':
                k = d.pick(sorted(a.funcs))
                s = state(d)
                x = d.choose(3) if a.discrete else onp.array([0.2, -0.4], 'float32')

                def ev(g):
                    if isinstance(g, (coax.Policy,)):
                        return frozen(g.dist_params(s))
                    if isinstance(g, coax.StochasticV):
                        return frozen(g.dist_params(s))
                    if isinstance(g, (coax.StochasticQ, coax.StochasticTransitionModel)):
                        return frozen(g.dist_params(s, x))
                    if isinstance(g, coax.V):
                        return onp.asarray(g(s))
                    return onp.asarray(g(s, x))
                with d.calling('exception', f"evaluate {k}"):
                    mine = ev(a.funcs[k])
                with jax.disable_jit():
                    ref = ev(f.funcs[k])
                d.check(close(mine, ref, 1e-3, 1e-4), 'evaluate', lambda: f"{kind}: {k} gives {mine}, a freshly built one {ref}")
                d.event('evaluate', k)
            else:
                u = d.pick(sorted(a.updaters))
                batch = make_batch(d.choose(1000), a.discrete)
                with d.calling('exception', f"gradients of {u}"):
                    g, st, metrics, *_ = a.updaters[u].grads_and_metrics(*a.args(u, *batch))
                with jax.disable_jit():
                    g2, st2, metrics2, *_ = f.updaters[u].grads_and_metrics(*f.args(u, *batch))
                scale = max([float(onp.abs(x).max()) for x in jax.tree_util.tree_leaves(frozen(g2))] + [1e-3])
                d.event('update', u, kind)
                d.check(close(g, g2, 2e-3, 1e-3 * scale), 'gradients', lambda: f"{kind}: gradients of {u} with {now} differ from those of a freshly built agent:\n{g}\n{g2}")
                d.check(close(st, st2, 1e-3, 1e-4), 'gradients', lambda: f"{kind}: function state after {u} differs from that of a freshly built agent")
                for m in metrics2:
                    if m.rsplit('/', 1)[-1] in ('beta', 'loss', 'loss_bare', 'entropy', 'kl_div'):
                        x, y = float(metrics.get(m, float('nan'))), float(metrics2[m])
                        d.check(onp.isclose(x, y, rtol=5e-3, atol=2e-3 * max(1.0, scale)), 'metrics', lambda: f"{kind}: metric {m} of {u} is {x} with {now}, {y} for a freshly built agent")
                if not all(onp.isfinite(x).all() for x in jax.tree_util.tree_leaves(frozen(g))):
                    return
                before = a.snapshot()
                a.seed(seed)
                with d.calling('exception', f"update of {u}"):
                    a.updaters[u].update(*a.args(u, *batch))
                # the step of a newly made optimizer with this learning rate
                opt = {'adam': lambda: optax.adam(lr[u]), 'sgd': lambda: optax.sgd(lr[u]),
                       'momentum': lambda: optax.sgd(lr[u], momentum=0.9)}[a.opt_kind[u]]()
                fn = a.moves[u]
                upd, ost = opt.update(thawed(frozen(g)), thawed(before[u, 'optimizer_state']), thawed(before[fn, 'params']))
                want = jax.tree_util.tree_map(lambda p, x: p + x, thawed(before[fn, 'params']), upd)
                got = frozen(a.funcs[fn].params)
                d.check(close(got, frozen(want), 1e-4, 1e-5), 'optimizer', lambda: f"{kind}: {u} with learning rate {lr[u]} moved the parameters differently from a new optimizer with that learning rate")
                d.check(close(frozen(a.updaters[u].optimizer_state), frozen(ost), 1e-4, 1e-5), 'optimizer', lambda: f"{kind}: optimizer state of {u} differs from that of a new optimizer")
                if not all(onp.isfinite(x).all() and onp.abs(x).max() < 1e3 for x in jax.tree_util.tree_leaves(got)):
                    return
        d.state(kind, sorted((k, str(v)) for k, v in hp.items()), what)
    d.is_nontrivial = changes > 0 and uses > 0


def state(d):
    return onp.array([d.pick((0.1, -0.5, 1.0)), d.pick((0.5, -0.7)), d.pick((0.0, 0.9))], 'float32')


def policy_close(x, y):
    if 'logits' in x:
        def p(z):
            z = onp.asarray(z['logits'], 'float64')
            z = z - z.max(axis=-1, keepdims=True)
            e = onp.exp(z)
            return e / e.sum(axis=-1, keepdims=True)
        return onp.allclose(p(x), p(y), atol=5e-3)
    return close(x, y, 1e-3, 1e-4)
