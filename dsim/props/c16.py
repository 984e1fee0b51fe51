"""
C16: model updates are all-or-nothing.

A training history (updates, gradient applications, target-network syncs) is executed with faults injected at seeded points, then a second time without the faults:
after every refused request the whole agent has to be bitwise what it was before, and both histories have to end in the same state.
"""
import functools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from . import _agents as ag

FAULTS = ('nan_leaf', 'nan_entry', 'nan_S', 'nan_W', 'nan_reward', 'no_batch', 'bad_batch', 'bad_adv', 'grads_missing', 'grads_extra', 'grads_shape', 'grads_none', 'state_missing', 'state_extra',
          'state_none', 'params_missing', 'params_none', 'params_foreign', 'fstate_missing', 'fstate_foreign', 'optimizer', 'optimizer_type', 'optimizer_state', 'broken_optimizer',
          'soft_type', 'policy_params')


@functools.lru_cache(None)
def broken(kind, lr):
    """ an optimizer with the right state that fails in the middle of an update """
    good = ag.make_optimizer(kind, lr)

    def update(grads, state, params=None):
        good.update(grads, state, params)
        raise ValueError("injected optimizer failure")
    return optax.GradientTransformation(good.init, update)


def mutilate(d, tree, how):
    """ a copy of a two-level haiku structure with the wrong structure """
    out = hk.data_structures.to_mutable_dict(jax.tree_util.tree_map(lambda x: x, tree))
    mod = sorted(out)[d.choose(len(out))]
    names = sorted(out[mod])
    if how == 'missing':
        del out[mod][names[d.choose(len(names))]]
    elif how == 'extra':
        out[mod]['zzz'] = jnp.zeros(2)
    elif how == 'shape':
        names = [n for n in names if onp.size(out[mod][n]) > 1]     # (single values would broadcast)
        n = names[d.choose(len(names))]
        out[mod][n] = jnp.ones((7, 11, 13))
    elif how == 'foreign':
        out = {'other': out[mod]}
    return out


AFFINITY = len(ag.BUILDERS)     # the first choice of a run


def run(d):
    kind = d.pick(tuple(ag.BUILDERS))
    a = ag.agent(kind)
    plan = []
    ups = sorted(a.updaters)
    for _ in d.steps(3, 14):
        op = d.weighted([('update', 6), ('fault', 8), ('apply', 3), ('soft', 2), ('sync', 1), ('opt', 1)])
        u = d.pick(ups)
        plan.append((op, u, d.int(0, 400), d.pick(FAULTS) if op == 'fault' else None, [d.choose(8) for _ in range(3)]))
    d.event('agent', kind, len(plan))

    def good(op, u, seed, extra):
        up = a.updaters[u]
        a.seed(seed)
        batch, adv = ag.make_batch(seed, a.discrete)
        if op == 'update':
            up.update(*a.args(u, batch, adv))
        elif op == 'apply':
            g, fs, *_ = up.grads_and_metrics(*a.args(u, batch, adv))
            up.apply_grads(g, fs)
        elif op == 'opt':
            up.optimizer = ag.make_optimizer(a.opt_kind[u], (0.05, 0.02)[extra[0] % 2])
        else:
            targets = sorted(k for k in a.funcs if k.endswith('_targ'))
            if not targets:
                return
            t = targets[extra[0] % len(targets)]
            src = a.funcs[t[:-5]]
            if op == 'soft':
                a.funcs[t].soft_update(src, tau=(0.5, 0.1, 1.0)[extra[1] % 3])
            else:
                a.funcs[t].params = src.params
                a.funcs[t].function_state = src.function_state

    def history(with_faults):
        a.restore()
        for u in ups:
            a.updaters[u].optimizer = ag.make_optimizer(a.opt_kind[u], 0.05)
        for op, u, seed, fault, extra in plan:
            if with_faults:
                d.sched(op, u, fault)
                d.event(op, u, seed, fault or '')
            if op == 'fault':
                if with_faults:
                    inject(d, a, u, seed, fault)
                continue
            before = a.snapshot() if with_faults and op == 'update' else None
            with d.calling('exception', f"{kind}/{u}: {op} after a refused request" if with_faults else f"{kind}/{u}: {op}"):
                good(op, u, seed, extra)
            if before is not None:
                d.check(ag.diff({k: v for k, v in before.items() if k == (a.moves[u], 'params')}, a.snapshot()) is not None, 'no-effect',
                        lambda: f"{kind}/{u}: update had no effect")
        return a.snapshot()

    try:
        with_faults = history(True)
        without = history(False)
    finally:
        for u in ups:
            a.updaters[u].optimizer = ag.make_optimizer(a.opt_kind[u], 0.05)
    where = ag.diff(without, with_faults)
    d.check(where is None, 'continuation', lambda: f"{kind}: training with refused requests ends in a different state than without them: {where}")
    d.state(kind, len(plan), sorted(d.faults))
    d.is_nontrivial = bool(d.faults) and any(p[0] != 'fault' for p in plan)


def inject(d, a, u, seed, fault):
    kind = a.kind
    up = a.updaters[u]
    f = a.funcs[a.moves[u]]
    a.seed(seed)
    batch, adv = ag.make_batch(seed, a.discrete)
    is_pg = isinstance(up, coax.policy_objectives._base.PolicyObjective)
    ignores_adv = kind in ('ddpg', 'sac', 'nstep_sac')
    must = True      # must be refused (otherwise: may be accepted, and then nothing is claimed)
    epsilon = {k: (getattr(p, 'epsilon', None), getattr(p, 'temperature', None)) for k, p in a.policies.items()}

    if fault.startswith('nan_'):
        poison = {'nan_leaf': 'zero', 'nan_entry': 'zero2', 'nan_S': 'S', 'nan_W': 'W', 'nan_reward': 'reward'}[fault]
        batch, adv = ag.make_batch(seed, a.discrete, poison)
        if fault not in ('nan_leaf', 'nan_entry'):
            g, *_ = up.grads_and_metrics(*a.args(u, batch, adv))
            if not any(onp.isnan(x).any() for x in jax.tree_util.tree_leaves(g)):
                return      # this loss does not depend on the poisoned input
            a.seed(seed)
        def request(): up.update(*a.args(u, batch, adv))
    elif fault == 'no_batch':
        def request(): up.update(*((None, adv) if is_pg else (None,)))
    elif fault == 'bad_batch':
        batch.S = batch.S[:, :2]
        def request(): up.update(*a.args(u, batch, adv))
    elif fault == 'bad_adv':
        if not is_pg or ignores_adv:
            return
        def request(): up.update(batch, adv[:-1])
    elif fault.startswith(('grads_', 'state_')):
        g, fs, *_ = up.grads_and_metrics(*a.args(u, batch, adv))
        what, how = fault.split('_')
        if what == 'grads':
            g = None if how == 'none' else mutilate(d, g, how)
        else:
            fs = None if how == 'none' else mutilate(d, fs, how)
        def request(): up.apply_grads(g, fs)
    elif fault.startswith('params_'):
        how = fault.split('_')[1]
        new = None if how == 'none' else mutilate(d, f.params, how)
        def request(): f.params = new
    elif fault.startswith('fstate_'):
        new = mutilate(d, f.function_state, fault.split('_')[1])
        def request(): f.function_state = new
    elif fault == 'optimizer':
        new = ag.make_optimizer({'adam': 'sgd', 'sgd': 'adam', 'momentum': 'adam'}[a.opt_kind[u]], 0.05)
        def request(): up.optimizer = new
    elif fault == 'optimizer_type':
        def request(): up.optimizer = 'adam'
    elif fault == 'optimizer_state':
        if is_pg:
            return     # accepted without validation
        def request(): up.optimizer_state = (1, 2, 3)
    elif fault == 'broken_optimizer':
        old = up.optimizer
        up.optimizer = broken(a.opt_kind[u], 0.05)

        def request():
            try:
                up.update(*a.args(u, batch, adv))
            finally:
                up.optimizer = old
    elif fault == 'soft_type':
        other = next((g for g in a.funcs.values() if type(g) is not type(f)), 'not a function')
        def request(): f.soft_update(other, 0.5)
    elif fault == 'policy_params':
        pols = [p for p in a.policies.values() if hasattr(p, 'q')]
        if not pols:
            return
        def request(): pols[0].params = {'q': pols[0].q.params}
    else:
        raise AssertionError(fault)

    before = a.snapshot()
    optimizer = up.optimizer if fault in ('optimizer', 'optimizer_type') else None
    d.fault(fault, kind, u)
    try:
        request()
    except Exception as e:
        d.event('refused', fault, type(e).__name__)
    else:
        if must:
            d.violate('accepted', f"{kind}/{u}: {fault} was accepted")
    after = a.snapshot()
    where = ag.diff(before, after)
    d.check(where is None, 'half-done', lambda: f"{kind}/{u}: {fault} was refused but changed {where}")
    if optimizer is not None:
        d.check(up.optimizer is optimizer, 'half-done', lambda: f"{kind}/{u}: refused optimizer was installed")
    now = {k: (getattr(p, 'epsilon', None), getattr(p, 'temperature', None)) for k, p in a.policies.items()}
    d.check(now == epsilon, 'half-done', lambda: f"{kind}: {fault} was refused but changed {now}")
