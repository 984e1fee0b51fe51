"""
C24: shared parameters are synchronised to one weighted mean.

Several owners (real function approximators whose forward passes have modules in common, trained by real updaters) learn at their own pace.  A coordinator averages the modules
that several of them own, with weights, from live parameters or from copies that were read earlier and travelled through a serialising channel; installs may be delayed, reordered,
lost in a crash of the coordinator, or refused.  A reference model holds the parameters of every owner in double precision.
"""
import functools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from . import _agents as ag


def trunk(x, *names):
    for n in names:
        x = jnp.tanh(hk.Linear(4, name=n, w_init=hk.initializers.RandomNormal(0.5), b_init=hk.initializers.RandomNormal(0.3))(x))
    return x


def pad(S):
    return jnp.concatenate([S, jnp.ones_like(S[:, :1])], axis=-1)


def f_pi(S, is_training):
    return {'logits': hk.Linear(3, name='actor')(trunk(pad(S), 'body', 'neck'))}


def f_v(S, is_training):
    return hk.Linear(1, name='critic')(trunk(pad(S), 'body', 'neck'))[:, 0]


def f_q(S, is_training):
    return hk.Linear(3, name='values')(trunk(pad(S), 'body', 'tail'))


def f_v2(S, is_training):
    return hk.Linear(1, name='critic2')(trunk(pad(S), 'tail', 'mid', 'neck'))[:, 0]


@functools.lru_cache(None)
def build():
    pi, v, q, v2 = coax.Policy(f_pi, ag.ENV_D, random_seed=1), coax.V(f_v, ag.ENV_D, random_seed=2), coax.Q(f_q, ag.ENV_D, random_seed=3), coax.V(f_v2, ag.ENV_D, random_seed=4)
    funcs = dict(pi=pi, v=v, q=q, v2=v2)
    ups = dict(
        pi=coax.policy_objectives.VanillaPG(pi, optimizer=optax.sgd(0.1)), v=coax.td_learning.SimpleTD(v, optimizer=optax.sgd(0.1)),
        q=coax.td_learning.QLearning(q, optimizer=optax.sgd(0.1)), v2=coax.td_learning.SimpleTD(v2, optimizer=optax.sgd(0.1)))
    return funcs, ups, {k: ag.frozen(f.params) for k, f in funcs.items()}, {k: ag.frozen(u.optimizer_state) for k, u in ups.items()}


def double(tree):
    return jax.tree_util.tree_map(lambda x: onp.asarray(x, 'float64'), tree)


def reference(trees, weights):
    """ what synchronising has to give; trees: one dict (module -> parameters) per participant """
    out = [dict(t) for t in trees]
    for module in {m for t in trees for m in t}:
        owners = [i for i, t in enumerate(trees) if module in t]
        if len(owners) < 2:
            continue
        total = float(sum(weights[i] for i in owners))
        for j in owners:
            out[j][module] = {p: sum(onp.asarray(trees[i][module][p], 'float64') * (weights[i] / total) for i in owners) for p in trees[j][module]}
    return out


def agree(a, b, tol=2e-6):
    """ a: result, b: reference """
    if sorted(a) != sorted(b):
        return f"modules {sorted(a)} instead of {sorted(b)}"
    for m in b:
        if sorted(a[m]) != sorted(b[m]):
            return f"parameters {sorted(a[m])} instead of {sorted(b[m])} in module {m}"
        for p in b[m]:
            x, y = onp.asarray(a[m][p]), onp.asarray(b[m][p])
            if x.shape != y.shape:
                return f"shape {x.shape} instead of {y.shape} of {m}/{p}"
            scale = 1.0 + float(onp.max(onp.abs(y)))
            if not onp.all(onp.abs(x - y) <= tol * scale):
                return f"{m}/{p} is {x.ravel()[:4]} instead of {y.ravel()[:4]}"
    return None


def run(d):
    funcs, ups, initial, opt_initial = build()
    names = sorted(funcs)[:]
    for k in names:
        funcs[k].params = ag.thawed(initial[k])
        ups[k].optimizer_state = ag.thawed(opt_initial[k])
        funcs[k].random_seed = 5
    model = {k: double(initial[k]) for k in names}
    as_numpy = d.chance(0.3)
    inflight = []            # results that wait for being installed: (participants, result, reference)
    held = []                # parameters that somebody keeps: (live, frozen)
    syncs = 0
    d.event('owners', names, as_numpy)

    def check(what):
        for k in names:
            with d.guard('malformed', what):
                bad = agree(funcs[k].params, model[k])
            d.check(bad is None, 'wrong-parameters', lambda: f"after {what}: {k}: {bad}")
        for live, was in held:
            d.check(ag.same_tree(was, live), 'aliasing', lambda: f"{what} changed parameters that were read before")

    def adopt(k):
        model[k] = double(funcs[k].params)

    def sync(trees, weights, what):
        before = ag.frozen(trees)
        structs = [jax.tree_util.tree_structure(t) for t in trees]
        with d.calling('exception', what):
            kw = {} if weights is None else dict(weights=weights)
            out = coax.utils.sync_shared_params(*trees, **kw)
        d.check(ag.same_tree(before, trees), 'input-changed', lambda: f"{what} changed the parameters that it was given")
        with d.guard('malformed', what):
            out = tuple(out)
            d.check(len(out) == len(trees), 'wrong-mean', lambda: f"{what} returned {len(out)} results")
            want = reference([double(t) for t in before], weights or [1.0] * len(trees))
            for i, (x, y) in enumerate(zip(out, want)):
                bad = agree(x, y)
                d.check(bad is None, 'wrong-mean', lambda: f"{what}: result {i}: {bad}")
                d.check(jax.tree_util.tree_structure(x) == structs[i], 'structure', lambda: f"{what}: structure of result {i} differs from that of the input")
            for i in range(len(out)):
                for m in out[i]:
                    others = [o[m] for o in out if m in o]
                    d.check(all(ag.same_tree(others[0], o) for o in others), 'not-in-sync', lambda: f"{what}: owners of {m} differ after synchronising")
        return out, want

    for step in d.steps(4, 24):
        op = d.weighted([('train', 6), ('sync', 6), ('remote', 4), ('install', 4), ('refused', 2), ('hold', 2), ('crash', 1), ('assign', 2), ('predict', 1), ('single', 1)])
        k = d.pick(names)
        seed = d.int(0, 300)
        d.sched(op, k)
        if op == 'train':
            batch, adv = ag.make_batch(seed)
            d.event(op, k, seed)
            others = {j: ag.frozen(funcs[j].params) for j in names if j != k}
            with d.calling('exception', f'train({k})'):
                ups[k].update(*((batch, adv) if k == 'pi' else (batch,)))
            for j, was in others.items():
                d.check(ag.same_tree(was, funcs[j].params), 'not-isolated', lambda: f"training {k} changed {j}")
            adopt(k)
        elif op == 'assign':
            new = jax.tree_util.tree_map(lambda x: (x + onp.random.RandomState(seed).uniform(-3, 3, x.shape)).astype('float32'), ag.frozen(funcs[k].params))
            d.event(op, k, seed)
            funcs[k].params = new if as_numpy else ag.thawed(new)
            model[k] = double(new)
        elif op in ('sync', 'remote'):
            who = pick_some(d, names)
            weights = pick_weights(d, len(who))
            trees = [funcs[j].params for j in who]
            if op == 'remote':
                trees = coax.utils.loads(coax.utils.dumps(trees)) if d.chance(0.6) else [ag.frozen(t) for t in trees]
                if d.chance(0.4):
                    # the parameters have moved on when the averaging takes place
                    d.fault('stale_parameters')
                    batch, adv = ag.make_batch(seed)
                    with d.calling('exception', f'train({k})'):
                        ups[k].update(*((batch, adv) if k == 'pi' else (batch,)))
                    adopt(k)
            what = f"sync({', '.join(who)}; weights={weights})"
            d.event(op, who, weights)
            out, want = sync(trees, weights, what)
            syncs += 1
            check(what)
            if op == 'remote' or d.chance(0.3):
                inflight.append((who, out, want))
                continue
            install(d, funcs, model, who, out, want, what)
        elif op == 'install':
            if not inflight:
                continue
            i = d.choose(len(inflight))
            if i:
                d.fault('reordered_install')
            who, out, want = inflight.pop(i)
            d.event(op, who)
            install(d, funcs, model, who, out, want, f"install({', '.join(who)})")
        elif op == 'crash':
            d.fault('coordinator_crash', len(inflight))
            del inflight[:]
        elif op == 'hold':
            live = funcs[k].params
            if as_numpy:
                live = ag.frozen(live)
                funcs[k].params = live
            held.append((live, ag.frozen(live)))
        elif op == 'refused':
            who = pick_some(d, names)
            trees = [funcs[j].params for j in who]
            how = d.pick(('weights', 'structure', 'missing'))
            kw = {}
            if how == 'weights':
                kw['weights'] = [1.0] * (len(who) + d.pick((-1, 1, 2)))
            else:
                m = next((m for m in sorted(trees[0]) if any(m in t for t in trees[1:])), None)
                if m is None:
                    continue
                owners = [i for i, t in enumerate(trees) if m in t]
                i = owners[d.choose(len(owners))]
                trees[i] = {a: dict(b) for a, b in trees[i].items()}
                if how == 'structure':
                    trees[i][m]['extra'] = jnp.zeros(2)
                else:
                    del trees[i][m]['b']
            d.fault('refused_sync', how)
            d.event(op, how, who)
            before = ag.frozen(trees)
            try:
                coax.utils.sync_shared_params(*trees, **kw)
            except (ValueError, AssertionError, TypeError, KeyError) as e:
                d.event('refused', type(e).__name__)
            else:
                d.check(False, 'accepted', f"synchronising {who} with mismatching {how} was accepted")
            d.check(ag.same_tree(before, trees), 'input-changed', lambda: f"a refused call changed the parameters that it was given ({how})")
        elif op == 'single':
            out = None
            with d.calling('exception', 'sync of one'):
                out = coax.utils.sync_shared_params(funcs[k].params, **({} if d.chance(0.5) else dict(weights=[2.0])))
            with d.guard('malformed', 'sync of one'):
                d.check(len(out) == 1 and agree(out[0], model[k]) is None, 'wrong-mean', lambda: f"synchronising {k} with nobody changed it")
        elif op == 'predict':
            s = onp.asarray(ag.make_batch(seed)[0].S[0])
            with d.calling('exception', 'predict'):
                y = funcs[k].dist_params(s) if k == 'pi' else funcs[k](s)
            want = forward(k, model[k], s)
            got = y['logits'] if k == 'pi' else y
            d.check(onp.allclose(onp.asarray(got, 'float64'), want, rtol=1e-3, atol=1e-3), 'not-installed', lambda: f"{k} predicts {got}, its parameters say {want}")
        check(op)
        d.state(op, len(inflight), len(held), min(syncs, 6), in_sync(model))
    d.is_nontrivial = syncs >= 2 and (bool(d.faults) or bool(held))


def install(d, funcs, model, who, out, want, what):
    with d.calling('exception', what):
        for j, p in zip(who, out):
            funcs[j].params = p
    for j, w in zip(who, want):
        model[j] = w


def pick_some(d, names):
    rest = list(names)
    out = [rest.pop(d.choose(len(rest))) for _ in range(d.int(2, len(names)))]
    if d.chance(0.1):
        out.append(out[0])        # somebody is listed twice
    return out


def pick_weights(d, n):
    if d.chance(0.35):
        return None
    w = [d.pick((1.0, 2.0, 0.5, 3.0, 1e-3, 1, 7)) for _ in range(n)]
    return tuple(w) if d.chance(0.3) else w


def forward(k, p, s):
    modules = dict(pi=('body', 'neck', 'actor'), v=('body', 'neck', 'critic'), q=('body', 'tail', 'values'), v2=('tail', 'mid', 'neck', 'critic2'))[k]
    x = onp.append(onp.asarray(s, 'float64'), 1.0)
    for m in modules[:-1]:
        x = onp.tanh(x @ p[m]['w'] + p[m]['b'])
    x = x @ p[modules[-1]]['w'] + p[modules[-1]]['b']
    return x if k in ('pi', 'q') else x[0]


def in_sync(model):
    return tuple(len({x[m]['b'].tobytes() for x in model.values() if m in x}) for m in ('body', 'neck', 'tail'))
