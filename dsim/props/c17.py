"""
C17: remote gradients, copies and target networks are isolated and equivalent.

A learner and a gradient worker (two instances of the same agent) exchange parameters and gradients through a simulated channel that serialises, delays and reorders, while
copies, target syncs, assignments, predictions and local updates are interleaved.  A reference model holds plain numpy copies of all parameters, function states and
optimizer states and is advanced with optax.
"""
import jax
import jax.numpy as jnp
import numpy as onp
import optax

import coax
from . import _agents as ag


AFFINITY = len(ag.BUILDERS)     # the first choice of a run


def run(d):
    kind = d.pick(tuple(ag.BUILDERS))
    learner, worker = ag.agent(kind, 0), ag.agent(kind, 1)
    ups = sorted(learner.updaters)
    model = learner.snapshot()                 # what the learner has to look like
    copies = {}                                # name -> (copy, expected params, expected function state, source name)
    channel = []                               # gradients in flight: (updater, grads, function state, tree of what was sent)
    held = []                                  # references that someone keeps to the learner's parameters: (live tree, frozen tree)
    d.event('agent', kind)

    def check(what):
        with d.guard('malformed', what):
            where = ag.diff(model, learner.snapshot())
        d.check(where is None, 'not-isolated', lambda: f"{kind}: {what} changed {where}")
        for name, (c, p, s, _) in copies.items():
            d.check(ag.same_tree(p, c.params) and ag.same_tree(s, c.function_state), 'not-isolated', lambda: f"{kind}: {what} changed the copy {name}")
        for live, was in held:
            d.check(ag.same_tree(was, live), 'aliasing', lambda: f"{kind}: {what} changed parameters that were read before")

    def moved(what, expect, rtol=2e-5, atol=1e-7):
        """ adopt the changes that were expected (up to rounding), everything else has to be what it was """
        now = learner.snapshot()
        for key, tree in expect.items():
            d.check(ag.close(now[key], tree, rtol, atol) and onp.all([onp.shape(x) == onp.shape(y) for x, y in zip(
                jax.tree_util.tree_leaves(now[key]), jax.tree_util.tree_leaves(tree))]), 'wrong-result', lambda: f"{kind}: {what}: unexpected {key}")
            model[key] = now[key]
        check(what)

    def reference_step(u, grads):
        """ one optimizer step from the current state of the model """
        opt = ag.make_optimizer(learner.opt_kind[u], 0.05)
        f = learner.moves[u]
        p = ag.thawed(model[f, 'params'])
        updates, st = opt.update(ag.thawed(grads), ag.thawed(model[u, 'optimizer_state']), p)
        return {(f, 'params'): ag.frozen(optax.apply_updates(p, updates)), (u, 'optimizer_state'): ag.frozen(st)}

    def sync_worker():
        for k, f in worker.funcs.items():
            f.params = ag.thawed(model[k, 'params'])
            f.function_state = ag.thawed(model[k, 'function_state'])
        for k, u in worker.updaters.items():
            u.optimizer_state = ag.thawed(model[k, 'optimizer_state'])

    for step in d.steps(4, 16):
        op = d.weighted([('remote', 5), ('deliver', 5), ('update', 4), ('soft', 3), ('predict', 3), ('copy', 3), ('use_copy', 3), ('assign', 2), ('hold', 2), ('pull', 2)])
        u = d.pick(ups)
        seed = d.int(0, 400)
        batch, adv = ag.make_batch(seed, learner.discrete)
        d.sched(op, u)
        d.event(op, u, seed)
        what = f"{op}({u})"
        if op == 'pull':
            sync_worker()
        elif op == 'remote':
            # the worker computes gradients on the parameters it has, which may be outdated
            if d.chance(0.6):
                sync_worker()
            before = worker.snapshot()
            worker.seed(seed)
            with d.calling('exception', what):
                grads, fs, *rest = worker.updaters[u].grads_and_metrics(*worker.args(u, batch, adv))
                if d.chance(0.3):
                    worker.seed(seed)
                    worker.updaters[u].grads_and_metrics(*worker.args(u, batch, adv))
                    if hasattr(worker.updaters[u], 'td_error'):
                        worker.updaters[u].td_error(batch)
            d.check(ag.diff(before, worker.snapshot()) is None, 'impure', lambda: f"{kind}/{u}: computing gradients changed {ag.diff(before, worker.snapshot())}")
            d.check(ag.same_tree(ag.make_batch(seed, learner.discrete)[0], batch), 'impure', lambda: f"{kind}/{u}: computing gradients changed the batch")
            payload = (grads, fs)
            if d.chance(0.5):
                payload = coax.utils.loads(coax.utils.dumps(payload))
            synced = ag.diff(model, before) is None
            channel.append((u, seed, payload, ag.frozen(payload), synced and ag.diff(model, before) is None and len(model), dict(model) if synced else None))
            check(what)
        elif op == 'deliver':
            if not channel:
                continue
            i = d.choose(len(channel))
            if i:
                d.fault('reordered_gradients')
            u, seed, (grads, fs), was, _, at = channel.pop(i)
            fresh = at is not None and all(model[k] is at[k] for k in model)
            f = learner.moves[u]
            expect = reference_step(u, was[0])
            expect[f, 'function_state'] = was[1]
            if not fresh:
                d.fault('stale_gradients')
            with d.calling('exception', what):
                learner.updaters[u].apply_grads(grads, fs)
            d.check(ag.same_tree(was, (grads, fs)), 'impure', lambda: f"{kind}/{u}: apply_grads changed the gradients it was given")
            if fresh:
                d.probe('equivalence_with_local_update')
                # the worker still is in (or is put back to) the state in which the gradients were computed: do it locally
                sync_worker()
                worker.seed(seed)
                batch, adv = ag.make_batch(seed, learner.discrete)
                with d.calling('exception', what):
                    worker.updaters[u].update(*worker.args(u, batch, adv))
                local, remote = worker.snapshot(), learner.snapshot()
                for key in local:
                    d.check(ag.close(local[key], remote[key], 1e-6, 1e-8), 'not-equivalent', lambda: f"{kind}/{u}: remote gradients and local update disagree in {key}")
            moved(what, expect)
        elif op == 'update':
            sync_worker()
            worker.seed(seed)
            with d.calling('exception', what):
                grads, fs, *_ = worker.updaters[u].grads_and_metrics(*worker.args(u, batch, adv))
            expect = reference_step(u, ag.frozen(grads))
            f = learner.moves[u]
            expect[f, 'function_state'] = ag.frozen(fs)
            learner.seed(seed)
            with d.calling('exception', what):
                if d.chance(0.3) and hasattr(learner.updaters[u], 'td_error'):
                    learner.updaters[u].update(batch, return_td_error=True)
                else:
                    learner.updaters[u].update(*learner.args(u, batch, adv))
            d.check(ag.same_tree(ag.make_batch(seed, learner.discrete)[0], batch), 'impure', lambda: f"{kind}/{u}: update changed the batch")
            d.check(not ag.same_tree(model[f, 'params'], learner.funcs[f].params), 'no-effect', lambda: f"{kind}/{u}: update had no effect")
            moved(what, expect)
        elif op == 'soft':
            pairs = [(k, k[:-5]) for k in sorted(model_names(learner)) if k.endswith('_targ')]
            pairs += [(b, c) for b, c in [(k, j) for k in model_names(learner) for j in model_names(learner)]
                      if b != c and type(learner.funcs[b]) is type(learner.funcs[c]) and compatible(model, b, c)]
            if not pairs:
                continue
            t, src = pairs[d.choose(len(pairs))]
            tau = d.pick((1.0, 0.5, 0.001, 0.0, 0.25))
            d.event('soft_update', t, src, tau)
            expect = {(t, k): jax.tree_util.tree_map(lambda x, y: ((1 - tau) * x.astype('float64') + tau * y.astype('float64')).astype(x.dtype), model[t, k], model[src, k])
                      for k in ('params', 'function_state')}
            with d.calling('exception', what):
                learner.funcs[t].soft_update(learner.funcs[src], tau if d.chance(0.5) else jnp.float32(tau))
            moved(f"soft_update({t}, {src}, {tau})", expect, 1e-5, 1e-6)
        elif op == 'predict':
            s = onp.asarray(batch.S[0])
            a = ag.single_action(batch)
            learner.seed(seed)
            with d.calling('exception', what):
                for k in sorted(learner.policies):
                    learner.policies[k](s, return_logp=True)
                    if d.chance(0.3):
                        learner.policies[k].mode(s)
                        learner.policies[k].dist_params(s)
                k = d.pick(sorted(learner.funcs))
                f = learner.funcs[k]
                if coax.utils.is_policy(f) or coax.utils.is_vfunction(f):
                    f(s)
                else:
                    f(s, a)
            check(what)
        elif op == 'copy':
            k = d.pick(sorted(learner.funcs))
            deep = d.chance(0.25)
            name = f"copy{len(copies)}"
            if len(copies) >= 4:
                continue
            with d.calling('exception', what):
                c = learner.funcs[k].copy(deep=deep)
            copies[name] = (c, model[k, 'params'], model[k, 'function_state'], k)
            check(f"copy({k}, deep={deep})")
        elif op == 'use_copy':
            if not copies:
                continue
            name = d.pick(sorted(copies))
            c, p, s, k = copies[name]
            how = d.pick(('assign', 'soft', 'predict', 'into'))
            d.event(how, name, k)
            with d.calling('exception', f"{how}({name})"):
                if how == 'assign':
                    new = jax.tree_util.tree_map(lambda x: onp.asarray(x + 1, x.dtype), p)
                    c.params = ag.thawed(new)
                    copies[name] = (c, new, s, k)
                elif how == 'soft':
                    c.soft_update(learner.funcs[k], 0.5)
                    mix = [jax.tree_util.tree_map(lambda x, y: (0.5 * x + 0.5 * y).astype(x.dtype), a, b)
                           for a, b in ((p, model[k, 'params']), (s, model[k, 'function_state']))]
                    d.check(ag.close(mix[0], c.params, 1e-5, 1e-6) and ag.close(mix[1], c.function_state, 1e-5, 1e-6), 'wrong-result',
                            lambda: f"{kind}: soft update of a copy of {k}")
                    copies[name] = (c, ag.frozen(c.params), ag.frozen(c.function_state), k)
                elif how == 'into':
                    learner.funcs[k].soft_update(c, 1.0)
                    moved(how, {(k, 'params'): p, (k, 'function_state'): s}, 1e-6, 1e-7)
                else:
                    x, act = onp.asarray(batch.S[0]), ag.single_action(batch)
                    y = predict(c, x, act)
                    if ag.same_tree(p, model[k, 'params']) and ag.same_tree(s, model[k, 'function_state']):
                        d.check(ag.close(y, predict(learner.funcs[k], x, act)), 'wrong-result', lambda: f"{kind}: a copy of {k} predicts {y}")
            check(f"{how}({name})")
        elif op == 'assign':
            targets = sorted(k for k in learner.funcs if k.endswith('_targ'))
            if not targets:
                continue
            t = targets[d.choose(len(targets))]
            src = t[:-5]
            with d.calling('exception', what):
                learner.funcs[t].params = learner.funcs[src].params
                learner.funcs[t].function_state = learner.funcs[src].function_state
            moved(f"assign({t})", {(t, k): model[src, k] for k in ('params', 'function_state')}, 0, 0)
        elif op == 'hold':
            k = d.pick(sorted(learner.funcs))
            live = (learner.funcs[k].params, learner.funcs[k].function_state)
            if d.chance(0.5):
                # ... or parameters that arrived as plain numpy arrays
                live = tuple(ag.frozen(t) for t in live)
                learner.funcs[k].params, learner.funcs[k].function_state = live
            held.append((live, ag.frozen(live)))
            check(what)
        d.state(kind, op, len(channel), len(copies), len(held))
    d.is_nontrivial = len(held) + len(copies) > 0 or bool(d.faults)


def predict(f, s, a):
    g = f.mean if coax.utils.is_stochastic(f) else f
    if coax.utils.is_policy(f):
        return f.dist_params(s)
    return g(s) if coax.utils.is_vfunction(f) else g(s, a)


def model_names(a):
    return sorted(a.funcs)


def compatible(model, b, c):
    return all(jax.tree_util.tree_map(onp.shape, model[b, k]) == jax.tree_util.tree_map(onp.shape, model[c, k]) for k in ('params', 'function_state'))
