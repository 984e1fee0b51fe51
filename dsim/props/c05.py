""" C05: metrics and attributes shared through the store behave like one copy. """
import types

import numpy as onp

from . import _cluster as cl
from ..linear import linearizable, TooHard

ATTRS = ('foo', 'ns.x', 'ns.deep.y', 'env.T', 'buffer.beta', 'env.custom')
MISSING = ('nothing', 'ns.nothing', 'nothing.x', 'ns.deep.nothing', 'env.nothing', 'ns.x.y.z')
METRICS = ('a/loss', 'b/loss', 'throughput/x')


def config(d):
    c = cl.Config()
    c.topology = d.weighted([('remote', 5), ('local', 3)])
    c.n_clients = d.int(1, 4)
    c.n_ops = d.pick((6, 12, 24))
    c.buffer = 'per'
    c.store_client = c.topology == 'local' and d.chance(0.5)
    c.step_time = d.pick((0.01, 0.0))
    c.resets = d.chance(0.2)      # the store runs episodes of its own
    c.max_faults = 6
    if d.chance(0.75):
        c.delay = d.pick((0.001, 0.05, 1.0))
    if d.chance(0.3):
        c.request_loss = 0.06
    if d.chance(0.3):
        c.reply_loss = 0.06
    if d.chance(0.25):
        c.stall = 0.1
    return c


def freeze(x):
    """ a hashable rendering of an attribute value """
    if isinstance(x, onp.ndarray):
        return ('arr', str(x.dtype), x.shape, tuple(x.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple(sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (bool, int, float, str, type(None))):
        return (type(x).__name__, x)
    return ('other', str(type(x)), str(x))


def run(d):
    cfg = config(d)
    counter = [0]

    def value(name):
        counter[0] += 1
        v = counter[0]
        if name == 'env.T':
            return 100 + v
        if name == 'buffer.beta':
            return 0.5 + v / 1024.
        return d.weighted([(v, 4), (v + 0.25, 2), ([v, v + 1], 1), ({'k': v}, 1), (onp.arange(3) + v, 1), (None, 1), (0, 1), ('', 1), (False, 1), (f's{v}', 1)])

    kept = []       # results of pull_metrics that readers hold on to, with copies

    def client(ctx, i):
        name = f'c{i}'
        w = ctx.store_handle if cfg.store_client and i == 0 else cl.SimWorker(name, ctx.store_handle, 'client')
        raw = super(cl.SimWorker, w)
        for _ in range(cfg.n_ops):
            if d.chance(0.5):
                ctx.kernel.sleep(0.01 * d.choose(8))
            else:
                ctx.kernel.yield_()
            op = d.weighted([('read', 5), ('write', 4), ('pull_metrics', 3), ('push_metrics', 3), ('missing', 2), ('reject', 1), ('reset', 2 if cfg.resets else 0)])
            attr = d.pick(ATTRS[:2]) if d.chance(0.5) else d.pick([x for x in ATTRS if x != 'env.T' or not cfg.resets])
            try:
                if op == 'reset':
                    ctx.call(name, 'reset', lambda: ctx.store.env.reset(), key='metrics')      # metrics are those of the current episode
                elif op == 'write':
                    v = value(attr)
                    ctx.call(name, 'write', lambda: raw.push_setattr(attr, v), key=attr, value=freeze(v))
                elif op == 'read':
                    dflt = d.choose(3)
                    args = () if dflt == 0 else (None,) if dflt == 1 else ('default',)
                    rec = []
                    ctx.call(name, 'read', lambda: rec.append(raw.pull_getattr(attr, *args)), key=attr, out=rec)
                elif op == 'push_metrics':
                    counter[0] += 1
                    m = {k: counter[0] / 64. for k in METRICS if d.chance(0.6)}
                    if d.chance(0.2):
                        m = {k: onp.float32(v) for k, v in m.items()}
                    snap = {k: float(v) for k, v in m.items()}
                    ctx.call(name, 'push_metrics', lambda: raw.push_metrics(m), key='metrics', value=snap, ident=counter[0])
                    if d.chance(0.3):
                        m.clear()      # the caller's dict is the caller's business
                elif op == 'pull_metrics':
                    rec = []

                    def pull():
                        x = raw.pull_metrics()
                        rec.append({str(k): float(v) for k, v in dict(x).items()})
                        if d.chance(0.5):
                            kept.append((x, dict(x)))
                            return
                        for k in list(x):           # whatever a reader does with its result
                            x[k] = -777.0
                        x['garbage'] = 1.0
                    ctx.call(name, 'pull_metrics', pull, key='metrics', out=rec)
                elif op == 'missing':
                    attr = d.pick(MISSING)
                    dflt = d.pick((None, 0, 'dflt', [1]))
                    if d.chance(0.6):
                        rec = []
                        ctx.call(name, 'missing-default', lambda: rec.append(raw.pull_getattr(attr, dflt)), key=attr, out=rec, want=freeze(dflt))
                    else:
                        try:
                            ctx.call(name, 'missing', lambda: raw.pull_getattr(attr), key=attr)
                        except Exception as e:
                            if not cl.is_injected(e):
                                d.check(isinstance(e, AttributeError), 'wrong-error', f"reading missing {attr} raised {type(e).__name__}: {e}")
                                continue
                            raise
                        d.violate('missing-accepted', f"reading the missing attribute {attr} without default did not fail")
                else:
                    bad = d.pick(('metrics', 'attr'))
                    d.fault('rejected_call', bad)
                    try:
                        if bad == 'metrics':
                            ctx.call(name, 'reject', lambda: raw.push_metrics([1, 2]), key=None)
                        else:
                            ctx.call(name, 'reject', lambda: raw.push_setattr('nothing.x', 1), key=None)
                    except Exception as e:
                        if cl.is_injected(e):
                            raise
                        continue
                    d.violate('not-rejected', f"invalid {bad} write was accepted")
            except Exception as e:
                if not cl.is_injected(e):
                    raise
                d.event('lost', name, op)

    def driver(ctx):
        cl.start_store(ctx)
        k = ctx.kernel

        def init():
            # wait for the store to be up, then give it some nested attributes
            while ctx.store is None:
                k.sleep(0.001)
            s = ctx.store
            s.foo = 0
            s.ns = types.SimpleNamespace(x=0, deep=types.SimpleNamespace(y=0))
            s.env.custom = 0
            for i in range(cfg.n_clients):
                k.spawn(f'c{i}', lambda i=i: client(ctx, i))
        k.spawn('init', init)

    ctx = cl.run_cluster(d, cfg, driver)
    d.check(ctx.status == 'done', 'no-progress', f"calls did not return: {ctx.status} at t={ctx.kernel.now:.3f}")
    for x, copy in kept:
        d.check(x == copy, 'result-changed', f"metrics that were handed out as {copy} changed to {x}")
    judge(d, ctx)


def judge(d, ctx):
    hist = [h for h in ctx.history if 'key' in h]
    overlap = 0
    for key in ATTRS:
        ops = [h for h in hist if h['key'] == key and (h['op'] == 'write' or h['op'] == 'read' and h['ok'])]
        for h in ops:
            if h['op'] == 'read':
                d.check(len(h['out']) == 1, 'no-result', f"read of {key} gave no result")
                h['got'] = freeze(h['out'][0])
        init = {'buffer.beta': ('float', 0.5)}.get(key, ('int', 0))

        def step(state, op):
            if op['op'] == 'write':
                return [op['value']]
            return [state] if op['got'] == state else []
        overlap += sum(a['inv'] < b['inv'] < (a['ret'] or 1e18) for a in ops for b in ops if a['worker'] != b['worker'])
        try:
            ok = linearizable(ops, init, step)
        except TooHard:
            d.probe('linearizability_capped')
            continue
        d.check(ok, 'not-linearizable', lambda: f"attribute {key}: no single-copy order explains " + "; ".join(
            f"[{o['inv']}-{o['ret']}] {o['worker']} {o['op']} {o.get('got', o.get('value'))}{'' if o['ok'] else ' (lost)'}" for o in ops))
    for h in hist:
        if h['op'] == 'missing-default' and h['ok']:
            d.check(freeze(h['out'][0]) == h['want'], 'default', f"reading missing {h['key']} with default {h['want']} gave {h['out']}")
    # metrics: the state is the set of pushes that were applied
    ops = [h for h in hist if h['key'] == 'metrics' and (h['op'] in ('push_metrics', 'reset') or h['ok'])]
    pushes = {h['ident']: h['value'] for h in ops if h['op'] == 'push_metrics'}

    def mean(state):
        acc = {}
        for i in state:
            for k, v in pushes[i].items():
                x, n = acc.get(k, (0., 0))
                acc[k] = x + v, n + 1
        return {k: x / n for k, (x, n) in acc.items()}
    cache = {}

    def step(state, op):
        if op['op'] == 'reset':
            return [frozenset()]
        if op['op'] == 'push_metrics':
            return [state | {op['ident']}]
        if state not in cache:
            cache[state] = mean(state)
        got = op['out'][0]
        want = cache[state]
        return [state] if set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-6 * max(1, abs(want[k])) for k in want) else []
    try:
        ok = linearizable(ops, frozenset(), step)
        d.check(ok, 'not-linearizable', lambda: "metrics: no single-copy order explains " + "; ".join(
            f"[{o['inv']}-{o['ret']}] {o['worker']} {o['op']} {o['out'][0] if o['op'] == 'pull_metrics' else o.get('value')}{'' if o['ok'] else ' (lost)'}" for o in ops))
    except TooHard:
        d.probe('linearizability_capped')
    if overlap:
        d.probe('overlapping_calls')
    d.state(ctx.cfg.topology, len(hist), len(pushes))
    d.is_nontrivial = len(hist) > 4 and any(h['op'] == 'read' for h in hist)
