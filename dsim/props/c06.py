""" C06: worker loops do not depend on a well-behaved wall clock. """
import numbers

import numpy as onp

from . import _cluster as cl
from ..core import SubD


def config(d):
    c = cl.Config()
    c.topology = d.weighted([('local', 3), ('remote', 2)])
    c.n_rollout = d.int(1, 3)
    c.n_learn = d.choose(3)
    c.buffer = d.pick(('simple', 'per'))
    c.n = d.int(1, 3)
    c.trace = d.pick(('flush', 'pop', 'pow2'))
    c.max_episode_steps = d.int(1, 8)
    c.budget = d.int(4, 40)
    c.batch_size = 1
    c.step_time = d.pick((0.01, 0.0, 0.1, 1e-6))
    c.max_learn_time = d.pick((0.02, 0.0))
    if d.chance(0.3):
        c.threshold = d.pick((0.5, 2.0))
        c.n_learn = 0
    if d.chance(0.3):
        c.env_fail = 0.05
    if d.chance(0.4):
        c.delay = d.pick((0.001, 0.05))
    return c


class ClockFaults:
    def __init__(self, d):
        self.d = d
        self.rate = d.pick((0.3, 0.05, 1.0))
        self.kinds = [k for k in ('freeze', 'back', 'forward', 'coarse', 'rate') if d.chance(0.5)] or ['freeze']

    def __call__(self, clock):
        d = self.d
        if not d.chance(self.rate):
            return
        kind = d.pick(self.kinds)
        if clock.frozen_at is not None and d.chance(0.5):
            clock.unfreeze()
        elif kind == 'freeze' and clock.frozen_at is None:
            clock.d = d
            clock.freeze()
        elif kind in ('back', 'forward'):
            clock.d = d
            clock.jump(d.pick((1e-3, 1.0, 3600., 86400. * 365, 3e9)) * (-1 if kind == 'back' else 1))
        elif kind == 'coarse':
            clock.d = d
            clock.coarse(d.pick((0.015625, 1.0, 60.0)))
        elif kind == 'rate':
            clock.rate = d.pick((1.0, 0.0, 2.0, -1.0))
            d.fault('clock_rate', clock.rate)


def outcome(ctx):
    """ everything the run produced, except for durations """
    out = dict(
        status=ctx.status,
        adds=[([{k: (None if v is None else onp.asarray(v).tolist()) for k, v in r.items()} for r in rows],
               None if adv is None else onp.asarray(adv).tolist()) for _, rows, adv in ctx.adds],
        held=sorted(cl.key_of({'S': onp.asarray(tb.S)[0]}) for tb in ctx.store.buffer),
        states=[s for _, s in ctx.store_states],
        counter=[v for _, v in ctx.counter],
        loops=[x[:3] for x in ctx.loops],
        learns=[(x['worker'], x['stamp'], x.get('new')) for x in ctx.learns],
        episodes=[(e.worker, e.number, len(e.steps), e.complete, e.rolled_out) for e in ctx.episodes],
        counters={}, metrics={}, timing={})
    for name, w in sorted(ctx.workers.items()):
        env = w.env
        out['counters'][name] = (env.T, env.ep, env.t, env.G, env.avg_G)
        m = env.get_metrics()
        out['metrics'][name] = {k: v for k, v in m.items() if not k.startswith('throughput/')}
        out['timing'][name] = {k: v for k, v in m.items() if k.startswith('throughput/')}
        out['timing'][name]['dt_ms'] = env.dt_ms
    return out


def run(d):
    cfg = config(d)
    plan = [d.choose(1 << 10) for _ in range(d.pick((300, 100)))]
    results = []
    for faulty in (False, True):
        sub = SubD(plan)
        faults = ClockFaults(d) if faulty else None

        def prepare(ctx):
            if faulty:
                ctx.kernel.clock.on_read = faults
        try:
            try:
                ctx = cl.run_cluster(sub, cfg, prepare=prepare)
            finally:
                d.sim_seconds += sub.sim_seconds
            results.append(outcome(ctx))
        except Exception as e:
            if faulty and cl.in_repo_(e):
                d.violate('clock-crash', f"{type(e).__name__}: {e}")
            raise
        finally:
            for fn in reversed(sub.cleanups):
                fn()
        d.event('finished', 'faulty' if faulty else 'good', ctx.status, ctx.kernel.steps, ctx.kernel.clock.reads)
        d.sched(sub.interleaving())
    good, bad = results
    d.check(good['status'] == 'done', 'no-progress', f"loops did not return on a good clock: {good['status']}")
    d.check(bad['status'] == 'done', 'no-progress', f"loops did not return on a faulty clock: {bad['status']}")
    for k in good:
        if k == 'timing':
            continue
        d.check(good[k] == bad[k], 'clock-dependence', lambda: f"{k} depends on the clock: {str(good[k])[:300]} versus {str(bad[k])[:300]}")
    for name, m in bad['timing'].items():
        d.check(set(m) == set(good['timing'][name]), 'clock-dependence', f"{name}: timing metrics {sorted(m)} versus {sorted(good['timing'][name])}")
        for k, v in m.items():
            d.check(isinstance(v, numbers.Real), 'timing', f"{name}: {k} is {v!r}")
    d.state(cfg.topology, len(good['episodes']), len(good['learns']))
    d.is_nontrivial = len(good['episodes']) > 1 and any(k.startswith('clock') for k in d.faults)
