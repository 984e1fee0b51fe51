"""
C08: prioritized sampling and importance weights follow the current priorities.

Several clients (writers, learners reporting late priorities, an annealing client that changes alpha / beta / epsilon, a janitor) interleave;
after every mutation the exact importance weights of samples are compared with a flat reference table, and at the end of a run the
empirical frequencies of a large sample.
"""
import numpy as onp
import coax

from .. import batches, stats
from ._per import Model, advantage, run_large


def run(d):
    if d.chance(0.02):
        return run_large(d, True, coax, stats)
    capacity = d.pick((1, 2, 3, 5, 6, 8, 11, 16, 17, 32, 50))
    style = d.pick((0, 1))
    alpha = d.pick((1.0, 0.6, 0.3, 1.5, 2.0))
    beta = d.pick((1.0, 0.4, 0.7, 2.0))
    epsilon = d.pick((1e-4, 1e-2, 1.0))
    wide = d.chance(0.5)
    buf = coax.experience_replay.PrioritizedReplayBuffer(capacity, alpha=alpha, beta=beta, epsilon=epsilon, random_seed=d.int(0, 99))
    m = Model(d, buf, capacity, alpha, beta, epsilon, style)
    d.event('config', capacity, alpha, beta, epsilon, wide)
    tag = 0
    inflight = []
    n_changes = 0

    def probe(n=None):
        if m.held:
            n = n or d.pick((1, 4, 16, 48))
            with d.calling('exception', 'sample'):
                tb = buf.sample(batch_size=n)
            tags = m.check_sample(tb, n, rtol=1e-3)
            return tb, tags

    for step in d.steps(4, 40):
        client = d.choose(5)
        op = d.weighted([('add', 8), ('sample', 5), ('update', 7), ('alpha', 4), ('beta', 2), ('epsilon', 2), ('clear', 1)])
        d.sched(client, op)
        if op == 'add' or not m.held:
            n = d.weighted([(1, 3), (2, 2), (4, 2), (7, 1), (capacity, 1)])
            tags = list(range(tag, tag + n))
            tag += n
            advs = [advantage(d, wide) for _ in tags]
            d.event('add', tags, advs)
            with d.calling('exception', 'add'):
                buf.add(batches.make(tags, style), onp.array(advs))
            m.add(tags, advs)
        elif op == 'sample':
            tb, tags = probe()
            inflight.append(onp.array(tb.idx, copy=True))
            d.event('sample', tags[:8])
        elif op == 'update':
            if inflight:
                ids = inflight.pop(d.choose(len(inflight)))
                # as sampled: with repetitions, which carry equal values
                val = {int(i): advantage(d, wide) for i in onp.unique(ids)}
                if d.chance(0.5):
                    ids = onp.unique(ids)
                elif len(val) < len(ids):
                    d.probe('repeated_ids')
                advs = onp.array([val[int(i)] for i in ids], dtype='float32')
                if any(m.tag_by_id[int(i)] not in m.base for i in ids):
                    d.fault('late_update')
                d.event('update', ids, advs)
                with d.calling('exception', 'update'):
                    buf.update(ids, advs)
                m.update(ids, advs)
                n_changes += 1
        elif op == 'alpha':
            new = m.alpha * d.pick((1.001, 0.8, 1.3, 0.5, 2.0, 1.02, 0.97))
            new = min(max(new, 0.2), 2.5)
            d.event('alpha', new)
            with d.calling('exception', 'alpha'):
                buf.alpha = new
                got = float(buf.alpha)
            d.check(abs(got - new) <= 0.0101 * max(got, new), 'alpha', lambda: f"alpha was set to {new} but reads {got}")
            m.alpha = got
            n_changes += 1
        elif op == 'beta':
            new = d.pick((1.0, 0.1, 0.5, 1.7))
            with d.calling('exception', 'beta'):
                buf.beta = new
            m.beta = new
            d.event('beta', new)
        elif op == 'epsilon':
            new = d.pick((1e-4, 0.1, 2.0))
            with d.calling('exception', 'epsilon'):
                buf.epsilon = new
            m.epsilon = new
            d.event('epsilon', new)
        elif op == 'clear':
            d.fault('clear')
            with d.calling('exception', 'clear'):
                buf.clear()
            m.clear()
            d.event('clear')
        probe()
        d.state(capacity, len(m.held), m.alpha, m.beta)
    if len(m.held) > 1:
        n = 3000
        with d.calling('exception', 'sample'):
            tb = buf.sample(batch_size=n)
        tags = m.check_sample(tb, n, rtol=1e-3)
        p = m.priorities()
        total = sum(p.values())
        counts = [tags.count(t) for t in m.held]
        ok, pv = stats.multinomial_ok(counts, [p[t] / total for t in m.held])
        d.check(ok, 'frequencies', lambda: f"drawn {counts}, expected probabilities {[p[t] / total for t in m.held]} (p-value {pv:.1e})")
        d.probe('frequency_test')
    d.is_nontrivial = tag > capacity and n_changes > 0
