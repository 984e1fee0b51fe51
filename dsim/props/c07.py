"""
C07: contents, ids and priority updates of the prioritized replay buffer.

Clients (writers, learners with in-flight samples, a janitor, a careless client) take turns in an order decided by the seeded
scheduler.  In-flight state: learners keep the ids they sampled and send their priority update at an arbitrary later time, by which the
transitions may have been overwritten or cleared.
"""
import numpy as onp
import jax.numpy as jnp
import coax

from .. import batches, stats
from ._per import Model, advantage, run_large


def run(d):
    if d.chance(0.02):
        return run_large(d, False, coax, stats)
    capacity = d.pick((1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31))
    style = d.pick((0, 1, 2, 4, 8, 15))
    seed = d.int(0, 50)
    epsilon = d.pick((1e-4, 0.01))
    buf = coax.experience_replay.PrioritizedReplayBuffer(capacity, alpha=1.0, beta=1.0, epsilon=epsilon, random_seed=seed)
    m = Model(d, buf, capacity, 1.0, 1.0, epsilon, style)
    other = coax.experience_replay.PrioritizedReplayBuffer(max(2, capacity - 1), random_seed=seed)
    d.event('config', capacity, style, seed)
    state = dict(tag=0)
    inflight = {0: [], 1: [], 2: []}      # learner -> list of id arrays not yet reported back
    last_single = None                     # (TransitionBatch object, tag)
    n_clients = d.int(2, 6)

    def write(n, what):
        nonlocal last_single
        tags = list(range(state['tag'], state['tag'] + n))
        state['tag'] += n
        advs = [advantage(d) for _ in tags]
        tb = batches.make(tags, style, readonly=d.chance(0.3))
        arr = onp.array(advs, dtype=d.pick(('float64', 'float32')))
        if d.chance(0.15):
            arr = jnp.asarray(arr, dtype='float32')
        d.event(what, tags, advs)
        with d.calling('exception', 'add'):
            buf.add(tb, arr)
        m.add(tags, advs)
        if n > capacity:
            d.probe('batch_larger_than_capacity')
        if d.chance(0.25):
            batches.rebind(tb)      # the writer reuses its batch object for something else
        elif n == 1:
            last_single = (tb, tags[0])
        m.check_contents()

    write(d.int(1, 4), 'add')
    for step in d.steps(4, 45):
        client = d.choose(n_clients)
        op = d.weighted([('add', 8), ('sample', 7), ('update', 8), ('check', 2), ('reject', 3), ('clear', 1), ('same', 1),
                         ('other', 1)])
        d.sched(client, op)
        if op == 'add':
            write(d.weighted([(1, 4), (2, 3), (3, 2), (5, 1), (capacity, 1), (capacity + 2, 1)]), 'add')
        elif op == 'same':
            # the very same object is offered to a second buffer
            if last_single is not None:
                d.probe('same_object_to_second_buffer')
                with d.calling('exception', 'add to another buffer'):
                    other.add(last_single[0], onp.array([1.0]))
                m.check_contents()
        elif op == 'other':
            with d.calling('exception', 'another buffer'):
                other.add(batches.make([10 ** 6, 10 ** 6 + 1], style), onp.array([1.0, 2.0]))
                other.update(onp.array([0, 1]), onp.array([9.0, 9.0]))
                if len(other) == other.capacity:
                    other.clear()
            m.check_contents()
        elif op == 'sample':
            n = d.int(1, 6)
            if not m.held:
                reject(d, m, lambda: buf.sample(batch_size=n), 'sample from empty buffer')
                continue
            with d.calling('exception', 'sample'):
                tb = buf.sample(batch_size=n)
            tags = m.check_sample(tb, n)
            d.event('sample', client, tags)
            ids = onp.array(tb.idx, copy=True)
            inflight[client % 3].append((ids, tags))
            if d.chance(0.4):
                batches.scribble(tb)
                m.check_contents()
        elif op == 'update':
            queue = inflight[client % 3]
            kind = d.weighted([('oldest', 4), ('newest', 3), ('mixed', 4), ('known', 2), ('unknown', 1)])
            if kind == 'mixed':
                # merged report: ids of several in-flight samples of all learners in one call
                pool = [q for qs in inflight.values() for q in qs]
                if not pool:
                    continue
                parts = [d.pick(pool) for _ in range(d.int(1, 3))]
                ids = onp.concatenate([p[0] for p in parts])
                order = [d.choose(len(ids)) for _ in range(d.int(1, len(ids)))]
                ids = ids[order]
            elif kind == 'known':
                # ids of anything that ever lived in the buffer
                known = sorted(m.tag_by_id)
                if not known:
                    continue
                ids = onp.array([known[d.choose(len(known))] for _ in range(d.int(1, 5))])
            elif kind == 'unknown':
                # ids that no transition ever had (e.g. padding), possibly among real ones
                known = sorted(m.tag_by_id)
                top = max(known, default=0) + 10 ** 5
                ids = onp.array([d.pick((-1, -2, -capacity, -capacity - 1, top, top + capacity)) if d.chance(0.6) or not known else known[d.choose(len(known))] for _ in range(d.int(1, 4))])
                d.fault('unknown_ids')
            else:
                if not queue:
                    continue
                ids = queue.pop(0 if kind == 'oldest' else -1)[0]
            if d.chance(0.2):
                ids = ids[:0]
                d.probe('empty_update')
            # one value per id within a call (duplicates carry equal values)
            val = {}
            for i in ids.tolist():
                if i not in val:
                    val[i] = advantage(d)
            advs = onp.array([val[i] for i in ids.tolist()], dtype='float32')
            stale = [i for i in val if m.tag_by_id.get(i) not in m.base]
            fresh = [i for i in val if m.tag_by_id.get(i) in m.base]
            if stale:
                d.probe('stale_ids')
                d.fault('late_update', stale)
            if stale and any(i % capacity in {j % capacity for j in fresh} for i in stale):
                d.probe('stale_and_fresh_same_slot')
            if not m.held:
                d.probe('update_after_clear')
            d.event('update', client, ids, advs, 'stale', stale)
            with d.calling('exception', f'update({ids.tolist()})'):
                buf.update(ids if d.chance(0.5) else jnp.asarray(ids), advs)
            m.update(ids, advs)
            if m.held and d.chance(0.8):
                n = d.pick((4, 16, 40))
                m.check_sample(buf.sample(batch_size=n), n)
        elif op == 'reject':
            what = d.pick(('type', 'malformed', 'shape', 'update-shape', 'update-rank', 'alpha', 'beta', 'epsilon', 'sample-n'))
            d.fault('rejected_call', what)
            if what == 'type':
                reject(d, m, lambda: buf.add((1, 2, 3), onp.array([1.0])), what)
            elif what == 'malformed':
                tb = batches.make([10 ** 7, 10 ** 7 + 1, 10 ** 7 + 2], style)
                tb.extra_info = {'x': 1.0}      # not a batch
                reject(d, m, lambda: buf.add(tb, onp.array([1.0, 2.0, 3.0])), what)
            elif what == 'shape':
                tb = batches.make([10 ** 7, 10 ** 7 + 1], style)
                reject(d, m, lambda: buf.add(tb, onp.array([1.0, 2.0, 3.0])), what)
            elif what == 'update-shape':
                reject(d, m, lambda: buf.update(onp.array([0, 1]), onp.array([1.0])), what)
            elif what == 'update-rank':
                reject(d, m, lambda: buf.update(onp.array([[0]]), onp.array([[1.0]])), what)
            elif what == 'sample-n':
                reject(d, m, lambda: buf.sample(batch_size=0), what)
            else:
                reject(d, m, lambda: setattr(buf, what, -1.0), what)
        elif op == 'clear':
            d.fault('clear', len(m.held))
            with d.calling('exception', 'clear'):
                buf.clear()
            m.clear()
            m.check_contents()
        else:
            m.check_contents()
        d.state(capacity, len(m.held), len(inflight[0]) + len(inflight[1]) + len(inflight[2]), sorted(m.priorities().values())[:3])
    m.check_contents()
    if m.held:
        m.check_sample(buf.sample(batch_size=64), 64)
    d.is_nontrivial = state['tag'] > capacity and any(m.id_of) and d.faults.get('late_update', 0) + d.faults.get('clear', 0) > 0


def reject(d, m, fn, what):
    try:
        fn()
    except Exception as e:
        d.event('rejected', what, type(e).__name__)
    else:
        d.violate('not-rejected', f"invalid call was accepted: {what}")
    m.check_contents()
    if m.held:
        m.check_sample(m.buffer.sample(batch_size=12), 12)
