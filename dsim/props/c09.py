""" C09: the simple replay buffer is a FIFO window that is sampled uniformly without replacement. """
import numpy as onp
import coax

from .. import batches, stats


def run_large(d):
    """ the same property at a size that real trainings use """
    capacity = d.int(300, 3000)
    style = d.pick((0, 1))
    rng = onp.random.RandomState(d.choose(1 << 16))
    buf = coax.experience_replay.SimpleReplayBuffer(capacity, random_seed=d.int(0, 99))
    held, tag = [], 0
    d.event('config', capacity, style)
    d.probe('large')
    for step in d.steps(3, 12):
        op = d.weighted([('fill', 5), ('add', 4), ('sample', 4), ('clear', 1)])
        d.sched('large', op)
        if op in ('fill', 'add') or not held:
            n = int(rng.randint(100, 900)) if op == 'fill' else d.int(1, 7)
            tags = list(range(tag, tag + n))
            tag += n
            with d.calling('exception', 'add'):
                buf.add(batches.make(tags, style))
            held = (held + tags)[-capacity:]
        elif op == 'clear':
            d.fault('clear', len(held))
            with d.calling('exception', 'clear'):
                buf.clear()
            held = []
        else:
            _large_sample(d, buf, held, int(rng.randint(1, len(held) + 1)), style)
        with d.guard('contents', 'iterating over the buffer'):
            d.check(len(buf) == len(held), 'length', lambda: f"len(buffer) is {len(buf)}, expected {len(held)}")
            tags = [batches.tag_of(x, 0) for x in buf]
            d.check(tags == held, 'contents', lambda: f"buffer of {len(tags)} does not hold the last {len(held)} transitions in order")
        d.event(op, len(held), tag)
        d.state(capacity, len(held))
    if len(held) > 50:
        n = max(1, len(held) // 5)
        m = 20          # cells of equal age
        counts = onp.zeros(m)
        age = {t: i * m // len(held) for i, t in enumerate(held)}
        for _ in range(20):
            for t in _large_sample(d, buf, held, n, style):
                counts[age[t]] += 1
        size = onp.bincount(list(age.values()), minlength=m)
        ok, pv = stats.multinomial_ok(counts, size / size.sum())
        d.check(ok, 'uniformity', lambda: f"draws by age {counts.tolist()} are not uniform (p-value {pv:.1e})")
        d.probe('uniformity_test')
    d.is_nontrivial = tag > capacity


def _large_sample(d, buf, held, n, style):
    with d.calling('exception', f'sample({n}) of {len(held)}'):
        tb = buf.sample(batch_size=n)
    with d.guard('sample', 'inspecting a sample'):
        d.check(tb.batch_size == n, 'sample', lambda: f"requested {n}, got {tb.batch_size}")
        tags = batches.tags_of(tb)
        d.check(len(set(tags)) == n, 'replacement', "sample contains duplicates")
        d.check(set(tags) <= set(held), 'sample', "sample contains transitions that are not held")
        bad = batches.mismatch_all(tb, tags, style, skip=())
        d.check(bad is None, 'sample', lambda: f"field {bad} was modified")
    return tags


def run(d):
    if d.chance(0.03):
        return run_large(d)
    capacity = d.pick((1, 2, 3, 4, 5, 7, 8, 13, 20, 33))
    style = d.pick((0, 1, 2, 4, 8, 15))
    buf = coax.experience_replay.SimpleReplayBuffer(capacity, random_seed=d.int(0, 99))
    other = coax.experience_replay.SimpleReplayBuffer(capacity, random_seed=d.int(0, 3))
    held = []
    tag = 0
    d.event('config', capacity, style)
    last_single = None

    def check_contents():
        with d.guard('contents', 'iterating over the buffer'):
            items = list(buf)
            d.check(len(buf) == len(held), 'length', lambda: f"len(buffer) is {len(buf)}, expected {len(held)}")
            d.check(bool(buf) == bool(held), 'length', "bool(buffer) does not match its length")
            tags = [batches.tag_of(x, 0) for x in items]
            d.check(tags == held, 'contents', lambda: f"buffer holds {tags}, expected {held}")
            for x, t in zip(items, tags):
                d.check(x.batch_size == 1, 'contents', "not a single transition")
                bad = batches.mismatch(x, 0, t, style, skip=())
                d.check(bad is None, 'contents', lambda: f"field {bad} of transition {t} was modified")

    def check_sample(n):
        with d.calling('exception', f'sample({n}) of {len(held)}'):
            tb = buf.sample(batch_size=n)
        with d.guard('sample', 'inspecting a sample'):
            d.check(tb.batch_size == n, 'sample', lambda: f"requested {n}, got {tb.batch_size}")
            tags = [batches.tag_of(tb, i) for i in range(n)]
            d.check(len(set(tags)) == n, 'replacement', lambda: f"sample contains duplicates: {tags}")
            d.check(set(tags) <= set(held), 'sample', lambda: f"sample contains transitions that are not held: {tags}, held: {held}")
            for i, t in enumerate(tags):
                bad = batches.mismatch(tb, i, t, style, skip=())
                d.check(bad is None, 'sample', lambda: f"field {bad} of transition {t} was modified")
        return tb, tags

    def reject(fn, what):
        d.fault('rejected_call', what)
        try:
            fn()
        except Exception as e:
            d.event('rejected', what, type(e).__name__)
        else:
            d.violate('not-rejected', f"invalid call was accepted: {what}")
        check_contents()

    n_clients = d.int(2, 5)
    for step in d.steps(4, 45):
        client = d.choose(n_clients)
        op = d.weighted([('add', 8), ('sample', 6), ('reject', 2), ('clear', 1), ('same', 1), ('other', 1)])
        d.sched(client, op)
        if op == 'add' or (not held and op == 'sample'):
            n = d.weighted([(1, 4), (2, 3), (3, 2), (5, 1), (capacity, 1), (capacity + 2, 1)])
            tags = list(range(tag, tag + n))
            tag += n
            tb = batches.make(tags, style, readonly=d.chance(0.3))
            d.event('add', client, tags)
            with d.calling('exception', 'add'):
                buf.add(tb)
            if len(held) + n > capacity:
                d.probe('eviction')
            held = (held + tags)[-capacity:]
            if d.chance(0.25):
                batches.rebind(tb)      # the writer reuses its batch object for something else
            elif n == 1:
                last_single = tb
            check_contents()
        elif op == 'sample':
            n = d.int(1, len(held))
            tb, tags = check_sample(n)
            d.event('sample', client, tags)
            if d.chance(0.5):
                batches.scribble(tb)
            check_contents()
        elif op == 'reject':
            what = d.pick(('type', 'malformed', 'too-many', 'too-many-if-empty'))
            if what == 'type':
                reject(lambda: buf.add({'S': 1}), what)
            elif what == 'malformed':
                tb = batches.make([10 ** 7, 10 ** 7 + 1], style)
                tb.extra_info = {'x': 1.0}      # not a batch
                reject(lambda: buf.add(tb), what)
            else:
                reject(lambda: buf.sample(batch_size=len(held) + 1), what)
        elif op == 'same':
            if last_single is not None:
                with d.calling('exception', 'add to another buffer'):
                    other.add(last_single)
                check_contents()
        elif op == 'other':
            with d.calling('exception', 'another buffer'):
                other.add(batches.make([10 ** 6, 10 ** 6 + 1], style))
                other.sample(batch_size=1)
            check_contents()
        elif op == 'clear':
            d.fault('clear', len(held))
            with d.calling('exception', 'clear'):
                buf.clear()
            held = []
            check_contents()
        d.state(capacity, len(held), tag % 7)
    if len(held) > 2:
        n = d.int(1, len(held) - 1)
        counts = {t: 0 for t in held}
        for _ in range(60):
            for t in check_sample(n)[1]:
                counts[t] += 1
        # counts of sampling without replacement have smaller variance than multinomial ones, so this is conservative
        ok, pv = stats.multinomial_ok([counts[t] for t in held], [1 / len(held)] * len(held))
        d.check(ok, 'uniformity', lambda: f"draw counts {counts} are not uniform (p-value {pv:.1e})")
        d.probe('uniformity_test')
        check_contents()
    d.is_nontrivial = tag > capacity and d.sched_len > 6
