""" Reference model of the prioritized replay buffer and a multi-client driver (used by C07 and C08). """
import numpy as onp

from .. import batches


class Model:
    def __init__(self, d, buffer, capacity, alpha, beta, epsilon, style):
        self.d = d
        self.buffer = buffer
        self.capacity = capacity
        self.alpha, self.beta, self.epsilon = alpha, beta, epsilon
        self.style = style
        self.held = []          # tags, oldest first
        self.base = {}          # tag -> |Adv| + epsilon (at the time the advantage was given)
        self.w0 = {}            # tag -> stored weight
        self.id_of = {}         # tag -> id, as observed
        self.tag_by_id = {}     # id -> tag, over the whole life of the buffer

    def add(self, tags, advs):
        for t, a in zip(tags, advs):
            self.held.append(t)
            self.base[t] = abs(float(a)) + self.epsilon
            self.w0[t] = float(batches.content(t, self.style)['W'])
        dropped = self.held[:-self.capacity] if len(self.held) > self.capacity else []
        self.held = self.held[-self.capacity:]
        for t in dropped:
            self.forget(t)

    def forget(self, t):
        self.base.pop(t, None)
        self.w0.pop(t, None)

    def clear(self):
        for t in self.held:
            self.forget(t)
        self.held = []

    def update(self, ids, advs):
        hit = 0
        for i, a in zip(ids, advs):
            t = self.tag_by_id.get(int(i))
            if t is not None and t in self.base:
                self.base[t] = abs(float(a)) + self.epsilon
                hit += 1
        return hit

    def priorities(self):
        return {t: self.base[t] ** self.alpha for t in self.held}

    # -- oracle --------------------------------------------------------------------------------- #

    def check_contents(self):
        d, buf = self.d, self.buffer
        with d.guard('contents', 'iterating over the buffer'):
            n = len(buf)
            items = list(buf)
            d.check(n == len(self.held), 'length', lambda: f"len(buffer) is {n}, expected {len(self.held)}")
            d.check(bool(buf) == bool(self.held), 'length', "bool(buffer) does not match its length")
            d.check(len(items) == n, 'contents', lambda: f"iteration yields {len(items)} items, len is {n}")
            seen = []
            for item in items:
                d.check(item is not None, 'contents', "iteration yields an empty slot")
                d.check(item.batch_size == 1, 'contents', "iteration yields a non-single transition")
                tag = batches.tag_of(item, 0)
                seen.append(tag)
                self.check_row(item, 0, tag, weight=True)
            d.check(sorted(seen) == sorted(self.held), 'contents',
                    lambda: f"buffer holds tags {sorted(seen)}, expected {sorted(self.held)}")

    def check_row(self, batch, i, tag, weight=False):
        d = self.d
        d.check(tag in self.base, 'contents', lambda: f"tag {tag} is not held (held: {self.held})")
        bad = batches.mismatch(batch, i, tag, self.style, skip=() if weight else ('W',))
        d.check(bad is None, 'contents', lambda: f"field {bad} of transition {tag} was modified")
        ident = int(onp.asarray(batch.idx)[i])
        if tag not in self.id_of:
            d.check(ident not in self.tag_by_id, 'ids',
                    lambda: f"id {ident} of transition {tag} was already used for {self.tag_by_id.get(ident)}")
            self.id_of[tag] = ident
            self.tag_by_id[ident] = tag
        d.check(self.id_of[tag] == ident, 'ids', lambda: f"id of transition {tag} changed from {self.id_of[tag]} to {ident}")

    def check_sample(self, batch, n, rtol=2e-4):
        d = self.d
        with d.guard('sample', 'inspecting a sample'):
            d.check(batch.batch_size == n, 'sample', lambda: f"requested {n} transitions, got {batch.batch_size}")
            tags = [batches.tag_of(batch, i) for i in range(n)]
            if n <= 50:
                for i, t in enumerate(tags):
                    self.check_row(batch, i, t)
            else:
                rows = {}
                for i, t in enumerate(tags):
                    rows.setdefault((t, int(onp.asarray(batch.idx)[i])), i)
                for (t, _), i in rows.items():
                    self.check_row(batch, i, t)
                bad = batches.mismatch_all(batch, tags, self.style)
                d.check(bad is None, 'contents', lambda: f"field {bad} of a sampled transition was modified")
            p = self.priorities()
            total = sum(p.values())
            raw = onp.array([(len(self.held) * p[t] / total) ** -self.beta for t in tags])
            expected = raw / raw.max() * onp.array([self.w0[t] for t in tags])
            W = onp.asarray(batch.W, dtype='float64')
            d.check(W.shape == (n,) and onp.allclose(W, expected, rtol=rtol, atol=1e-12), 'weights',
                    lambda: f"importance weights of {tags} are {W}, expected {expected}")
            return tags


def advantage(d, wide=False):
    """ exactly representable in float32 """
    u = d.choose(66)
    if u >= 64:
        return (0.0, 1e-6)[u - 64]
    if wide:
        return float(onp.float32((1, -1)[u % 2] * (u + 1) * 10. ** d.int(-3, 3)))
    return float(onp.float32((1, -1)[u % 2] * (0.125 + u / 8)))


def run_large(d, anneal, coax, stats):
    """ the same properties at a size that real trainings use (vectorised checks against the same reference table) """
    capacity = d.int(300, 4000)
    alpha = d.pick((1.0, 0.6, 0.4)) if anneal else 1.0
    beta = d.pick((1.0, 0.4)) if anneal else 1.0
    epsilon = d.pick((1e-4, 0.01))
    style = d.pick((0, 1))
    rng = onp.random.RandomState(d.choose(1 << 16))
    buf = coax.experience_replay.PrioritizedReplayBuffer(capacity, alpha=alpha, beta=beta, epsilon=epsilon, random_seed=d.int(0, 99))
    m = Model(d, buf, capacity, alpha, beta, epsilon, style)
    d.event('config', capacity, alpha, beta, epsilon)
    d.probe('large')
    tag, inflight, late = 0, [], 0

    def advs(n):
        return onp.asarray(rng.choice([-1, 1], n) * rng.gamma(0.7, 2.0, n) + 0.01, dtype='float32')

    def contents():
        with d.guard('contents', 'iterating over the buffer'):
            d.check(len(buf) == len(m.held), 'length', lambda: f"len(buffer) is {len(buf)}, expected {len(m.held)}")
            seen = {batches.tag_of(x, 0): int(onp.asarray(x.idx)[0]) for x in buf}
            d.check(sorted(seen) == m.held, 'contents', lambda: f"the buffer does not hold the last {len(m.held)} transitions")
            for t, i in seen.items():
                d.check(m.id_of.get(t, i) == i and m.tag_by_id.get(i, t) == t, 'ids', lambda: f"id {i} of transition {t} changed or was reused")
                m.id_of[t], m.tag_by_id[i] = i, t

    def sample(n):
        with d.calling('exception', 'sample'):
            tb = buf.sample(batch_size=n)
        with d.guard('sample', 'inspecting a sample'):
            d.check(tb.batch_size == n, 'sample', lambda: f"requested {n} transitions, got {tb.batch_size}")
            tags = batches.tags_of(tb)
            d.check(set(tags) <= set(m.base), 'sample', "sample contains transitions that are not held")
            bad = batches.mismatch_all(tb, tags, style)
            d.check(bad is None, 'sample', lambda: f"field {bad} was modified")
            ids = onp.asarray(tb.idx)
            d.check(all(m.id_of[t] == i for t, i in zip(tags, ids.tolist())), 'ids', "sample carries wrong ids")
            base = onp.array([m.base[t] for t in m.held])
            total = (base ** m.alpha).sum()
            p = onp.array([m.base[t] for t in tags]) ** m.alpha / total
            raw = (len(m.held) * p) ** -m.beta
            expected = raw / raw.max() * onp.array([m.w0[t] for t in tags])
            W = onp.asarray(tb.W, dtype='float64')
            bad = onp.flatnonzero(~onp.isclose(W, expected, rtol=2e-3))
            d.check(W.shape == (n,) and bad.size == 0, 'weights',
                    lambda: f"importance weights are wrong, e.g. of transition {tags[bad[0]]}: {W[bad[0]]}, expected {expected[bad[0]]}")
        return tags, ids

    for step in d.steps(4, 16):
        op = d.weighted([('fill', 5), ('add', 4), ('sample', 5), ('update', 6), ('anneal', 3 if anneal else 0), ('clear', 1)])
        d.sched('large', op)
        if op in ('fill', 'add') or not m.held:
            n = int(rng.randint(100, 1200)) if op == 'fill' else d.int(1, 7)
            tags, a = list(range(tag, tag + n)), advs(n)
            tag += n
            with d.calling('exception', 'add'):
                buf.add(batches.make(tags, style), a)
            m.add(tags, a)
            contents()
        elif op == 'sample':
            inflight.append(sample(int(rng.randint(1, 600)))[1])
        elif op == 'update' and inflight:
            ids = onp.unique(inflight.pop(d.choose(len(inflight))))
            rng.shuffle(ids)
            a = advs(ids.size)
            with d.calling('exception', 'update'):
                buf.update(ids, a)
            if m.update(ids, a) < ids.size:
                d.fault('late_update')
                late += 1
        elif op == 'anneal':
            new = min(max(m.alpha * d.pick((0.8, 1.3, 0.5)), 0.2), 1.5)
            with d.calling('exception', 'alpha'):
                buf.alpha = new
            m.alpha = float(buf.alpha)
            d.check(abs(m.alpha - new) <= 0.0101 * max(m.alpha, new), 'alpha', lambda: f"alpha was set to {new} but reads {m.alpha}")
        elif op == 'clear':
            d.fault('clear', len(m.held))
            with d.calling('exception', 'clear'):
                buf.clear()
            m.clear()
            contents()
        if m.held:
            sample(64)
        d.event(op, len(m.held), tag)
        d.state('large', capacity, len(m.held), len(inflight))
    contents()
    if len(m.held) > 50:
        tags, _ = sample(4000)
        base = onp.array([m.base[t] for t in m.held]) ** m.alpha
        pos = {t: i for i, t in enumerate(m.held)}
        counts = onp.bincount([pos[t] for t in tags], minlength=len(m.held))
        ok, pv = stats.multinomial_ok(counts, base / base.sum())
        d.check(ok, 'frequencies', lambda: f"empirical frequencies of {len(m.held)} transitions do not follow the priorities (p-value {pv:.1e})")
        cell = onp.arange(len(m.held)) * 20 // len(m.held)
        ok, pv = stats.multinomial_ok(onp.bincount(cell, counts), onp.bincount(cell, base) / base.sum())
        d.check(ok, 'frequencies', lambda: f"frequencies by age do not follow the priorities (p-value {pv:.1e})")
        d.probe('frequency_test')
    d.is_nontrivial = tag > capacity and late > 0
