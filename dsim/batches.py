""" Transition batches whose whole content is a function of a unique tag, so that any mix-up is visible. """
import numpy as onp
from coax.reward_tracing import TransitionBatch

FIELDS = ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W')


def content(tag, style=0):
    """ content of the transition with the given tag, as a dict of single values """
    tag = int(tag)
    c = dict(
        S=onp.array([tag, tag % 7, -tag], dtype='float64'),
        A=tag % 5,
        logP=-(tag % 11) / 7.,
        Rn=tag * 0.5 - 3.,
        In=0.9 ** (tag % 4) * (tag % 3 != 0),
        S_next=onp.array([tag + 0.5, tag % 7, -tag], dtype='float64'),
        A_next=(tag + 1) % 5,
        logP_next=-(tag % 13) / 7.,
        W=1.0 + (tag % 3 if style & 1 else 0),
    )
    if style & 2:
        c['S'] = {'x': c['S'], 'y': (onp.array(tag), onp.array([tag + 1.]))}
        c['S_next'] = {'x': c['S_next'], 'y': (onp.array(tag + 2), onp.array([tag + 3.]))}
    if style & 4:
        c['A_next'] = None
        c['logP_next'] = None
    if style & 8:
        c['extra_info'] = {'states': (onp.array([tag * 1.]), onp.array([tag * 2.]))}
    return c


def _stack(items):
    x = items[0]
    if x is None:
        return None
    if isinstance(x, dict):
        return {k: _stack([i[k] for i in items]) for k in x}
    if isinstance(x, tuple):
        return tuple(_stack([i[j] for i in items]) for j in range(len(x)))
    return onp.stack([onp.asarray(i) for i in items])


def make(tags, style=0, readonly=False):
    cs = [content(t, style) for t in tags]
    kw = {k: _stack([c[k] for c in cs]) for k in cs[0]}
    if readonly:
        _freeze(kw)
    return TransitionBatch(**kw)


def _freeze(x):
    if isinstance(x, dict):
        for v in x.values():
            _freeze(v)
    elif isinstance(x, tuple):
        for v in x:
            _freeze(v)
    elif isinstance(x, onp.ndarray):
        x.flags.writeable = False


def scribble(x):
    """ what a careless consumer might do with a batch it received """
    if isinstance(x, TransitionBatch):
        for k in x.__slots__:
            scribble(getattr(x, k))
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)
    elif isinstance(x, onp.ndarray) and x.flags.writeable:
        x[...] = 77


def rebind(tb):
    """ what a writer might do with a batch object it has already handed over """
    for k in ('S', 'A', 'Rn', 'In', 'W', 'idx'):
        setattr(tb, k, onp.full((tb.batch_size,), 88.))


def row(x, i):
    if x is None:
        return None
    if isinstance(x, dict):
        return {k: row(v, i) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return tuple(row(v, i) for v in x)
    return onp.asarray(x)[i]


def tag_of(batch, i):
    S = batch.S['x'] if isinstance(batch.S, dict) else batch.S
    return int(round(float(onp.asarray(S)[i][0])))


def same(a, b, rtol=1e-6):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k], rtol) for k in b)
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    a, b = onp.asarray(a, dtype='float64'), onp.asarray(b, dtype='float64')
    return a.shape == b.shape and bool(onp.allclose(a, b, rtol=rtol, atol=1e-9, equal_nan=True))


def mismatch(batch, i, tag, style=0, skip=('W',)):
    """ name of a field of row i that differs from the content of the given tag, or None """
    c = content(tag, style)
    for k in c:
        if k in skip:
            continue
        if not same(row(getattr(batch, k), i), c[k]):
            return k
    return None


def tags_of(batch):
    S = batch.S['x'] if isinstance(batch.S, dict) else batch.S
    return [int(t) for t in onp.round(onp.asarray(S, dtype='float64')[:, 0])]


def mismatch_all(batch, tags, style=0, skip=('W',)):
    """ name of a field of the batch that differs from the content of the given tags, or None (vectorised) """
    cs = [content(t, style) for t in tags]
    for k in cs[0]:
        if k not in skip and not same(getattr(batch, k), _stack([c[k] for c in cs])):
            return k
    return None
