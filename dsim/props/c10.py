""" C10: segment trees equal a flat array, under interleaved batched writes, queries and rejected calls of several clients. """
import numpy as onp
import coax

KINDS = {
    'sum': (lambda c, s: coax.utils.SumTree(c, random_seed=s), onp.add, 0.0),
    'min': (lambda c, s: coax.utils.MinTree(c), onp.minimum, float('inf')),
    'max': (lambda c, s: coax.utils.MaxTree(c), onp.maximum, -float('inf')),
    'prod': (lambda c, s: coax.utils.SegmentTree(c, onp.multiply, 1.0), onp.multiply, 1.0),
}


def run_large(d):
    """ the same property at capacities that real trainings use, with large batches """
    kind = d.pick(('sum', 'min', 'max'))
    capacity = d.int(200, 6000) if not d.chance(0.2) else d.int(8000, 40000)
    make, op, unit = KINDS[kind]
    rng = onp.random.RandomState(d.choose(1 << 16))
    T = dict(kind=kind, tree=make(capacity, d.int(0, 9)), op=op, unit=unit, capacity=capacity, flat=onp.full(capacity, unit))
    tree, flat = T['tree'], T['flat']
    d.event('tree', kind, capacity)
    d.probe('large')
    writes = 0
    for step in d.steps(4, 14):
        what = d.weighted([('set', 6), ('range', 5), ('cdf', 5), ('reject', 1)])
        d.sched('large', kind, what)
        if what == 'set':
            n = int(rng.randint(1, 2 * capacity))
            idx = rng.randint(0, capacity, n)
            if d.chance(0.3):
                idx = onp.arange(idx[0], min(idx[0] + n, capacity))     # a contiguous block
            per_leaf = onp.round(rng.gamma(0.5, 10., capacity) * (rng.rand(capacity) > 0.1), 3)
            values = per_leaf[idx]
            with d.calling('exception', 'set_values'):
                tree.set_values(idx, values)
            flat[idx] = values
            writes += 1
            check_all(d, T)
        elif what == 'range':
            start = rng.randint(0, capacity, 200)
            stop = start + 1 + (rng.rand(200) ** 2 * (capacity - start)).astype(int)
            stop = onp.minimum(stop, capacity)
            expected = onp.array([reduce_(T, i, j) for i, j in zip(start, stop)])
            with d.calling('exception', 'partial_reduce'):
                got = tree.partial_reduce(start, stop)
            with d.guard('range'):
                got = onp.asarray(got, dtype='float64').ravel()
                bad = onp.flatnonzero(~onp.isclose(got, expected, rtol=1e-9, atol=1e-9))
                d.check(got.shape == expected.shape and bad.size == 0, 'range',
                        lambda: f"capacity {capacity}: partial_reduce({start[bad[0]]}, {stop[bad[0]]}) is {got[bad[0]]}, expected {expected[bad[0]]}")
        elif what == 'cdf' and kind == 'sum' and flat.sum() > 0:
            cum = onp.concatenate([[0.0], onp.cumsum(flat)]) / flat.sum()
            us = onp.concatenate([rng.rand(300), rng.choice(cum, 50), [0.0, 1.0, onp.nextafter(1.0, 0.0)]]).clip(0, 1)
            with d.calling('exception', 'inverse_cdf'):
                got = tree.inverse_cdf(us)
            with d.guard('cdf'):
                got = onp.asarray(got)
                d.check(got.shape == us.shape and bool(onp.all((0 <= got) & (got < capacity))), 'cdf', "malformed result")
                d.check(bool(onp.all(flat[got] > 0)), 'mass', f"capacity {capacity}: a leaf without mass was looked up")
                d.check(bool(onp.all((cum[got] - 1e-9 <= us) & (us <= cum[got + 1] + 1e-9))), 'cdf', f"capacity {capacity}: wrong leaf")
            with d.calling('exception', 'sample'):
                got = onp.asarray(tree.sample(500))
            d.check(got.shape == (500,) and bool(onp.all(flat[got] > 0)), 'mass', "sampled a leaf without mass")
        elif what == 'reject':
            d.fault('rejected_call', 'high')
            idx = rng.randint(0, capacity, 50)
            idx[d.choose(50)] = capacity + d.choose(3)
            try:
                tree.set_values(idx, onp.ones(50))
            except Exception as e:
                d.event('rejected', type(e).__name__)
            else:
                d.violate('not-rejected', "an index beyond the capacity was accepted")
            check_all(d, T)
        d.event(what, float(tree.root_value))
        d.state('large', kind, capacity, writes)
    check_all(d, T)
    d.is_nontrivial = writes > 1


def run(d):
    if d.chance(0.02):
        return run_large(d)
    trees = []
    for k in range(d.int(1, 2)):
        kind = d.pick(('sum', 'min', 'max', 'prod'))
        capacity = d.pick((1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 21, 32, 33))
        make, op, unit = KINDS[kind]
        tree = make(capacity, d.int(0, 9))
        trees.append(dict(kind=kind, tree=tree, op=op, unit=unit, capacity=capacity, flat=onp.full(capacity, unit)))
        d.event('tree', kind, capacity)
    writes = 0
    for step in d.steps(4, 40):
        client = d.choose(3)
        T = trees[d.choose(len(trees))]
        c = T['capacity']
        what = d.weighted([('set', 8), ('range', 6), ('root', 2), ('levels', 2), ('cdf', 5), ('reject', 3), ('sample', 1)])
        d.sched(client, T['kind'], what)
        if what == 'set':
            n = d.int(1, min(8, 2 * c))
            form = d.pick(('array', 'array', 'list', 'int', 'ellipsis', 'negative', 'dups'))
            values = onp.array([value(d, T) for _ in range(n)])
            if form == 'int':
                idx = d.choose(c)
                values = values[:1]
                where = [idx]
            elif form == 'ellipsis':
                values = onp.array([value(d, T) for _ in range(c)])
                idx, where = ..., list(range(c))
            else:
                where = [d.choose(c) for _ in range(n)]
                if form != 'dups':
                    where = list(dict.fromkeys(where))
                    values = values[:len(where)]
                else:
                    byidx = {}
                    values = onp.array([byidx.setdefault(w, v) for w, v in zip(where, values)])
                if form == 'negative':
                    where = [w - c if d.chance(0.5) else w for w in where]
                    # no index twice through its alias
                    if len({w % c for w in where}) != len(where):
                        where, values = where[:1], values[:1]
                idx = where if form == 'list' else onp.array(where, dtype=d.pick(('int64', 'int32')))
            if d.chance(0.2):
                values = values[0]   # scalar broadcast
            d.event('set', T['kind'], idx if idx is not ... else '...', values)
            with d.calling('exception', f"set_values({idx}, {values})"):
                T['tree'].set_values(idx, values)
            T['flat'][onp.array(where)] = values
            writes += 1
            if d.chance(0.5):
                check_all(d, T)
        elif what == 'range':
            n = d.int(1, 5)
            start = onp.array([d.choose(c) for _ in range(n)])
            stop = onp.array([d.int(s + 1, c) for s in start])
            form = d.pick(('array', 'scalar', 'open', 'broadcast', 'negative', 'all', 'keyword'))
            if form == 'scalar':
                args = (int(start[0]), int(stop[0]))
                start, stop = start[:1], stop[:1]
            elif form == 'open':
                args = (start,)
                stop = onp.full_like(start, c)
            elif form == 'broadcast':
                args = (0, stop)
                start = onp.zeros_like(stop)
            elif form == 'negative':
                # count from the end, like a slice; the end itself has no negative index
                args = (onp.array([s - c if d.chance(0.5) else s for s in start.tolist()]), onp.array([s - c if s < c and d.chance(0.5) else s for s in stop.tolist()]))
            elif form == 'all':
                args, start, stop = (), onp.array([0]), onp.array([c])
            elif form == 'keyword':
                args, start = (stop,), onp.zeros_like(stop)
            else:
                args = (start, stop)
            expected = onp.array([reduce_(T, i, j) for i, j in zip(start, stop)])
            with d.calling('exception', f"partial_reduce{args} capacity={c}"):
                got = T['tree'].partial_reduce(stop=args[0]) if form == 'keyword' else T['tree'].partial_reduce(*args)
            with d.guard('range'):
                got = onp.asarray(got, dtype='float64').ravel()
                d.event('range', T['kind'], start, stop, got)
                d.check(got.shape == expected.shape and close(got, expected), 'range',
                        lambda: f"partial_reduce{args} is {got}, expected {expected}, values {T['flat']}")
        elif what == 'root':
            check_root(d, T)
        elif what == 'levels':
            check_all(d, T)
        elif what in ('cdf', 'sample'):
            if T['kind'] != 'sum':
                continue
            total = T['flat'].sum()
            if total <= 0:
                try:
                    T['tree'].inverse_cdf(0.5) if what == 'cdf' else T['tree'].sample(1)
                except Exception as e:
                    d.event('rejected', 'empty', type(e).__name__)
                else:
                    d.violate('not-rejected', "lookup in a tree without mass was accepted")
                continue
            if what == 'sample':
                with d.calling('exception', 'sample'):
                    idx = T['tree'].sample(d.int(1, 6))
                for i in onp.asarray(idx).ravel().tolist():
                    d.check(0 <= i < c and T['flat'][i] > 0, 'mass', lambda: f"sampled index {i} carries no mass: {T['flat']}")
                d.event('sample', idx)
                continue
            cum = onp.concatenate([[0.0], onp.cumsum(T['flat'])]) / total
            us = []
            for _ in range(d.int(1, 4)):
                how = d.pick(('unit', 'edge', 'zero', 'one', 'almost-one', 'above-edge'))
                u = d.unit()
                if how == 'edge':
                    u = float(cum[d.choose(c + 1)])
                elif how == 'above-edge':
                    u = float(onp.nextafter(cum[d.choose(c + 1)], d.pick((0.0, 2.0))))
                elif how == 'zero':
                    u = 0.0
                elif how == 'one':
                    u = 1.0
                elif how == 'almost-one':
                    u = float(onp.nextafter(1.0, 0.0))
                us.append(min(max(u, 0.0), 1.0))
                if how in ('one', 'almost-one'):
                    d.probe('cdf_upper_end')
            form = d.pick(('array', 'scalar', 'list'))
            if form == 'scalar':
                us = us[:1]
                arg = us[0]
            else:
                arg = onp.array(us) if form == 'array' else us
            with d.calling('exception', f"inverse_cdf({arg})"):
                got = T['tree'].inverse_cdf(arg)
            with d.guard('cdf'):
                got = onp.asarray(got).ravel()
                d.check(got.shape == (len(us),), 'cdf', "wrong shape")
                d.event('cdf', us, got)
                for u, i in zip(us, got.tolist()):
                    d.check(0 <= i < c and T['flat'][i] > 0, 'mass',
                            lambda: f"inverse_cdf({u!r}) = {i}, which carries no mass: values {T['flat']}")
                    d.check(cum[i] - 1e-9 <= u <= cum[i + 1] + 1e-9, 'cdf',
                            lambda: f"inverse_cdf({u!r}) = {i}, but its interval is [{cum[i]}, {cum[i + 1]}]")
        elif what == 'reject':
            how = d.pick(('high', 'low', 'float', '2d', 'range', 'range-empty', 'range-high', 'range-type', 'shape', 'u', 'n', 'level', 'level-type', 'level-index'))
            d.fault('rejected_call', how)
            t = T['tree']
            calls = {
                'high': lambda: t.set_values(onp.array([0, c]), onp.array([5., 6.])),
                'low': lambda: t.set_values(onp.array([-c - 1]), onp.array([5.])),
                'float': lambda: t.set_values(onp.array([0.5]), onp.array([5.])),
                '2d': lambda: t.set_values(onp.array([[0]]), onp.array([[5.]])),
                'shape': lambda: t.set_values(onp.array([0, 0, 0]) % c, onp.array([5., 6.])),
                'range': lambda: t.partial_reduce(1, 1) if c > 1 else t.partial_reduce(0.5),
                'range-empty': lambda: t.partial_reduce(*d.pick(((0, 0), (c, c), (onp.array([0, 0]), onp.array([1, 0])), (c,), (-1, 0)))),
                'range-high': lambda: t.partial_reduce(*d.pick(((0, c + 1), (c + 1,), (c, c + 1), (0, onp.array([1, c + 2])), (-c - 1, 1), (0, -c)))),
                'range-type': lambda: t.partial_reduce('a'),
                'u': lambda: t.inverse_cdf(1.5) if T['kind'] == 'sum' else t[99],
                'n': lambda: t.sample(0) if T['kind'] == 'sum' else t[99],
                'level': lambda: t[d.pick((t.height, -t.height - 1, (t.height, 0)))],
                'level-type': lambda: t[d.pick((0.5, 'a', (0, 0, 0), None))],
                'level-index': lambda: t[0, 1],
            }
            try:
                calls[how]()
            except Exception as e:
                d.event('rejected', how, type(e).__name__)
            else:
                d.violate('not-rejected', f"invalid call was accepted: {how} (capacity {c})")
            check_all(d, T)
        d.state(T['kind'], c, onp.round(T['flat'], 6))
    for T in trees:
        check_all(d, T)
    d.is_nontrivial = writes >= 2 and d.sched_len >= 5


def value(d, T):
    if T['kind'] == 'sum':
        return d.pick((0.0, 1.0, 2.0, 0.25, 7.0, 1e-6, 1e6, 0.1, 0.3))
    if T['kind'] == 'prod':
        return d.pick((1.0, 2.0, 0.5, -1.0, 0.0, 3.0))
    return d.pick((0.0, 1.0, -1.0, 5.0, -7.5, 100.0, T['unit']))


def close(a, b):
    return bool(onp.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True))


def reduce_(T, i, j):
    return T['op'].reduce(T['flat'][i:j], initial=T['unit'])


def check_root(d, T):
    with d.guard('root'):
        got, exp = float(T['tree'].root_value), reduce_(T, 0, T['capacity'])
        d.check(close(got, exp), 'root', lambda: f"root is {got}, expected {exp}, values {T['flat']}")


def check_all(d, T):
    check_root(d, T)
    t, c = T['tree'], T['capacity']
    with d.guard('levels'):
        vals = onp.array(t.values)
        d.check(vals.shape == (c,) and close(vals, T['flat']), 'values', lambda: f"values are {vals}, expected {T['flat']}")
        h = t.height
        padded = onp.full(2 ** (h - 1), T['unit'])
        padded[:c] = T['flat']
        for level in range(h - 1, -1, -1):
            got = onp.array(t[level])
            exp = padded.reshape(2 ** level, -1)
            exp = T['op'].reduce(exp, axis=1, initial=T['unit'])[:min(2 ** level, c)]
            d.check(got.shape == exp.shape and close(got, exp), 'levels', lambda: f"level {level} is {got}, expected {exp}")
            for how, x in (('from the end', t[level - h]), ('tuple', t[level,]), ('slice', t[level, :]), ('index', t[level, onp.arange(len(exp))])):
                d.check(onp.shape(x) == exp.shape and close(x, exp), 'levels', lambda: f"level {level} ({how}) is {x}, expected {exp}")
            d.check(close(t[level, len(exp) - 1], exp[-1]) and close(t[level, 0], exp[0]), 'levels', lambda: f"level {level}: {t[level, 0]} ... {t[level, len(exp) - 1]}, expected {exp}")
