""" C22: Ornstein-Uhlenbeck noise against its recurrence, with several interleaved, copied, migrated and re-parametrised instances. """
import copy
import pickle
import random

import numpy as onp
import coax
from coax.utils import OrnsteinUhlenbeckNoise
from ..stats import normal_ok

SHAPES = [(), (1,), (2,), (3,), (2, 3)]


def arr(d, shape, pool, dtype):
    """ a scalar or an array that broadcasts with the action """
    if d.chance(0.4) and shape:
        return onp.array([d.pick(pool) for _ in range(int(onp.prod(shape)))], dtype=dtype).reshape(shape)
    return d.pick(pool)


MU, SIGMA, THETA = (0.0, 0.5, -1.0, 3.0), (1.0, 0.2, 0.01, 2.5, 0.0), (0.15, 0.5, 0.01, 0.9, 1.0, 0.0)
LO, HI = (-1.0, -2.0, -0.1, -0.5), (1.0, 0.2, 2.0, 0.0)


class Inst:
    """ one noise process, its probe (the white noise it has to use) and the reference state """
    def __init__(self, d, name):
        self.name = name
        self.shape = d.pick(SHAPES)
        self.dtype = d.pick(('float64', 'float32'))
        self.seed = d.int(0, 5)
        kw = {}
        if d.chance(0.7):
            kw['mu'] = arr(d, self.shape, MU, self.dtype)
        if d.chance(0.7):
            kw['sigma'] = arr(d, self.shape, SIGMA, self.dtype)
        if d.chance(0.7):
            kw['theta'] = arr(d, self.shape, THETA, self.dtype)
        if d.chance(0.6):
            kw['min_value'] = arr(d, self.shape, LO, self.dtype)
        if d.chance(0.6):
            kw['max_value'] = arr(d, self.shape, HI, self.dtype)
        self.noise = OrnsteinUhlenbeckNoise(random_seed=self.seed, **{k: copy.deepcopy(v) for k, v in kw.items()})
        self.probe = OrnsteinUhlenbeckNoise(mu=0.0, sigma=1.0, theta=1.0, random_seed=self.seed)
        self.p = dict(mu=0., sigma=1., theta=0.15, min_value=None, max_value=None)
        self.p.update(copy.deepcopy(kw))
        self.x = None
        d.event('new', name, self.shape, self.dtype, self.seed, sorted(kw))

    def white(self):
        return onp.asarray(self.probe(onp.zeros(self.shape, self.dtype)), dtype='float64')

    def advance(self, eps):
        p = {k: (v if v is None else onp.asarray(v, dtype='float64')) for k, v in self.p.items()}
        x = onp.broadcast_to(p['mu'], self.shape).astype('float64') if self.x is None else self.x
        self.x = x - p['theta'] * (x - p['mu']) + p['sigma'] * eps
        return self.x

    def clip(self, y):
        if self.p['min_value'] is not None:
            y = onp.maximum(y, self.p['min_value'])
        if self.p['max_value'] is not None:
            y = onp.minimum(y, self.p['max_value'])
        return y

    def clone(self, d, name):
        how = d.pick(('deepcopy', 'pickle', 'coax'))
        d.fault('process_migration', how)
        fn = {'deepcopy': copy.deepcopy, 'pickle': lambda o: pickle.loads(pickle.dumps(o)), 'coax': lambda o: coax.utils.loads(coax.utils.dumps(o))}[how]
        new = object.__new__(Inst)
        with d.calling('exception', how):
            new.noise = fn(self.noise)
        new.probe = pickle.loads(pickle.dumps(self.probe))
        new.name, new.shape, new.dtype, new.seed = name, self.shape, self.dtype, self.seed
        new.p, new.x = copy.deepcopy(self.p), copy.deepcopy(self.x)
        return new


def run(d):
    insts = [Inst(d, k) for k in range(d.int(1, 3))]
    whites, held = [], []
    disturbed = calls = 0
    for step in d.steps(6, 50):
        k = d.choose(len(insts))
        o = insts[k]
        what = d.weighted([('call', 30), ('reset', 4), ('set', 6), ('clone', 3), ('migrate', 2), ('global', 2)])
        d.sched(o.name, what)
        if what == 'call':
            kind = d.pick(('same', 'list', 'jax'))
            a = onp.array([d.pick((0.0, 0.3, -0.8, 1.5, 0.05)) for _ in range(int(onp.prod(o.shape)))], dtype=o.dtype).reshape(o.shape)
            arg = a.copy()
            if kind == 'list' and o.dtype == 'float64':
                arg = a.tolist()
            elif kind == 'jax' and o.dtype == 'float32':
                import jax.numpy as jnp
                arg = jnp.asarray(a)
            if isinstance(arg, onp.ndarray) and d.chance(0.3):
                arg.flags.writeable = False
            with d.calling('exception', f"call on {o.name}"):
                out = o.noise(arg)
            calls += 1
            with d.guard('noise', f"call on {o.name}"):
                eps = o.white()
                whites.append(eps.ravel())
                x = o.advance(eps)
                out_ = onp.asarray(out, dtype='float64')
                d.event('call', o.name, out_)
                d.check(onp.array_equal(onp.asarray(arg, dtype='float64'), a.astype('float64')), 'input-modified', f"the action given to {o.name} was modified")
                d.check(out_.shape == o.shape, 'noise', lambda: f"shape of the action changed from {o.shape} to {out_.shape}")
                for bound, sgn in ((o.p['min_value'], 1), (o.p['max_value'], -1)):
                    if bound is not None:
                        d.check(onp.all(sgn * out_ >= sgn * onp.asarray(bound, dtype='float64') - 1e-6), 'bounds',
                                lambda: f"{o.name}: action {out_} outside of the bounds [{o.p['min_value']}, {o.p['max_value']}]")
                exp = o.clip(a.astype('float64') + x)
                tol = 1e-9 if o.dtype == 'float64' else 2e-4
                d.check(onp.allclose(out_, exp, rtol=tol, atol=tol), 'noise',
                        lambda: f"{o.name}: action {a} became {out_}, expected {exp} (noise {x}, parameters {o.p})")
                o.x = resync(o, a.astype('float64'), out_)
            if isinstance(out, onp.ndarray):
                held.append((out, out.copy()))
                if d.chance(0.1) and out.flags.writeable:
                    d.fault('client_scribbles')     # a client that keeps and overwrites what it was given
                    out[...] = 17.0
                    held.pop()
        elif what == 'reset':
            with d.calling('exception', 'reset'):
                o.noise.reset()
                o.probe.reset()
            o.x = None
            disturbed += 1
        elif what == 'set':
            which = d.pick(('mu', 'sigma', 'theta', 'min_value', 'max_value'))
            pool = dict(mu=MU, sigma=SIGMA, theta=THETA, min_value=LO, max_value=HI)[which]
            if which in ('min_value', 'max_value') and o.p[which] is None:
                continue     # (documented through the constructor only)
            v = arr(d, o.shape, pool, o.dtype)
            setattr(o.noise, which, copy.deepcopy(v))
            o.p[which] = v
            d.event('set', o.name, which, v)
            disturbed += 1
        elif what == 'clone' and len(insts) < 5:
            new = o.clone(d, len(insts))
            insts.append(new)
            disturbed += 1
        elif what == 'migrate':
            insts[k] = o.clone(d, o.name)
            disturbed += 1
        elif what == 'global':
            d.fault('global_rng_reseed')
            onp.random.seed(d.int(0, 3))
            random.seed(d.int(0, 3))
        for a, b in held[-5:]:
            d.check(onp.array_equal(a, b), 'held-output', "an action returned earlier has changed")
        d.state(*[(i.name, i.shape, onp.round(i.x, 4) if i.x is not None else None) for i in insts])
    if whites:
        w = onp.concatenate(whites)
        if len(w) >= 20:      # (copies and instances with the same seed share their noise)
            d.check(len(onp.unique(w)) >= len(w) / 10, 'distribution', lambda: f"white noise does not vary: {len(onp.unique(w))} different values in {len(w)} draws")
        if len(w) >= 60:
            d.probe('normality_test')
            ok, p = normal_ok(onp.unique(w))   # copies share their future noise
            d.check(ok, 'distribution', lambda: f"white noise is not standard normal: p = {p}")
    d.is_nontrivial = calls >= 4 and disturbed > 0


def resync(o, a, out):
    """ float32 rounding must not accumulate in the reference: continue from the observed noise where it was not clipped """
    if o.dtype == 'float64':
        return o.x
    y = a + o.x
    lo = -onp.inf if o.p['min_value'] is None else onp.asarray(o.p['min_value'], dtype='float64')
    hi = onp.inf if o.p['max_value'] is None else onp.asarray(o.p['max_value'], dtype='float64')
    inside = (y > lo + 1e-3) & (y < hi - 1e-3)
    return onp.where(inside, out - a, o.x)
