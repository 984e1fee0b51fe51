""" C11: reward tracers emit each step once with the right n-step return. """
import copy
import pickle

import cloudpickle
import numpy as onp

import coax


class Model:
    def __init__(self, ident, kind, n, gamma):
        self.ident = ident
        self.kind = kind
        self.n = n
        self.gamma = gamma
        self.episode = 0
        self.steps = []       # all steps of the current episode
        self.emitted = set()  # indices of steps that were emitted
        self.done = False

    @property
    def pending(self):
        return [i for i in range(len(self.steps)) if i not in self.emitted]

    def available(self):
        if self.kind == 'mc':
            return self.pending if self.done else []
        return [i for i in self.pending if self.done or i + self.n < len(self.steps)]

    def expected(self, i):
        n = self.n if self.kind == 'nstep' else len(self.steps)
        rs = [s['r'] for s in self.steps]
        T = len(rs)
        rn = 0.0
        for k in range(min(n, T - i)):
            rn += self.gamma ** k * rs[i + k]
        boot = self.kind == 'nstep' and i + n < T
        return rn, boot

    def reset(self):
        self.steps, self.emitted, self.done = [], set(), False
        self.episode += 1


def leaf(x, i):
    if isinstance(x, dict):
        return {k: leaf(v, i) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(leaf(v, i) for v in x)
    return onp.asarray(x)[i]


def same(x, y):
    if isinstance(y, dict):
        return isinstance(x, dict) and set(x) == set(y) and all(same(x[k], y[k]) for k in y)
    if isinstance(y, tuple):
        return isinstance(x, tuple) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return onp.shape(x) == onp.shape(y) and onp.allclose(onp.asarray(x, 'float64'), onp.asarray(y, 'float64'), rtol=1e-5, atol=1e-6)


class Sim:
    def __init__(self, d, ident, long=False):
        self.d = d
        self.p_done = 0.004 if long else d.pick((0.2, 0.05))
        self.p_add = 40 if long else 10
        self.hoard = long and d.chance(0.4)      # nothing is taken out before the end
        kind = d.weighted([('nstep', 3), ('mc', 1)])
        n = d.pick((1, 2, 3, 4, 5, 7, 12)) if not long else d.pick((1, 5, 20, 33, 64, 100))
        gamma = d.pick((0.9, 1.0, 0.5, 0.99, 0.0))
        self.m = Model(ident, kind, n, gamma)
        self.extra = kind == 'nstep' and d.chance(0.2)
        self.t = (coax.reward_tracing.NStep(n, gamma, **({'record_extra_info': True} if self.extra else {})) if kind == 'nstep'
                  else coax.reward_tracing.MonteCarlo(gamma))
        self.style = d.choose(4)
        self.density = d.pick((0, 0, 8))         # the log of a density may be positive
        self.defaults = d.chance(0.1)            # propensities and weights are left out
        d.event('tracer', ident, kind, n, gamma, self.style)

    def step(self, done):
        d, m = self.d, self.m
        i = len(m.steps)
        tag = m.ident * 1000003 + m.episode * 1009 + i
        s = onp.array([m.ident, m.episode, i], 'float64')
        if self.style == 1:
            s = {'a': s, 'b': (onp.array([tag * 1.0]),)}
        elif self.style == 2:
            s = (s, onp.full((2, 2), i))
        a = onp.array([tag % 13 / 7., i]) if self.style == 3 else int(tag % 11)
        r = d.pick((1.0, 0.0, -2.5, 0.125, 100.0, 3, -7.0)) + (i % 3)
        logp = (self.density - tag % 17) / 5.
        if self.style == 3:
            logp = onp.asarray(logp)
        w = 1.0 + tag % 4
        if self.defaults:
            logp, w = 0.0, 1.0
        return dict(s=s, a=a, r=r, logp=logp, w=w, done=done)

    def check_shape(self):
        d, m, t = self.d, self.m, self.t
        d.check(len(t) == len(m.pending), 'length', f"{len(t)} pending steps, expected {len(m.pending)}")
        d.check(bool(t) == bool(m.available()), 'availability',
                f"tracer says {'available' if t else 'nothing available'}; {len(m.pending)} of {len(m.steps)} steps pending, done={m.done}, n={m.n}")

    def check_emitted(self, tb, k):
        d, m = self.d, self.m
        with d.guard('malformed', 'emitted transition'):
            s = leaf(tb.S, k)
            x = s['a'] if self.style == 1 else s[0] if self.style == 2 else s
            ident, ep, i = (int(v) for v in x)
        d.check((ident, ep) == (m.ident, m.episode), 'mix-up', f"emitted a step of tracer {ident} episode {ep}; expected {m.ident}, {m.episode}")
        d.check(i not in m.emitted, 'duplicate', f"step {i} was emitted twice")
        d.check(i in m.available(), 'premature', f"step {i} was emitted before its return was known")
        st = m.steps[i]
        rn, boot = m.expected(i)
        with d.guard('malformed', 'emitted transition'):
            got = dict(s=s, a=leaf(tb.A, k), logp=leaf(tb.logP, k), w=leaf(tb.W, k), rn=leaf(tb.Rn, k), In=leaf(tb.In, k))
        want = dict(s=st['s'], a=st['a'], logp=st['logp'], w=st['w'], rn=rn, In=m.gamma ** m.n if boot else 0.0)
        for f, v in want.items():
            d.check(same(got[f], v), f'content-{f}', f"step {i} of {len(m.steps)} (n={m.n}, gamma={m.gamma}): {f} is {got[f]}, expected {v}")
        if boot:
            nx = m.steps[i + m.n]
            with d.guard('malformed', 'bootstrap state'):
                got = dict(s=leaf(tb.S_next, k), a=leaf(tb.A_next, k), logp=leaf(tb.logP_next, k))
            for f in got:
                d.check(same(got[f], nx[f]), f'bootstrap-{f}', f"step {i}: next {f} is {got[f]}, expected that of step {i + m.n}: {nx[f]}")
            d.probe('bootstrapped')
        if self.extra:
            T = len(m.steps)
            with d.guard('malformed', 'extra info'):
                for j in range(m.n + 1):
                    info = {f: leaf(tb.extra_info[key][j], k) for f, key in
                            (('s', 'states'), ('a', 'actions'), ('r', 'rewards'), ('logp', 'log_props'), ('w', 'weights'), ('done', 'dones'))}
                    over = i + j >= T or (i + j == T - 1 and m.done)
                    d.check(bool(info['done']) == over, 'extra-done', f"step {i} of {T}: extra info says done={info['done']} {j} steps later")
                    if i + j < T:
                        for f in ('s', 'a', 'r', 'logp', 'w'):
                            d.check(same(info[f], m.steps[i + j][f]), f'extra-{f}', f"step {i}: extra info has {f}={info[f]} {j} steps later")
            d.probe('extra_info')
        m.emitted.add(i)

    def finish(self):
        m = self.m
        if m.done and not m.pending:
            m.reset()

    def act(self):
        d, m, t = self.d, self.m, self.t
        op = d.weighted([('add', self.p_add), ('pop', 0 if self.hoard else 5), ('flush', 0 if self.hoard else 3), ('snapshot', 1 if self.hoard else 3),
                         ('reset', 0 if self.hoard else 1), ('badadd', 1), ('badpop', 0 if self.hoard else 1)])
        d.sched(m.ident, op)
        if op == 'badadd' and not (m.done and m.pending):
            op = 'add'
        if op == 'add' and m.done and m.pending:
            op = 'badadd'
        if op in ('pop', 'flush') and not m.available():
            op = 'badpop'
        if op == 'badpop' and m.available():
            op = 'pop'
        if op == 'add':
            st = self.step(not self.hoard and d.chance(self.p_done))
            d.event(m.ident, 'add', len(m.steps), st['r'], st['done'])
            with d.calling('exception', 'add'):
                t.add(st['s'], st['a'], st['r'], st['done'] if d.chance(0.8) else onp.bool_(st['done']), *(() if self.defaults else (st['logp'], st['w'])))
            m.steps.append(st)
            m.done = st['done']
        elif op == 'pop':
            with d.calling('exception', 'pop'):
                tb = t.pop()
            with d.guard('malformed', 'pop'):
                n = len(tb.Rn)
            d.check(n == 1, 'pop-size', f"pop returned {n} transitions")
            self.check_emitted(tb, 0)
            d.event(m.ident, 'pop', sorted(m.emitted)[-1])
            self.finish()
        elif op == 'flush':
            avail = m.available()
            with d.calling('exception', 'flush'):
                tb = t.flush()
            with d.guard('malformed', 'flush'):
                n = len(tb.Rn)
            d.check(n == len(avail), 'flush-size', f"flush returned {n} transitions, {len(avail)} were available")
            for k in range(n):
                self.check_emitted(tb, k)
            d.event(m.ident, 'flush', n)
            self.finish()
        elif op == 'snapshot':
            d.fault('interrupt', m.ident)
            how = d.choose(3)
            old = self.t
            with d.calling('exception', 'snapshot'):
                if how == 0:
                    self.t = cloudpickle.loads(cloudpickle.dumps(t))
                elif how == 1:
                    self.t = copy.deepcopy(t)
                else:
                    self.t = pickle.loads(pickle.dumps(t))
            if d.chance(0.5):
                old.reset()          # the interrupted original must not matter any more
        elif op == 'reset':
            d.fault('reset', m.ident, len(m.pending))
            with d.calling('exception', 'reset'):
                t.reset()
            m.reset()
        elif op == 'badadd':
            d.fault('rejected_call', 'add')
            st = self.step(False)
            try:
                t.add(st['s'], st['a'], st['r'], st['done'], st['logp'], st['w'])
            except Exception as e:
                d.event('rejected', type(e).__name__)
            else:
                d.violate('not-rejected', "a step was accepted after the end of an episode that is still pending")
        else:
            d.fault('rejected_call', 'pop')
            fn = t.pop if d.chance(0.5) else t.flush
            try:
                fn()
            except Exception as e:
                d.event('rejected', type(e).__name__)
            else:
                d.violate('not-rejected', "a transition was emitted although none is available")
        self.check_shape()


def run(d):
    long = d.chance(0.02)
    sims = [Sim(d, i, long) for i in range(d.int(1, 3))]
    n = d.pick((20, 60, 120)) if not long else d.pick((400, 900))
    if long:
        d.probe('long')
    for _ in d.steps(4, n):
        sim = d.pick(sims)
        sim.act()
        d.state(sim.m.kind, sim.m.n, len(sim.m.steps), len(sim.m.emitted), sim.m.done)
    for sim in sims:
        # bring every episode to its end: everything that was added has to come out
        m = sim.m
        if m.pending and not m.done:
            st = sim.step(True)
            sim.t.add(st['s'], st['a'], st['r'], True, st['logp'], st['w'])
            m.steps.append(st)
            m.done = True
        if m.pending:
            if len(m.pending) > 256:
                d.probe('large-flush')
            tb = sim.t.flush()
            for k in range(len(tb.Rn)):
                sim.check_emitted(tb, k)
            d.check(not m.pending, 'lost', f"steps {m.pending} were never emitted")
        d.check(len(sim.t) == 0, 'length', "steps left after the end")
    d.is_nontrivial = any(s.m.episode > 0 for s in sims) and sum(d.faults.values()) > 0
