""" C19: stacks of environment wrappers over a scripted, failing environment, compared with a reference computed from the environment's own log. """
import copy

import gymnasium
import numpy as onp
from scipy.special import expit

from coax.wrappers import FrameStacking, BoxActionsToReals, BoxActionsToDiscrete, MetaPolicyEnv

from ..core import EnvFault


class Base(gymnasium.Env):
    def __init__(self, d, name, space, obs_kind, info_kind):
        self.d, self.name = d, name
        self.action_space = space
        self.obs_kind, self.info_kind = obs_kind, info_kind
        self.observation_space = {'scalar': gymnasium.spaces.Discrete(100000), 'vec': gymnasium.spaces.Box(-1e9, 1e9, (2,), 'float64'),
                                  'dict': gymnasium.spaces.Dict({'x': gymnasium.spaces.Box(-1e9, 1e9, (1,), 'float64')})}[obs_kind]
        self.n = 0
        self.fail = False
        self.late = False
        self.received = []
        self.kwargs = None

    def obs(self):
        self.n += 1
        stamp = 1000 * (self.name + 1) + self.n
        return {'scalar': lambda: stamp, 'vec': lambda: onp.array([stamp, -stamp], 'float64'), 'dict': lambda: {'x': onp.array([stamp], 'float64')}}[self.obs_kind]()

    def info(self):
        if self.info_kind == 'none':
            return None
        info = {'note': self.n}
        if self.info_kind == 'a_orig':      # another adapter further inside
            info['a_orig'] = ['inner']
        return info

    def reset(self, **kwargs):
        self.kwargs = kwargs
        if self.fail:
            self.fail = False
            raise EnvFault('reset')
        self.last = self.obs()
        return self.last, {'begin': self.n}

    def step(self, a):
        self.received.append(copy.deepcopy(a))
        if self.fail:
            self.fail = False
            raise EnvFault('step')
        self.last = self.obs()
        self.reward = float(self.d.pick((0.0, 1.0, -2.5)))
        self.flags = (self.d.chance(0.15), self.d.chance(0.1))
        self.last_info = self.info()
        return self.last, self.reward, *self.flags, self.last_info


class Arm:
    """ a policy that notes what it was shown """
    def __init__(self, d, name, space, with_logp):
        self.d, self.name, self.space = d, name, space
        self.calls = []
        self.fail = False
        if with_logp:
            self.fn = lambda s, return_logp=False: self.act(s, return_logp)
        else:
            self.fn = lambda s: self.act(s, False)
        self.with_logp = with_logp

    def act(self, s, return_logp):
        if self.fail:
            self.fail = False
            raise EnvFault('arm')
        a = pick_action(self.d, self.space)
        logp = -float(self.d.int(1, 9)) / 4
        self.calls.append((copy.deepcopy(s), copy.deepcopy(a), logp))
        return (a, logp) if return_logp else a


def pick_action(d, space):
    if isinstance(space, gymnasium.spaces.Discrete):
        a = d.choose(int(space.n))
        return d.pick((int, onp.int64))(a)
    if isinstance(space, gymnasium.spaces.MultiDiscrete):
        return onp.array([d.choose(int(n)) for n in onp.ravel(space.nvec)], dtype=d.pick(('int64', 'int32'))).reshape(space.shape)
    if isinstance(space, gymnasium.spaces.Box):
        pool = (0.0, 0.5, -0.5, 3.0, -3.0, 20.0, -20.0, 90.0, 1e15, -1e15, 0.1, -0.7)
        x = onp.array([d.pick(pool) for _ in range(int(onp.prod(space.shape)))]).reshape(space.shape).astype(space.dtype)
        return onp.clip(x, space.low, space.high)
    raise AssertionError


def bad_action(d, space):
    if isinstance(space, gymnasium.spaces.Discrete):
        return d.pick((int(space.n), -1, 'x', 0.5, None))
    if isinstance(space, gymnasium.spaces.MultiDiscrete):
        return d.pick((onp.array(space.nvec), onp.full(space.shape, -1), onp.zeros((7,), 'int64'), None))
    if isinstance(space, gymnasium.spaces.Box):
        return d.pick((onp.zeros((9,), space.dtype), onp.full(space.shape, 2e15, space.dtype), onp.full(space.shape, onp.nan, space.dtype), None, 'x'))


class Layer:
    pass


class Stack:
    def __init__(self, d, name):
        self.d, self.name = d, name
        box = d.chance(0.6)
        if box:
            shape = d.pick(((1,), (2,), (3,), (2, 2)))
            dtype = d.pick(('float32', 'float64'))
            lo = onp.array([d.pick((-1.0, 0.0, -0.3, -2.0, 0.1)) for _ in range(int(onp.prod(shape)))]).reshape(shape).astype(dtype)
            hi = lo + onp.array([d.pick((2.0, 1.0, 0.7, 0.3, 5.5)) for _ in range(int(onp.prod(shape)))]).reshape(shape).astype(dtype)
            if d.chance(0.15):     # an action space of a different magnitude
                scale = onp.array(d.pick((1e5, 1e-4)), dtype)
                lo, hi = lo * scale, hi * scale
            space = gymnasium.spaces.Box(lo, hi.astype(dtype), dtype=onp.dtype(dtype).type)
        else:
            space = gymnasium.spaces.Discrete(d.int(2, 5))
        self.base = Base(d, name, space, d.pick(('scalar', 'vec', 'dict')), d.pick(('dict', 'dict', 'none', 'a_orig')))
        env = self.base
        self.layers = []      # from the inside to the outside
        kinds = []
        if box:
            kinds.append(d.pick(('reals', 'bins', 'bins')))
        outer = [k for k in ('frames', 'meta', 'frames') if d.chance(0.5)]
        if len(outer) == 3 and d.chance(0.5):
            outer = ['frames', 'frames', 'meta']
        kinds += outer or ([] if kinds else ['frames'])
        for kind in kinds:
            L = Layer()
            L.kind = kind
            if kind == 'frames':
                L.n = d.int(1, 4)
                L.seen = []
                env = FrameStacking(env, L.n)
            elif kind == 'meta':
                L.arms = [Arm(d, k, env.action_space, d.chance(0.5)) for k in range(d.int(1, 3))]
                L.latest = None
                env = MetaPolicyEnv(env, *[a.fn for a in L.arms])
                d.check(env.action_space == gymnasium.spaces.Discrete(len(L.arms)), 'action-space', lambda: f"{name}: action space {env.action_space} for {len(L.arms)} arms")
            elif kind == 'reals':
                env = BoxActionsToReals(env)
                with d.guard('action-space', name):
                    sp, n = env.action_space, int(onp.prod(space.shape))
                    for x in (0., 1., -1., 50., -50., 1e14, -1e14):
                        d.check(sp.contains(onp.full((n,), x, sp.dtype)), 'action-space', lambda: f"{name}: the reals do not contain {x} in {n} dimensions: {sp}")
            elif kind == 'bins':
                size = int(onp.prod(space.shape))
                L.nvec = [d.int(1, 5)] * size
                L.arg = L.nvec[0]
                if d.chance(0.5):
                    L.nvec = [d.int(1, 5) for _ in range(size)]
                    L.arg = tuple(L.nvec)
                L.seed = d.int(0, 3)
                env = BoxActionsToDiscrete(env, L.arg, random_seed=L.seed)
                with d.guard('action-space', name):
                    sp = env.action_space
                    got = [int(sp.n)] if isinstance(sp, gymnasium.spaces.Discrete) else [int(x) for x in sp.nvec]
                    d.check(got == L.nvec and (size > 1 or isinstance(sp, gymnasium.spaces.Discrete)), 'action-space', lambda: f"{name}: action space {sp} for bins {L.arg} of {size} dimensions")
                dummy = Base(d_fixed(), 0, space, 'scalar', 'dict')
                L.twin = BoxActionsToDiscrete(dummy, L.arg, random_seed=L.seed)
                L.twin_log = dummy.received
            self.layers.append(L)
        self.env = env
        self.begun = False
        self.broken = False      # a reset has failed and the environment is lost: only another reset makes sense
        d.event('stack', name, kinds, str(space), self.base.obs_kind, self.base.info_kind)

    # -- reference -- #

    def observe(self, base_obs, reset):
        """ what has to come out at the top """
        x = base_obs
        for L in self.layers:
            if L.kind == 'frames':
                if reset:
                    L.seen = []
                L.seen.append(x)
                pad = [L.seen[0]] * L.n
                x = tuple((pad + L.seen[1:])[-L.n:])
            elif L.kind == 'meta':
                L.latest = x
        return x


class d_fixed:
    def pick(self, seq):
        return seq[0]

    def chance(self, p):
        return False


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, onp.ndarray) or isinstance(b, onp.ndarray):
        return onp.shape(a) == onp.shape(b) and bool(onp.all(onp.asarray(a) == onp.asarray(b)))
    return a == b


def run(d):
    stacks = [Stack(d, k) for k in range(d.int(1, 3))]
    held = []
    faults = episodes = steps = 0
    for _ in d.steps(6, 60):
        st = stacks[d.choose(len(stacks))]
        b = st.base
        what = d.weighted([('step', 40), ('reset', 8), ('fail-step', 4), ('fail-reset', 2), ('fail-arm', 2), ('reject', 4)])
        if what == 'reject' and st.layers[-1].kind == 'frames' and all(L.kind == 'frames' for L in st.layers):
            what = 'step'
        if (not st.begun or st.broken) and what not in ('reset', 'fail-reset', 'reject'):
            what = 'reset'
        metas = [L for L in st.layers if L.kind == 'meta']
        if what == 'fail-arm' and not metas:
            what = 'fail-step'
        d.sched(st.name, what)
        name = f"{what} on stack {st.name}"
        if what in ('reset', 'fail-reset'):
            kw = {} if metas or d.chance(0.5) else dict(seed=d.int(0, 9))
            if what == 'fail-reset':
                b.fail = True
                d.fault('env_reset')
                faults += 1
            try:
                out = st.env.reset(**kw)
            except EnvFault:
                d.check(what == 'fail-reset', 'exception', name)
                b.fail = False
                st.broken = not (st.begun and d.chance(0.5))
                if not st.broken:
                    d.probe('went_on_after_failed_reset')     # the environment is where it was: so is its episode
                continue
            d.check(what == 'reset', 'failure-swallowed', f"{name}: the failure of the environment was not passed on")
            with d.guard('reset', name):
                obs, info = out
                want = st.observe(b.last, True)
                d.check(b.kwargs == kw, 'reset-arguments', lambda: f"{name}: environment got {b.kwargs} instead of {kw}")
                d.check(eq(obs, want), 'observation', lambda: f"{name}: observation {obs}, expected {want}")
                d.check(st.env.observation_space.contains(obs), 'observation-space', lambda: f"{name}: observation {obs} is not in the observation space")
                d.check(isinstance(info, dict) and info.get('begin') == b.n, 'info', lambda: f"{name}: info {info}")
                held.append((obs, copy.deepcopy(obs)))
            st.begun, st.broken = True, False
            episodes += 1
            d.event(name, want)
        elif what == 'reject':
            a = bad_action(d, st.env.action_space)
            d.fault('rejected_action')
            faults += 1
            n = len(b.received)
            arms = [len(x.calls) for L in metas for x in L.arms]
            try:
                st.env.step(a)
            except Exception as e:
                d.event('rejected', a, type(e).__name__)
            else:
                d.violate('not-rejected', f"{name}: action {a!r} was accepted by {st.env.action_space}")
            d.check(len(b.received) == n, 'rejected-action-executed', f"{name}: the environment was stepped")
            d.check([len(x.calls) for L in metas for x in L.arms] == arms, 'rejected-action-executed', f"{name}: an arm was asked")
        else:
            a = pick_action(d, st.env.action_space)
            if what == 'fail-step':
                b.fail = True
                d.fault('env_step')
                faults += 1
            arm = None
            if metas:
                # the outermost meta layer chooses first
                outer = [L for L in st.layers[::-1] if L.kind == 'meta'][0]
                arm = outer.arms[int(a)]
                if what == 'fail-arm':
                    arm.fail = True
                    d.fault('arm_failure')
                    faults += 1
                ncalls = [len(x.calls) for x in outer.arms]
            n = len(b.received)
            try:
                out = st.env.step(a)
                failed = False
            except EnvFault:
                failed = True
            b.fail = False
            d.check(failed == (what != 'step'), 'failure-swallowed', f"{name}: the failure was not passed on")
            expect_calls = n + (0 if what == 'fail-arm' else 1)
            d.check(len(b.received) == expect_calls, 'steps', lambda: f"{name}: the environment was stepped {len(b.received) - n} times")
            # actions on their way to the environment
            act = a
            meta_info = None
            reported = []
            for L in st.layers[::-1]:
                if L.kind == 'meta':
                    k = outer.arms.index(arm)
                    want_calls = [c + (1 if i == k and what != 'fail-arm' else 0) for i, c in enumerate(ncalls)]
                    d.check([len(x.calls) for x in outer.arms] == want_calls, 'arm', lambda: f"{name}: arms asked {[len(x.calls) for x in outer.arms]}, before {ncalls}, selected {k}")
                    if what == 'fail-arm':
                        break
                    s, act, logp = arm.calls[-1]
                    d.check(eq(s, L.latest), 'arm', lambda: f"{name}: the arm was shown {s} instead of the latest observation {L.latest}")
                    meta_info = (act, logp if arm.with_logp else 0.0)
            if what == 'fail-arm':
                continue
            got = b.received[-1]
            sp = b.action_space
            inner = st.layers[0]
            if inner.kind == 'reals':
                want = sp.low + (sp.high - sp.low) * expit(onp.clip(onp.asarray(act, 'float64'), -1e15, 1e15).reshape(sp.shape))
                d.check(onp.shape(got) == sp.shape and onp.allclose(got, want, rtol=1e-5, atol=1e-6 * max(abs(sp.low).max(), abs(sp.high).max())), 'action', lambda: f"{name}: {act} became {got}, expected {want}")
                reported.append(got)
            elif inner.kind == 'bins':
                nvec = onp.array(inner.nvec).reshape(sp.shape)
                k = onp.asarray(act).reshape(sp.shape)
                width = (onp.asarray(sp.high, 'float64') - sp.low) / nvec
                left = sp.low + k * width
                tol = 1e-5 * max(abs(sp.low).max(), abs(sp.high).max())
                ok = onp.shape(got) == sp.shape and onp.all(got >= left - tol) and onp.all(got <= left + width + tol)
                d.check(ok, 'action', lambda: f"{name}: bin(s) {act} of {inner.nvec} became {got}, expected between {left} and {left + width}")
                inner.twin.step(act)
                tw = inner.twin_log[-1]
                d.check(onp.array_equal(tw, got), 'action-shifted', lambda: f"{name}: action {got}, but an undisturbed adapter with the same seed chose {tw}")
                reported.append(got)
            else:
                d.check(eq(got, act), 'action', lambda: f"{name}: environment received {got!r} instead of {act!r}")
            if inner.kind in ('reals', 'bins'):
                d.check(sp.contains(got), 'action-space', lambda: f"{name}: {got!r} ({got.dtype}) is not a member of the environment's action space {sp}")
            if failed:
                continue
            steps += 1
            with d.guard('step', name):
                obs, r, done, trunc, info = out
                want = st.observe(b.last, False)
                d.check(eq(obs, want), 'observation', lambda: f"{name}: observation {obs}, expected {want}")
                d.check(st.env.observation_space.contains(obs), 'observation-space', lambda: f"{name}: observation {obs} is not in the observation space")
                d.check((r, bool(done), bool(trunc)) == (b.reward, *b.flags), 'result', lambda: f"{name}: {(r, done, trunc)} instead of {(b.reward, *b.flags)}")
                if inner.kind in ('reals', 'bins') or metas:
                    d.check(isinstance(info, dict), 'info', lambda: f"{name}: info is {info!r}")
                if b.info_kind != 'none':
                    d.check(info.get('note') == b.n - 1 or info.get('note') == b.n, 'info', lambda: f"{name}: info {info} of another step")
                if reported:
                    orig = info.get('a_orig')
                    want_orig = (['inner'] if b.info_kind == 'a_orig' else []) + reported
                    d.check(isinstance(orig, (list, tuple)) and len(orig) == len(want_orig) and all(eq(x, y) for x, y in zip(orig, want_orig)), 'reported-action',
                            lambda: f"{name}: reported original action {orig}, the environment received {want_orig}")
                if meta_info is not None:
                    d.check(eq(info.get('a'), meta_info[0]), 'reported-action', lambda: f"{name}: reported a={info.get('a')}, the arm chose {meta_info[0]}")
                    d.check(float(info.get('logp')) == meta_info[1], 'reported-logp', lambda: f"{name}: reported logp={info.get('logp')}, the arm gave {meta_info[1]}")
                held.append((obs, copy.deepcopy(obs)))
                if info is not None and d.chance(0.3):
                    held.append((dict(info), copy.deepcopy(dict(info))))
            d.event(name, a, got, r, int(done), int(trunc))
        for x, y in held[-6:]:
            d.check(eq_deep(x, y), 'held-result', lambda: f"{name}: something returned earlier has changed from {y} to {x}")
        d.state(st.name, [len(L.seen) if L.kind == 'frames' else 0 for L in st.layers], b.n)
    d.is_nontrivial = steps >= 3 and (episodes >= 2 or faults > 0)


def eq_deep(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(eq_deep(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq_deep(x, y) for x, y in zip(a, b))
    return eq(a, b)
