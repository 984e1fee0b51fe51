"""
C25: control-suite environments (coax.utils.make_dmc) against the tasks themselves.

Several environments, also of the same task, live next to each other; each has a twin: the bare control-suite task, loaded with
the same seed and driven by the same history.  Seams are methods of dm_control's Environment and Physics classes: they inject
failures before or after the physics is advanced, shorten the tasks' own time limit, give actions and sensors uneven bounds and
replace the renderer.
"""
import contextlib
import copy
import random
import warnings

import numpy as onp

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    from dm_control import suite
    from dm_control.mujoco import engine, wrapper
    from dm_control.rl import control
    from dm_env import specs
import gymnasium
from gymnasium.envs.registration import registry
import coax

from ..core import EnvFault, InjectedError

gymnasium.logger.set_level(gymnasium.logger.ERROR)

TASKS = [('cartpole', 'balance'), ('pendulum', 'swingup'), ('walker', 'walk'), ('fish', 'swim'), ('finger', 'turn_easy'), ('manipulator', 'bring_ball'),
         ('reacher', 'easy'), ('cartpole', 'swingup'), ('walker', 'stand'), ('cheetah', 'run')]


class Seams:
    def __init__(self):
        self.time_steps = None       # own time limit of the tasks, in steps
        self.bounds = False
        self.armed = None            # None | 'before' | 'after': failure of the next call
        self.failed = None
        self.renders = []


_models = {}    # compiled models (compiling one takes longer than everything else)


def compiled(xml_string, assets=None):
    key = xml_string, tuple(sorted((assets or {}).items()))
    if key not in _models:
        _models[key] = _compile(xml_string, assets=assets)._model
    return wrapper.MjModel(copy.copy(_models[key]))


_compile = wrapper.MjModel.from_xml_string


@contextlib.contextmanager
def patched(seams):
    E, P = control.Environment, engine.Physics
    orig = {(E, k): getattr(E, k) for k in ('__init__', 'step', 'reset', 'action_spec', 'observation_spec')}
    orig[P, 'render'] = P.render

    def init(self, *args, **kwargs):
        orig[E, '__init__'](self, *args, **kwargs)
        if seams.time_steps is not None:
            self._step_limit = seams.time_steps

    def faulty(name):
        real = orig[E, name]

        def call(self, *args, **kwargs):
            armed, seams.armed = seams.armed, None
            if armed == 'before':
                seams.failed = armed
                raise EnvFault(f'{name} failed')
            out = real(self, *args, **kwargs)
            if armed == 'after':
                seams.failed = armed
                raise EnvFault(f'{name} failed')
            return out
        return call

    def action_spec(self):
        s = orig[E, 'action_spec'](self)
        if not seams.bounds:
            return s
        n = s.shape[0]
        return specs.BoundedArray(s.shape, s.dtype, minimum=[-1. - i / 8 for i in range(n)], maximum=[0.5 + i / 4 for i in range(n)])

    def observation_spec(self):
        out = orig[E, 'observation_spec'](self)
        if not seams.bounds:
            return out
        return type(out)((k, s if i % 2 else specs.BoundedArray(s.shape, s.dtype, minimum=-1e6 - i, maximum=2e6 + i)) for i, (k, s) in enumerate(out.items()))

    def render(self, height=240, width=320, camera_id=-1, *args, **kwargs):
        seams.renders.append((height, width, camera_id))
        return onp.full((height, width, 3), 7, 'uint8')

    new = {(E, '__init__'): init, (E, 'step'): faulty('step'), (E, 'reset'): faulty('reset'), (E, 'action_spec'): action_spec,
           (E, 'observation_spec'): observation_spec, (P, 'render'): render}
    known = set(registry)
    for (cls, k), f in new.items():
        setattr(cls, k, f)
    wrapper.MjModel.from_xml_string = staticmethod(compiled)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        wrapper.MjModel.from_xml_string = _compile
        for (cls, k), f in orig.items():
            setattr(cls, k, f)
        for k in set(registry) - known:
            del registry[k]


def load(task, seed):
    return suite.load(*task, task_kwargs={'random': seed})


def flat(obs):
    return onp.concatenate([onp.ravel(v) for v in obs.values()]).astype('float32')


def same(a, b):
    return a.shape == b.shape and onp.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True)


class Inst:
    def __init__(self, d, seams, name, tasks):
        self.d, self.seams, self.name = d, seams, name
        self.task = d.pick(tasks)
        kw = {}
        if d.chance(0.7):
            kw['seed'] = d.pick((0, 1, 2, 3, 12345))
        if d.chance(0.7):
            kw['max_episode_steps'] = d.pick((1, 2, 3, 7, 12))
        if d.chance(0.3):
            kw['height'], kw['width'] = d.pick((5, 84, 12)), d.pick((7, 84, 10))
        if d.chance(0.3):
            kw['camera_id'] = d.pick((0, 1))
        d.event('make', name, self.task, kw)
        with d.calling('exception', f'make_dmc{self.task}'):
            self.env = coax.utils.make_dmc(*self.task, **kw)
        self.limit = kw.get('max_episode_steps', 1000)
        self.image = kw.get('height', 84), kw.get('width', 84), kw.get('camera_id', 0)
        self.seed = kw.get('seed', 0)
        self.twin = load(self.task, self.seed)
        self.t, self.running = 0, False
        self.check_spaces()

    def check_spaces(self):
        d, env = self.d, self.env
        with d.guard('malformed', 'spaces'):
            s, o = self.twin.action_spec(), self.twin.observation_spec()
            n = int(onp.prod(s.shape))
            A, O = env.action_space, env.observation_space
            want = onp.broadcast_to(s.minimum, (n,)), onp.broadcast_to(s.maximum, (n,))
            d.check(A.shape == (n,) and A.dtype == onp.float32 and onp.allclose(A.low, want[0]) and onp.allclose(A.high, want[1]), 'action-space',
                    lambda: f"action space {A} of {self.task}, the task has bounds {want}")
            lo, hi = [], []
            for x in o.values():
                k = int(onp.prod(x.shape))
                b = isinstance(x, specs.BoundedArray)
                lo.append(onp.broadcast_to(x.minimum if b else -onp.inf, x.shape).reshape(k))
                hi.append(onp.broadcast_to(x.maximum if b else onp.inf, x.shape).reshape(k))
            lo, hi = onp.concatenate(lo), onp.concatenate(hi)
            d.check(O.shape == lo.shape and O.dtype == onp.float32 and onp.allclose(O.low, lo) and onp.allclose(O.high, hi), 'observation-space',
                    lambda: f"observation space {O} of {self.task}: expected bounds {lo}, {hi}")
            d.check(env.spec.max_episode_steps == self.limit, 'step-limit', lambda: f"{self.task}: spec has step limit {env.spec.max_episode_steps}, requested {self.limit}")

    def check_obs(self, obs, want, what):
        d = self.d
        with d.guard('malformed', what):
            want = flat(want)
            d.check(isinstance(obs, onp.ndarray) and obs.dtype == onp.float32, 'observation', lambda: f"{what}: observation is a {type(obs)} of {getattr(obs, 'dtype', None)}")
            d.check(same(obs, want), 'observation', lambda: f"{what} of {self.name}: observation {obs}, the task has {want}")

    # -- operations ------------------------------------------------------------------------------ #

    def reset(self):
        d = self.d
        seed = d.pick((0, 1, 2, 3, 777)) if d.chance(0.35) else None
        fault = d.pick(('before', 'after')) if d.chance(0.08) else None
        if fault:
            d.fault('env_fault', 'reset', fault)
        self.seams.armed = fault
        d.event('reset', self.name, seed)
        kw = {'seed': seed} if seed is not None or d.chance(0.2) else {}
        if d.chance(0.1):
            kw['options'] = {}
        try:
            with d.calling('exception', 'reset', allow=(InjectedError,)):
                out = self.env.reset(**kw)
        except EnvFault:
            d.check(fault is not None, 'harness', 'unexpected fault')
            out = None
        finally:
            self.seams.armed = None
        if fault:
            d.check(out is None, 'swallowed', "a failed reset was reported as success")
        if seed is not None:
            self.twin, self.seed = load(self.task, seed), seed
        if fault == 'before':
            self.running = False
            return
        ts = self.twin.reset()
        self.running = not fault
        if fault:
            return
        self.t = 0
        with d.guard('malformed', 'reset'):
            obs, info = out
        self.check_obs(obs, ts.observation, f"reset(seed={seed})")
        d.check(isinstance(info, dict), 'info', "reset returned no info dict")
        if seed is not None:
            self.check_spaces()
        return obs

    def action(self):
        d = self.d
        n = self.env.action_space.shape[0]
        kind = d.weighted([('inside', 10), ('outside', 1), ('shape', 1), ('nan', 1)])
        if kind == 'shape':
            return onp.zeros((n + 2,), 'float32'), kind
        if kind == 'nan':
            return onp.full((n,), onp.nan, 'float32'), kind
        scale = 3. if kind == 'outside' else 1.
        a = onp.array([scale * (d.choose(17) / 8. - 1) for _ in range(n)], d.pick(('float32', 'float64')))
        if d.chance(0.1):
            a.flags.writeable = False
        return a, kind

    def step(self):
        d = self.d
        a, kind = self.action()
        given = a.copy()
        fault = None
        if kind in ('shape', 'nan'):
            d.fault('rejected_call', kind)
        elif d.chance(0.08):
            fault = d.pick(('before', 'after'))
            d.fault('env_fault', 'step', fault)
        self.seams.armed = fault
        err = out = None
        try:
            with d.calling('exception', 'step', allow=(Exception,) if kind != 'inside' else (InjectedError,)):
                out = self.env.step(a)
        except Exception as e:
            err = e
        finally:
            self.seams.armed = None
        d.check(onp.array_equal(a, given, equal_nan=True), 'input-modified', "the action given to step was modified")
        if fault == 'before':
            d.check(isinstance(err, EnvFault), 'swallowed', lambda: f"a failed step gave {out or err!r}")
            d.event('step', self.name, 'failed')
            return
        try:
            ts, want_err = self.twin.step(given), None
        except Exception as e:
            ts, want_err = None, e
        if fault == 'after':
            d.check(isinstance(err, EnvFault), 'swallowed', lambda: f"a failed step gave {out or err!r}")
            if ts.last():
                self.running = False
            d.event('step', self.name, 'failed')
            return
        d.event('step', self.name, kind, type(err).__name__, type(want_err).__name__)
        if want_err is not None:
            d.check(err is not None, 'swallowed', lambda: f"the task failed with {want_err!r}, step returned {out}")
            if kind == 'nan':
                self.running = False      # the physics is undefined until the next episode
            return
        d.check(err is None, 'exception', lambda: f"step failed with {err!r}, the task itself accepts {given}")
        self.t += 1
        with d.guard('malformed', 'step'):
            obs, r, term, trunc, info = out
            self.check_obs(obs, ts.observation, f"step {self.t}")
            d.check(abs(float(r) - float(ts.reward)) <= 1e-6 * max(1, abs(ts.reward)) or kind == 'nan', 'reward', lambda: f"step {self.t} of {self.name}: reward {r}, the task gave {ts.reward}")
            d.check(bool(term) == ts.last(), 'terminated', lambda: f"step {self.t} of {self.name}: terminated={term}, the task's episode is {'' if ts.last() else 'not '}over")
            d.check(bool(trunc) == (self.t >= self.limit), 'truncated', lambda: f"step {self.t} of {self.name}: truncated={trunc}, the limit is {self.limit}")
            d.check(isinstance(info, dict), 'info', "step returned no info dict")
        d.event('obs', obs, float(r), bool(term), bool(trunc))
        if term or trunc:
            d.probe('terminated' if term else 'truncated')
            self.running = False
        return obs

    def render(self):
        d = self.d
        n = len(self.seams.renders)
        with d.calling('exception', 'render'):
            img = self.env.render()
        with d.guard('malformed', 'render'):
            h, w, c = self.image
            d.check(self.seams.renders[n:] == [self.image], 'render', lambda: f"{self.name} rendered {self.seams.renders[n:]}, requested (height, width, camera) = {self.image}")
            d.check(onp.shape(img) == (h, w, 3), 'render', lambda: f"image of shape {onp.shape(img)}, requested {self.image}")


def run(d):
    seams = Seams()
    seams.time_steps = d.pick((None, 1, 2, 5, 9, 30))
    seams.bounds = d.chance(0.4)
    tasks = [d.pick(TASKS) for _ in range(d.int(1, 2))]
    with patched(seams):
        sim(d, seams, tasks)


def sim(d, seams, tasks):
    insts = [Inst(d, seams, 'e0', tasks)]
    held = []
    n_ops = episodes = 0
    for _ in d.steps(6, 60):
        op = d.weighted([('step', 40), ('reset', 6), ('make', 3), ('render', 2), ('global', 3), ('early', 1)])
        inst = d.pick(insts)
        if op == 'step' and not inst.running:
            op = 'reset'
        d.sched(inst.name, op)
        before = onp.random.get_state(), random.getstate()
        if op == 'make':
            if len(insts) < 4:
                insts.append(Inst(d, seams, f'e{len(insts)}', tasks))
                d.probe('same_task' if any(x.task == insts[-1].task for x in insts[:-1]) else 'other_task')
        elif op == 'global':
            d.fault('global_rng_reseed')
            onp.random.seed(d.int(0, 5))
            random.seed(d.int(0, 5))
            onp.random.rand(d.int(1, 3))
            continue
        elif op == 'render':
            if inst.running:
                inst.render()
        elif op in ('reset', 'early'):
            obs = inst.reset()
            episodes += 1
            if obs is not None:
                held.append((obs, obs.copy()))
        else:
            obs = inst.step()
            n_ops += 1
            if isinstance(obs, onp.ndarray):
                held.append((obs, obs.copy()))
                if d.chance(0.1) and obs.flags.writeable:
                    d.fault('client_scribbles')
                    obs[...] = 99.
                    held.pop()
        after = onp.random.get_state(), random.getstate()
        d.check(all(onp.array_equal(x, y) for x, y in zip(before[0], after[0])) and before[1] == after[1], 'global-rng', f"{op} changed the state of a global random generator")
        held = held[-4:]
        for x, y in held:
            d.check(onp.array_equal(x, y, equal_nan=True), 'held-output', "an observation returned earlier has changed")
        d.state(*[(i.task, i.seed, i.t, i.running) for i in insts])
    d.is_nontrivial = n_ops >= 3 and episodes >= 1 and (len(insts) > 1 or sum(d.faults.values()) > 0)
