""" C21: playback and recording of episodes on simulated time, with slow and failing environments and playbacks that interleave. """
import os
import shutil
import tempfile
import types

import gymnasium
import numpy as onp
from PIL import Image

import coax
from coax.utils import render_episode, generate_gif
from coax.wrappers import TrainMonitor

from .. import simtime
from ..core import EnvFault


class Env(gymnasium.Env):
    """ an environment whose episodes, speed and failures are decided by the simulator; it logs every call with its time """
    metadata = {'render_modes': ['rgb_array', 'human']}

    def __init__(self, d, clock, name, render_mode):
        self.d, self.clock, self.name = d, clock, name
        self.render_mode = render_mode
        self.frames_when_human = render_mode is None and d.chance(0.5)
        self.box = d.chance(0.3)
        self.action_space = gymnasium.spaces.Box(-1, 1, (2,), 'float64', seed=3) if self.box else gymnasium.spaces.Discrete(5, seed=3)
        self.observation_space = gymnasium.spaces.Box(-onp.inf, onp.inf, (3,), 'float64')
        self.size = d.pick(((4, 6), (8, 8), (16, 5)))      # height, width
        self.shared_buffer = onp.zeros(self.size + (3,), 'uint8') if d.chance(0.4) else None
        spec = d.pick(('none', 'limit', 'no-limit'))
        if spec != 'none':
            self.spec = types.SimpleNamespace(max_episode_steps=d.int(2, 6) if spec == 'limit' else None, id='Sim-v0')
        self.limit = self.spec.max_episode_steps if spec == 'limit' else None
        self.slow = d.chance(0.3)
        self.arm(0, None)
        self.n_frames = 0
        self.colors = {}

    def arm(self, length, fail, end='done'):
        """ the next episode """
        self.length, self.fail, self.end = length, fail, end
        self.log = []            # (what, time before, time after, details)
        self.n_calls = self.ep_steps = self.n_resets = 0
        self.over = True
        self.obs = None

    def _call(self, what):
        t0 = self.clock.now
        if self.slow:
            self.clock.now += self.d.pick((0.0, 0.5, 3.0))
            self.d.faults['slow_environment'] = self.d.faults.get('slow_environment', 0) + 1
        if self.fail == (what, sum(1 for x in self.log if x[0] == what)):
            self.d.fault('env_' + what)
            self.fail = None
            self.log.append((what + '!', t0, self.clock.now, None))
            raise EnvFault(what)
        return t0

    def reset(self, **kw):
        t0 = self._call('reset')
        self.n_resets += 1
        self.ep_steps = 0
        self.over = False
        self.obs = onp.array([self.n_resets, 0.0, self.d.choose(4)])
        self.log.append(('reset', t0, self.clock.now, self.obs.copy()))
        return self.obs.copy(), {}

    def step(self, a):
        t0 = self._call('step')
        if self.over:
            self.log.append(('step-after-end', t0, self.clock.now, None))
            if self.n_calls > 20:
                self.d.violate('endless', f"playback of env {self.name} goes on after the episode ended by {self.end}")
            self.n_calls += 1
        self.ep_steps += 1
        self.obs = onp.array([self.n_resets, self.ep_steps, self.d.choose(4)])
        self.over = self.over or self.ep_steps >= self.length
        self.log.append(('step', t0, self.clock.now, (a, self.obs.copy())))
        end = self.ep_steps == self.length
        return self.obs.copy(), 1.0, end and self.end in ('done', 'both'), end and self.end in ('truncated', 'both'), {}

    def color(self, key):
        k = self.colors.setdefault(key, len(self.colors))
        return (10 + 7 * k) % 251, (40 * k + 3) % 253, (k * k + 11) % 241

    def picture(self, key):
        r, g, b = self.color(key)
        return (r, g, b), (255 - b, r, 200)

    def render(self, *args, **kw):
        t0 = self._call('render')
        self.log.append(('render', t0, self.clock.now, self.ep_steps))
        if self.render_mode == 'human' or (self.render_mode is None and not self.frames_when_human):
            return None
        frame = onp.zeros(self.size + (3,), 'uint8') if self.shared_buffer is None else self.shared_buffer
        # two tones, such that the corners tell the step and whether the picture is complete
        first, second = self.picture((self.n_resets, self.ep_steps))
        frame[...] = first
        frame[self.size[0] // 2:, self.size[1] // 2:] = second
        return frame


class Pi:
    def __init__(self, d, env, clock):
        self.d, self.env, self.clock = d, env, clock
        self.seen = []
        self.slow = d.chance(0.2)
        self.fail_at = None

    def __call__(self, s):
        t0 = self.clock.now
        if self.slow:
            self.clock.now += 0.25
        if self.fail_at is not None and len(self.seen) == self.fail_at:
            self.d.fault('policy_failure')
            self.fail_at = None
            raise EnvFault('policy')
        a = self.env.action_space.sample()
        self.seen.append((onp.array(s), a))
        self.env.log.append(('policy', t0, self.clock.now, a))
        return a


def counters(m):
    out = {k: getattr(m, k) for k in ('T', 'ep', 't', 'G', 'avg_G', 'avg_r')}
    out['metrics'] = dict(m.get_metrics())
    return out


def run(d):
    clock = simtime.Clock(d)
    tmp = tempfile.mkdtemp(prefix='dsim-gif-')
    d.cleanups.append(lambda: shutil.rmtree(tmp, ignore_errors=True))
    studios = []
    for k in range(d.int(1, 2)):
        env = Env(d, clock, k, d.pick(('rgb_array', 'rgb_array', 'human', None)))
        monitored = d.chance(0.5)
        outer = TrainMonitor(env) if monitored else env
        studios.append(types.SimpleNamespace(name=k, env=env, outer=outer, monitored=monitored, pi=Pi(d, env, clock), busy=False))
        if monitored and d.chance(0.7):    # some training before
            env.arm(4, None)
            outer.reset()
            for _ in range(d.int(0, 4)):
                outer.step(env.action_space.sample())
    state = types.SimpleNamespace(played=0, nested=0, depth=0)

    def on_sleep(dt):
        # somebody else gets to run while a playback sleeps
        idle = [s for s in studios if not s.busy]
        if idle and state.depth < 2 and d.chance(0.1):
            state.depth += 1
            state.nested += 1
            d.probe('interleaved_playback')
            play(d, clock, idle[0], tmp, state)
            state.depth -= 1
    clock.on_sleep = on_sleep
    with simtime.simulated(clock):
        for step in d.steps(1, 6):
            play(d, clock, studios[d.choose(len(studios))], tmp, state)
    d.is_nontrivial = state.played >= 2 or state.nested > 0 or bool(d.faults)


def play(d, clock, st, tmp, state):
    env = st.env
    st.busy = True
    kind = d.pick(('render', 'gif'))
    length = d.pick((1, 2, 3, 4, 7, 12))
    if d.chance(0.003):
        length = d.int(900, 1400)
        d.probe('long_episode')
    fail = d.pick(('reset', 'step', 'step', 'step', 'render')) if d.chance(0.25) else None
    env.arm(length, (fail, d.choose(length + (1 if fail == 'render' else 0)) if fail != 'reset' else 0) if fail else None, d.pick(('done', 'truncated', 'both')))
    pi = None if d.chance(0.25) else st.pi
    st.pi.seen = []
    if pi is not None and not fail and d.chance(0.08):
        pi.fail_at = d.choose(length)
        fail = 'policy'
    before = counters(st.outer) if st.monitored else None
    what = f"{kind} of an episode of {length} step(s) ending by {env.end} on env {st.name}"
    d.sched(st.name, kind, length, env.end, fail)
    d.event('play', what, fail, 'monitored' if st.monitored else 'plain')
    raised = None
    out = None
    try:
        if kind == 'render':
            delay = d.pick((0, 1, 20, 250.5, 1500))
            kw = {} if delay == 0 and d.chance(0.5) else dict(step_delay_ms=delay)
            render_episode(st.outer, pi, **kw)
        else:
            out = os.path.join(tmp, f"{st.name}-{d.choose(3)}", 'a.gif') if d.chance(0.3) else os.path.join(tmp, f"{st.name}-{d.choose(3)}.gif")
            resize = d.pick((None, (3, 5), (9, 2), (12, 12)))
            limit = d.pick((None, None, 1, 2, 3, 50)) if length < 900 else d.pick((None, 850, 2000))
            duration = d.pick((None, 50, 100, 30, 10, 1000))
            kw = {}
            if resize:
                kw['resize_to'] = resize
            if limit:
                kw['max_episode_steps'] = limit
            if duration:
                kw['duration'] = duration
            generate_gif(st.outer, out, pi, **kw)
    except EnvFault as e:
        raised = e
    except RuntimeError as e:
        if kind == 'gif' and env.render_mode != 'rgb_array' and not (env.render_mode is None and env.frames_when_human):
            d.event('not recordable', type(e).__name__)
            st.busy = False
            if pi is not None:
                pi.fail_at = None
            return
        raise
    finally:
        env.fail = None
        if pi is not None:
            pi.fail_at = None
    state.played += 1
    log = env.log
    injected = any(x[0].endswith('!') for x in log) or (fail == 'policy' and pi is not None and pi.fail_at is None and raised is not None)
    if st.monitored:
        after = counters(st.outer)
        d.check(same(before, after), 'counters', lambda: f"{what}: counters of the monitor changed: {diffs(before, after)}")
    d.check((raised is not None) == injected, 'failure', lambda: f"{what}: environment failure {injected}, but the caller saw {raised!r}")
    names = [x[0] for x in log if x[0] not in ('policy',)]
    steps = [x for x in log if x[0] == 'step']
    if injected:
        d.check(sum(n in ('reset', 'reset!') for n in names) == 1, 'one-episode', lambda: f"{what}: calls {names}")
        d.check(not names or names[-1].endswith('!') or fail == 'policy', 'failure', lambda: f"{what}: calls after the failure: {names}")
        st.busy = False
        return
    # exactly one episode
    d.check(sum(n == 'reset' for n in names) == 1 and names[0] == 'reset', 'one-episode', lambda: f"{what}: calls {names}")
    d.check('step-after-end' not in names, 'one-episode', lambda: f"{what}: stepped beyond the end: {names}")
    expected = length
    if kind == 'gif':
        bound = limit or env.limit or 10000
        expected = min(length, bound)
        if bound < length:
            d.probe('step_limit')
    d.check(len(steps) == expected, 'one-episode', lambda: f"{what}: {len(steps)} steps instead of {expected}; {names}")
    # acting on the current observation, and the action reaches the environment
    reset_obs = next(x[3] for x in log if x[0] == 'reset')
    obs = [reset_obs] + [x[3][1] for x in steps]
    if pi is not None:
        d.check(len(pi.seen) == len(steps), 'policy', lambda: f"{what}: policy asked {len(pi.seen)} times for {len(steps)} steps")
        for k, (s, a) in enumerate(pi.seen):
            d.check(onp.array_equal(s, obs[k]), 'policy', lambda: f"{what}: step {k}: the policy was shown {s} instead of {obs[k]}")
            d.check(onp.array_equal(a, steps[k][3][0]), 'policy', lambda: f"{what}: step {k}: action {steps[k][3][0]} instead of the policy's {a}")
    else:
        for x in steps:
            d.check(env.action_space.contains(x[3][0]), 'policy', lambda: f"{what}: action {x[3][0]!r} not in the action space")
    if kind == 'render':
        # the start and every step rendered exactly once, in order
        shown = [x[3] for x in log if x[0] == 'render']
        d.check(shown == list(range(expected + 1)), 'rendered', lambda: f"{what}: rendered steps {shown}, expected {list(range(expected + 1))}")
        order = [x for x in log if x[0] in ('reset', 'step', 'render')]
        for a, b in zip(order[::2], order[1::2]):
            d.check(a[0] in ('reset', 'step') and b[0] == 'render', 'rendered', lambda: f"{what}: calls {names}")
        # pace
        sec = delay / 1e3
        nested = state.nested
        for k in range(1, expected):
            at = [i for i, x in enumerate(log) if x[0] == 'render'][k]
            t_shown = log[at][2]
            t_next = log[at + 1][1]
            gap = t_next - t_shown
            d.check(gap >= sec - 1e-6, 'pace', lambda: f"{what}: only {gap:.4f} s between showing step {k} and going on, requested {sec}")
            d.check(gap <= sec + 0.05 * sec + 1e-3 or nested, 'pace', lambda: f"{what}: {gap:.4f} s between showing step {k} and going on, requested {sec}")
        end_gap = clock.now - log[-1][2]
        d.check(end_gap >= sec - 1e-6, 'pace', lambda: f"{what}: returned {end_gap:.4f} s after the last step, requested {sec}")
        d.check(end_gap <= 12 * sec + 1e-3 or nested, 'pace', lambda: f"{what}: returned only {end_gap:.4f} s after the last step, requested {sec}")
    else:
        with d.guard('gif', what):
            d.check(os.path.isfile(out), 'gif', f"{what}: no file")
            with Image.open(out) as im:
                n = getattr(im, 'n_frames', 1)
                got, times, sizes = [], [], set()
                for k in range(n):
                    im.seek(k)
                    rgb = onp.asarray(im.convert('RGB'))
                    sizes.add(im.size)
                    got.append((tuple(rgb[0, 0].tolist()), tuple(rgb[-1, -1].tolist())))
                    times.append(im.info.get('duration'))
            want_size = resize or (env.size[1], env.size[0])
            d.check(sizes == {want_size}, 'gif-size', lambda: f"{what}: frame sizes {sizes}, requested {want_size}")
            seq = [c for k, c in enumerate(got) if k == 0 or got[k - 1] != c]
            want = [env.picture((env.n_resets, k)) for k in range(expected + 1)]
            d.check(seq in (want, want[1:]), 'gif', lambda: f"{what}: pictures {seq}, expected {want[1:]} (after the start {want[:1]})")
            want_ms = duration or 50
            if len(seq) > 1 and len(got) == len(seq):
                d.check(all(t == want_ms for t in times[:-1]), 'gif-pace', lambda: f"{what}: frame durations {times}, requested {want_ms}")
        d.event('gif', got[:6], sorted(sizes))
    st.busy = False


def same(a, b):
    return not diffs(a, b)


def diffs(a, b):
    out = {}
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        try:
            eq = bool(onp.array_equal(x, y)) if isinstance(x, onp.ndarray) or isinstance(y, onp.ndarray) else x == y or (x != x and y != y)
        except Exception:
            eq = repr(x) == repr(y)
        if not eq:
            out[k] = (x, y)
    return out
