""" One or more TrainMonitors driven through episodes, failures, metric records, saves, crashes and restores. Used by C12 and C13. """
import copy
import logging
import math
import numbers
import os
import re
import shutil
import tempfile

import cloudpickle
import gymnasium
import numpy as onp

import coax
from coax.wrappers import TrainMonitor

from .. import faketb, simtime
from ..core import EnvFault, InjectedError


class Env(gymnasium.Env):
    """ plays a script that the simulator writes just in time """
    metadata = {'render_modes': []}

    def __init__(self, discrete=True):
        self.observation_space = gymnasium.spaces.Box(-onp.inf, onp.inf, (2,), 'float64')
        self.action_space = gymnasium.spaces.Discrete(4) if discrete else gymnasium.spaces.Box(-1, 1, (1,), 'float64')
        self.script = None
        self.n_resets = 0
        self.n_steps = 0

    def reset(self, **kwargs):
        out, self.script = self.script, None
        if isinstance(out, Exception):
            raise out
        self.n_resets += 1
        return onp.array([self.n_resets, 0.0]), {}

    def step(self, a):
        out, self.script = self.script, None
        if isinstance(out, Exception):
            raise out
        self.n_steps += 1
        return out


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.DEBUG)
        self.lines = []

    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception as e:
            msg = f"<unformattable record: {e}>"
        if re.search(r'\bep: ', msg) or msg.startswith('<'):
            self.lines.append(msg)


class Model:
    """ what the counters have to be """
    def __init__(self, smoothing, tb_dir):
        self.smoothing = smoothing
        self.tb_dir = tb_dir
        self.clear()

    def clear(self):
        self.T = self.ep = self.t = 0
        self.G = self.avg_G = 0.0
        self.n = 0
        self.metrics = {}
        self.periods = {}
        self.actions = []       # actions of the current episode: (action, succeeded)
        self.real = False       # the current episode really began (its reset succeeded)
        self.start = self.last = None       # true time at which the episode and its last step took place, if known

    def begin(self, real=True):
        self.T += 1
        self.ep += 1
        self.t = 0
        self.G = 0.0
        self.metrics = {}
        self.actions = []
        self.real = real
        self.start = self.last = None

    def finish(self):
        self.n = min(self.smoothing, self.n + 1)
        self.avg_G += (self.G - self.avg_G) / self.n

    def means(self):
        return {k: x / n for k, (x, n) in self.metrics.items()}

    def snapshot(self):
        m = copy.deepcopy(self)
        return m


def close(a, b, rel=1e-6):
    if isinstance(b, float) and math.isnan(b):
        return isinstance(a, numbers.Real) and math.isnan(a)
    return isinstance(a, numbers.Real) and abs(a - b) <= rel * max(1.0, abs(b))


class Sim:
    def __init__(self, d, focus):
        self.d = d
        self.focus = focus                 # 'counters' or 'logs'
        self.clock = simtime.Clock(d)
        self.dir = tempfile.mkdtemp(prefix='dsim-')
        d.cleanups.append(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        faketb.reset()
        self.capture = Capture()
        logging.getLogger().addHandler(self.capture)
        self.logfile = None                # (path, lines that were logged before), at most one per run
        handlers = list(logging.getLogger().handlers)
        d.cleanups.append(lambda: drop_handlers(handlers, self.capture))
        self.discrete = d.chance(0.7)
        self.smoothing = d.pick((10, 1, 2, 3, 5))
        self.write_all = d.chance(0.4)
        self.log_all = d.chance(0.5)
        self.long = d.chance(0.04)
        self.fine = d.chance(0.25)         # rewards that need double precision
        self.many = d.chance(0.1)          # many different metrics
        self.n_dirs = 0
        self.own_base = d.chance(0.5)      # or all runs below one directory
        self.last_given = None
        self.saved = []                    # (kind, object or path, model at that time)
        self.handed_out = []               # results of get_metrics, with copies
        self.pos = (0, 0)                  # records and lines that have been judged
        self.monitor, self.m = self.build()
        self.phase = 'idle'                # idle | running
        if d.chance(0.4):
            rate = d.pick((0.05, 0.3))
            self.clock.on_read = lambda c: self.clock_fault(c, rate)

    def clock_fault(self, c, rate):
        d = self.d
        if d.chance(rate):
            k = d.choose(4)
            if k == 0:
                c.jump(d.pick((-5.0, 3.0, -1e9, 1e6)))
            elif k == 1:
                c.coarse(d.pick((0.0, 0.015625, 60.0)))
            elif c.frozen_at is None:
                c.freeze()
            else:
                c.unfreeze()

    def build(self):
        d = self.d
        tb = None
        if self.focus == 'logs' and d.chance(0.85) or self.focus == 'counters' and d.chance(0.15):
            self.n_dirs += 1
            tb = f'/nonexistent/tb{self.n_dirs if self.own_base else 0}/20200101_{self.n_dirs:06d}'
        kw = {}
        if self.focus == 'logs' and self.logfile is None and d.chance(0.2):
            self.logfile = os.path.join(self.dir, d.pick(('train.log', 'logs/a/train.log'))), len(self.capture.lines)
            kw = dict(output_filepath=self.logfile[0], name=d.pick((None, 'trainer')))
            if d.chance(0.3):
                kw['output_level'] = logging.DEBUG
            d.probe('log_file')
        with d.calling('exception', 'construct'):
            mon = TrainMonitor(Env(self.discrete), tensorboard_dir=tb, tensorboard_write_all=self.write_all, log_all_metrics=self.log_all, smoothing=self.smoothing, **kw)
        d.event('monitor', self.smoothing, tb, sorted(kw))
        return mon, Model(self.smoothing, tb)

    # -- judging -- #

    def check_counters(self, what):
        d, m, mon = self.d, self.m, self.monitor
        if self.focus != 'counters':
            return
        with d.guard('malformed', 'counters'):
            got = dict(T=mon.T, ep=mon.ep, t=mon.t, G=float(mon.G), avg_G=float(mon.avg_G))
        for k, v in got.items():
            d.check(close(v, getattr(m, k)), f'counter-{k}', f"after {what}: {k} is {v}, expected {getattr(m, k)}")
        with d.calling('exception', 'dt_ms'):
            dt, ar = mon.dt_ms, mon.avg_r
        d.check(isinstance(dt, numbers.Real), 'timing', f"dt_ms is {dt!r}")
        if m.start is not None and m.t and self.clock.on_read is None:
            self.check_dt(m, float(dt), 'dt_ms')
        d.check(close(float(ar), m.G / m.t if m.t else float('nan')), 'counter-avg_r', f"avg_r is {ar}, expected {m.G}/{m.t}")

    def check_dt(self, e, dt, what, digits=1e-6):
        """ the step time of an episode that ran on a well-behaved clock: the time between its beginning and some moment since its last step """
        lo, hi = 1000 * (e.last - e.start) / e.t, 1000 * (self.clock.now - e.start) / e.t
        self.d.check(lo * (1 - digits) - 0.1 <= dt <= hi * (1 + digits) + 0.1, 'step-time',
                     f"{what} of episode {e.ep} is {dt}, its {e.t} steps took {1000 * (e.last - e.start):.2f} to {1000 * (self.clock.now - e.start):.2f} ms")

    def check_metrics(self):
        d = self.d
        with d.calling('exception', 'get_metrics'):
            got = self.monitor.get_metrics()
        want = self.m.means()
        with d.guard('malformed', 'metrics'):
            d.check(set(got) == set(want), 'metrics', f"metrics {sorted(got)}, expected {sorted(want)}")
            for k in want:
                d.check(close(float(got[k]), want[k]), 'metrics', f"metric {k} is {got[k]}, expected {want[k]}")
        for old, copy in self.handed_out:
            d.check(old == copy, 'metrics-changed', f"metrics handed out earlier changed from {copy} to {old}")
        if d.chance(0.3):
            got.clear()
            got['junk'] = 1.0
        else:
            self.handed_out = self.handed_out[-2:] + [(got, dict(got))]

    def new_reports(self):
        """ log lines and tensorboard records since the last call """
        r0, l0 = self.pos
        recs, lines = faketb.RECORDS[r0:], self.capture.lines[l0:]
        self.pos = len(faketb.RECORDS), len(self.capture.lines)
        return recs, lines

    def judge_reports(self, recs, lines, episodes):
        """
        episodes: models of the episodes that ended, in order, each with attribute ``must`` (report required).
        """
        if self.focus != 'logs':
            return
        d = self.d
        parsed = []
        for line in lines:
            with d.guard('malformed', f'log line {line!r}'):
                kv = {}
                for part in line.split(',\t'):
                    k, v = part.rsplit(': ', 1) if ': ' in part else (part, '')
                    d.check(k not in kv, 'log-field', f"field {k} appears twice in {line!r}")
                    kv[k] = v
                parsed.append((int(kv['ep']), kv, line))
        self.match(parsed, episodes, 'log', self.judge_line)
        # tensorboard: group scalar records by episode report
        for path in sorted({r[0] for r in recs}):
            d.check(any(path == e.tb_dir for e in episodes) or not episodes, 'tensorboard-dir',
                    f"records were written to {path}, expected {[e.tb_dir for e in episodes]}")
        groups = []
        for r in recs:
            if r[1] == 'scalar' and r[2] == 'episode/episode':
                groups.append((int(r[3]), [], r[0]))
        per_step = {}
        for r in recs:
            per_step.setdefault(r[4], []).append(r)
        with_tb = [e for e in episodes if e.tb_dir is not None]
        if not with_tb:
            d.check(not recs, 'tensorboard', f"unexpected tensorboard records {recs[:3]}")
            return
        reports = [(ep, per_step_of(recs, ep), path) for ep, _, path in groups]
        self.match(reports, with_tb, 'tensorboard', self.judge_tb)

    def match(self, reports, episodes, what, judge):
        d = self.d
        reports = list(reports)
        for e in episodes:
            mine = [r for r in reports if r[0] == e.ep]
            if e.must:
                d.check(len(mine) == 1, f'{what}-once', f"episode {e.ep} (t={e.t}) was reported {len(mine)} times to the {what}")
            else:
                d.check(len(mine) <= 1, f'{what}-once', f"episode {e.ep} was reported {len(mine)} times to the {what}")
            for r in mine:
                judge(e, r)
                reports.remove(r)
        d.check(not reports, f'{what}-unexpected', f"unexpected report of episode {[r[0] for r in reports]} to the {what}")

    def judge_line(self, e, report):
        d = self.d
        _, kv, line = report
        want = dict(ep=e.ep, T=e.T, G=e.G, avg_G=e.avg_G, t=e.t, avg_r=e.G / e.t if e.t else float('nan'))
        with d.guard('malformed', f'log line {line!r}'):
            for k, v in want.items():
                x = float(kv[k].replace(',', ''))
                tol = 0 if k in ('ep', 'T', 't') else 6e-3
                ok = math.isnan(x) if isinstance(v, float) and math.isnan(v) else abs(x - v) <= tol * max(abs(v), 1e-9) + 1e-12
                d.check(ok, f'log-{k}', f"log says {k}={kv[k]} for episode {e.ep}, expected {v}")
            dt = float(kv['dt'].replace('ms', ''))
            if e.start is not None and e.t and self.clock.on_read is None:
                self.check_dt(e, dt, 'dt', 6e-3)
            shown = {k: v for k, v in kv.items() if k not in want and k != 'dt'}
            means = e.means()
            must = means if self.log_all else {k: v for k, v in means.items() if k.endswith(('/loss', '/entropy', '/kl_div')) or k.startswith('throughput/')}
            d.check(set(shown) <= set(means), 'log-metrics', f"log of episode {e.ep} shows {sorted(shown)}, its metrics were {sorted(means)}")
            d.check(set(must) <= set(shown), 'log-metrics', f"log of episode {e.ep} lacks {sorted(set(must) - set(shown))}")
            for k, v in shown.items():
                d.check(abs(float(v) - means[k]) <= 6e-3 * max(abs(means[k]), 1e-9), 'log-metrics', f"log says {k}={v}, expected {means[k]}")

    def judge_tb(self, e, report):
        d = self.d
        _, recs, path = report
        d.check(path == e.tb_dir, 'tensorboard-dir', f"episode {e.ep} was reported to {path}, expected {e.tb_dir}")
        scalars = {}
        for r in recs:
            if r[1] == 'scalar':
                if r[2] in scalars:
                    d.violate('tensorboard-once', f"{r[2]} was written twice for episode {e.ep}")
                scalars[r[2]] = r
        want = {'episode/episode': e.ep, 'episode/return': e.G, 'episode/steps': e.t, 'episode/avg_reward': e.G / e.t if e.t else float('nan')}
        if not self.write_all:
            want.update(e.means())
        for k, v in want.items():
            d.check(k in scalars, 'tensorboard-missing', f"{k} was not written for episode {e.ep}")
            d.check(close(scalars[k][3], float(v)), 'tensorboard-value', f"{k} of episode {e.ep} is {scalars[k][3]}, expected {v}")
            d.check(scalars[k][4] == e.T, 'tensorboard-step', f"{k} of episode {e.ep} was written at step {scalars[k][4]}, expected {e.T}")
        if 'episode/avg_step_duration_ms' in scalars and e.start is not None and e.t and self.clock.on_read is None:
            self.check_dt(e, float(scalars['episode/avg_step_duration_ms'][3]), 'avg_step_duration_ms')
        extra = {k for k in scalars if k not in want and k not in ('episode/avg_step_duration_ms',)}
        d.check(not extra, 'tensorboard-extra', f"episode {e.ep}: unexpected {sorted(extra)}")
        hist = [r for r in recs if r[1] == 'histogram']
        d.check(len(hist) <= 1, 'tensorboard-once', f"{len(hist)} action histograms for episode {e.ep}")
        ok = sorted(float(onp.ravel(a)[0]) for a, s in e.actions if s)
        every = sorted(float(onp.ravel(a)[0]) for a, s in e.actions)
        got = sorted(float(onp.ravel(a)[0]) for r in hist for a in r[3])
        if ok:
            d.check(hist, 'tensorboard-missing', f"no action histogram for episode {e.ep}")
        # the histogram of a very long episode may be made of a sample of its actions
        d.check(contains(every, got) and (contains(got, ok) or len(every) > 1000 and len(got) >= 1000), 'tensorboard-actions', f"episode {e.ep}: actions {got}, expected {ok} (attempted: {every})")

    # -- operations -- #

    def reset(self):
        d, m, mon = self.d, self.m, self.monitor
        ended = m.snapshot() if m.ep else None
        if ended is not None:
            ended.must = ended.real
        pending = [ended] if ended is not None else []
        self.new_reports()
        if d.chance(0.2):
            self.clock.now += d.pick((0.5, 30.0))      # e.g. an evaluation between two episodes
        for attempt in range(3):
            fail = attempt < 2 and d.chance(0.15)
            env = mon.unwrapped
            env.script = EnvFault('reset failed') if fail else None
            if fail:
                d.fault('env_fault', 'reset')
            try:
                with d.calling('exception', 'reset', allow=(InjectedError,)):
                    out = mon.reset()
            except EnvFault:
                d.check(fail, 'harness', 'unexpected EnvFault')
                # whether an episode that never began counts is left open
                if mon.ep == m.ep + 1 and mon.T == m.T + 1:
                    m.begin(real=False)
                    ph = m.snapshot()
                    ph.must = False
                    pending.append(ph)
                    self.check_counters('failed reset')
                else:
                    for k in ('T', 'ep', 't', 'G'):
                        d.check(close(float(getattr(mon, k)), getattr(m, k)), f'counter-{k}', f"after a failed reset: {k} is {getattr(mon, k)}, expected {getattr(m, k)}")
                continue
            d.check(not fail, 'swallowed', "a failed environment reset was reported as success")
            with d.guard('malformed', 'reset result'):
                s, info = out
                d.check(s[0] == env.n_resets, 'reset-result', f"reset returned {s}")
            break
        m.begin()
        m.start = m.last = self.clock.now
        d.event('reset', m.ep, m.T)
        recs, lines = self.new_reports()
        self.judge_reports(recs, lines, pending)
        self.check_counters('reset')
        self.check_metrics()
        self.phase = 'running'

    def step(self):
        d, m, mon = self.d, self.m, self.monitor
        env = mon.unwrapped
        a = d.choose(4) if self.discrete else onp.array([d.int(-3, 3) / 4.])
        self.clock.now += 0.01 * d.choose(5)
        if d.chance(0.08):
            d.fault('env_fault', 'step')
            env.script = EnvFault('step failed')
            m.actions.append((a, False))
            try:
                with d.calling('exception', 'step', allow=(InjectedError,)):
                    mon.step(a)
            except EnvFault:
                pass
            else:
                d.violate('swallowed', "a failed environment step was reported as success")
            self.check_counters('failed step')
            return
        end = d.chance(0.2)
        term = end and not d.chance(0.4)
        trunc = end and (not term or d.chance(0.2))
        r = d.pick((1.0, 0.0, -0.5, 2.25, 10.0, -3.0) if not self.fine else (1.0, 16777217.0, -16777216.0, -0.5, 0.0))
        info = d.pick((dict, lambda: {'x': 1}, lambda: None, lambda: {'TimeLimit.truncated': trunc}, lambda: {'monitor': {'T': -5, 'ep': -5}}))()
        kind, flag = d.pick((float, float, onp.float32 if not self.fine else float, onp.float64, onp.array)), d.pick((bool, bool, onp.bool_, int))
        env.script = (onp.array([m.ep, m.t + 1.0]), kind(r), flag(term), flag(trunc), info)
        own = dict(info or {})
        T, ep = m.T, m.ep
        with d.calling('exception', 'step'):
            out = mon.step(a)
        m.t += 1
        m.T += 1
        m.G += r
        m.last = self.clock.now
        m.actions.append((a, True))
        if end:
            m.finish()
            self.phase = 'idle'
        d.event('step', r, term, trunc)
        with d.guard('malformed', 'step result'):
            s, r_, term_, trunc_, info_ = out
            d.check(r_ == r and bool(term_) == term and bool(trunc_) == trunc and s[1] == m.t, 'step-result', f"step returned {out}")
            if self.focus == 'counters':
                d.check(info_['monitor']['ep'] == ep and info_['monitor']['T'] == T, 'info', f"info says {info_['monitor']}, expected T={T}, ep={ep}")
                d.check({k: info_.get(k) for k in own if k != 'monitor'} == {k: v for k, v in own.items() if k != 'monitor'}, 'info', f"the environment reported {own}, the monitor passed on {info_}")
        self.check_counters('step')

    def burst(self):
        """ a long uneventful stretch: one long episode or many short ones """
        d, m = self.d, self.m
        d.probe('burst')
        rng = onp.random.RandomState(d.choose(1 << 16))
        long = d.chance(0.5)
        if long:
            for _ in range(d.int(100, 1400)):
                self.plain_step(rng, False)
            self.check_counters('long episode')
        else:
            for _ in range(d.int(20, 150)):
                for k in range(int(rng.randint(0, 4))):
                    self.plain_step(rng, False)
                self.plain_step(rng, True)
                if rng.rand() < 0.3:
                    self.monitor.record_metrics({'misc': 1.0})
                    x, n = self.m.metrics.get('misc', (0., 0))
                    self.m.metrics['misc'] = x + 1.0, n + 1
                    if self.write_all:
                        self.new_reports()
                self.quiet_reset()
            self.check_counters('many episodes')
        d.event('burst', m.T, m.ep)

    def plain_step(self, rng, end):
        d, m, mon = self.d, self.m, self.monitor
        a = int(rng.randint(4)) if self.discrete else onp.array([rng.randint(-3, 4) / 4.])
        r = float(rng.randint(-8, 9) / 4)
        mon.unwrapped.script = (onp.array([m.ep, m.t + 1.0]), r, end, False, {})
        with d.calling('exception', 'step'):
            mon.step(a)
        m.t += 1
        m.T += 1
        m.G += r
        m.last = self.clock.now
        m.actions.append((a, True))
        if end:
            m.finish()

    def quiet_reset(self):
        """ a reset without failures """
        d, m, mon = self.d, self.m, self.monitor
        ended = m.snapshot()
        ended.must = ended.real
        self.new_reports()
        mon.unwrapped.script = None
        with d.calling('exception', 'reset'):
            mon.reset()
        m.begin()
        self.judge_reports(*self.new_reports(), [ended])
        self.check_counters('reset')

    def record(self):
        d, m, mon = self.d, self.m, self.monitor
        names = ('x/loss', 'y/entropy', 'misc', 'throughput/z')
        metrics = {k: d.int(-8, 8) / 4. for k in names if d.chance(0.5)}
        if self.many:
            metrics.update({f'many/{i:02d}': i / 4. for i in range(d.pick((12, 25, 60)))})
        give = {k: d.pick((float, onp.float32, onp.array))(v) for k, v in metrics.items()}
        if self.last_given and d.chance(0.25):
            metrics, give = self.last_given      # the very same objects once more
            d.probe('recorded_again')
        self.last_given = metrics, dict(give)
        self.new_reports()
        with d.calling('exception', 'record_metrics'):
            mon.record_metrics(give)
        for k, v in metrics.items():
            x, n = m.metrics.get(k, (0., 0))
            m.metrics[k] = x + v, n + 1
        d.event('record', metrics)
        if self.focus == 'logs':
            recs, _ = self.new_reports()
            want = sorted((m.tb_dir, k, v, m.T) for k, v in metrics.items()) if self.write_all and m.tb_dir is not None else []
            got = sorted((r[0], r[2], r[3], r[4]) for r in recs)
            d.check(got == want, 'write-all', f"recording {metrics} wrote {got}, expected {want}")
        if d.chance(0.5):
            give.clear()
        self.check_metrics()

    def period(self):
        d, m, mon = self.d, self.m, self.monitor
        kind = d.pick(('T', 'ep'))
        name, P = d.pick((('a', 3), ('b', 7), ('c', 1), ('d', 20)))
        cnt = m.periods.get((kind, name), 1)
        want = getattr(m, kind) >= cnt * P
        with d.calling('exception', 'period'):
            got = mon.period(name, **{f'{kind}_period': P})
        d.check(bool(got) == want, 'period', f"period({name}, {kind}_period={P}) is {got} at {kind}={getattr(m, kind)} after {cnt - 1} triggers")
        m.periods[(kind, name)] = cnt + int(want)
        if want:
            d.probe('period_fired')

    def save(self):
        d, m, mon = self.d, self.m, self.monitor
        kind = d.pick(('counters', 'file', 'pickle'))
        with d.calling('exception', f'save {kind}'):
            if kind == 'counters':
                obj = mon.get_counters()
            elif kind == 'file':
                obj = os.path.join(self.dir, f'c{len(self.saved)}', 'counters.pkl.lz4') if d.chance(0.5) else os.path.join(self.dir, 'latest.pkl.lz4')
                if os.path.dirname(obj) != self.dir:
                    os.makedirs(os.path.dirname(obj), exist_ok=True)
                mon.save_counters(obj)
                if obj.endswith('latest.pkl.lz4'):
                    self.saved = [s for s in self.saved if s[1] != obj]
            else:
                obj = cloudpickle.dumps(mon)
        self.saved.append((kind, obj, m.snapshot()))
        d.event('save', kind, m.T, m.ep)
        self.check_counters('save')

    def restore(self, entry=None, crash=False):
        """ restore a snapshot in this or in a new monitor """
        d = self.d
        kind, obj, model = entry or d.pick(self.saved)
        other = crash or kind == 'pickle' or d.chance(0.5)
        d.fault('crash_restore' if crash else 'restore', kind, model.T)
        with d.calling('exception', f'restore {kind}'):
            if kind == 'pickle':
                self.monitor = cloudpickle.loads(obj)
            else:
                if other:
                    self.monitor, _ = self.build()
                if kind == 'file':
                    self.monitor.load_counters(obj)
                else:
                    self.monitor.set_counters(obj)
        self.m = model.snapshot()
        self.m.start = None
        self.new_reports()
        self.check_counters(f'restore {kind}')
        self.check_metrics()
        # the environment itself is not part of the snapshot: the interrupted episode is over unless the same env goes on
        self.phase = 'running' if not other and d.chance(0.5) and model.ep and model.real else 'idle'

    def reject(self):
        d, mon = self.d, self.monitor
        what = d.pick(('counters', 'counters-type', 'metrics'))
        d.fault('rejected_call', what)
        try:
            if what == 'counters':
                c = dict(mon.get_counters())
                c.pop(sorted(c)[0])
                mon.set_counters(c)
            elif what == 'counters-type':
                mon.set_counters([1, 2])
            else:
                mon.record_metrics([('a', 1.0)])
        except Exception as e:
            d.event('rejected', what, type(e).__name__)
        else:
            d.violate('not-rejected', f"invalid call was accepted: {what}")
        self.check_counters('rejected call')
        self.check_metrics()

    def loop(self, n):
        d = self.d
        for _ in d.steps(3, n):
            ops = [('step', 12)] if self.phase == 'running' else [('reset', 12)]
            ops += [('record', 4), ('save', 2), ('reject', 1), ('period', 3)]
            if self.phase == 'running':
                ops.append(('reset', 1))      # abandon an episode
                if self.long:
                    ops.append(('burst', 3))
            if self.saved:
                ops += [('restore', 2), ('crash', 1)]
            if self.m.ep:
                ops.append(('reset_global', 0 if d.tier == 'quick' and self.focus == 'logs' else 1))
            op = d.weighted([o for o in ops if o[1]])
            d.sched(op)
            if op == 'crash':
                # the process dies: only what was written survives
                durable = [s for s in self.saved if s[0] != 'counters']
                if not durable:
                    continue
                self.restore(d.pick(durable), crash=True)
            elif op == 'reset_global':
                with d.calling('exception', 'reset_global'):
                    self.monitor.reset_global()
                tb = self.m.tb_dir
                self.m = Model(self.smoothing, tb)
                self.phase = 'idle'
                self.new_reports()
                self.check_counters('reset_global')
            else:
                getattr(self, op)()
            d.state(self.m.ep, self.m.T, self.m.t, len(self.saved))

    def finish(self):
        """ every snapshot still restores to the moment at which it was taken """
        d = self.d
        for entry in self.saved[-4:]:
            self.restore(entry)
        if self.m.ep:
            self.reset()
        if self.logfile is not None:
            path, skip = self.logfile
            with d.calling('log-file', 'reading the log file'), open(path) as f:
                text = f.read()
            got = [x for x in text.splitlines() if re.search(r'\bep: ', x)]
            want = self.capture.lines[skip:]
            d.check(len(got) == len(want), 'log-file', lambda: f"the log file has {len(got)} episode reports, {len(want)} were logged")
            for x, y in zip(got, want):
                d.check(x.endswith(y), 'log-file', lambda: f"the log file says {x!r} where {y!r} was logged")


def drop_handlers(before, *more):
    """ detach what was attached to the root logger during the run """
    root = logging.getLogger()
    for h in list(root.handlers):
        if h not in before and isinstance(h, logging.FileHandler) or h in more:
            root.removeHandler(h)
            h.close()


def contains(big, small):
    big = list(big)
    for x in small:
        if x in big:
            big.remove(x)
        else:
            return False
    return True


def per_step_of(recs, ep):
    """ the records of the report of one episode: those around its 'episode/episode' record with the same step and directory """
    marks = [r for r in recs if r[2] == 'episode/episode' and int(r[3]) == ep]
    if not marks:
        return []
    path, step = marks[0][0], marks[0][4]
    return [r for r in recs if r[0] == path and r[4] == step]


def run(d, focus):
    sim = Sim(d, focus)
    with simtime.simulated(sim.clock):
        sim.loop(d.pick((25, 60, 100)))
        sim.finish()
    d.is_nontrivial = sim.m.ep > 1 and sum(v for k, v in d.faults.items() if not k.startswith('clock')) > 0


_ = coax
