"""
A simulated distributed agent: real coax.Worker, TrainMonitor, reward tracers and replay buffers on top of simulated ray actors (or an
in-process parameter store), simulated environments, a simulated clock, and fault injection.  Everything of interest is recorded in the
per-run context ``CTX``; the property modules judge the recording.
"""
import jax
import numpy as onp
import gymnasium
from gymnasium.envs.registration import EnvSpec

import coax
from coax.experience_replay import PrioritizedReplayBuffer, SimpleReplayBuffer

from .. import batches, fakeray
from ..core import EnvFault, InjectedError, HarnessError, in_repo as in_repo_
from ..kernel import Kernel

CTX = None
N_ACTIONS = 5


def is_injected(e):
    """ whether an exception is (caused by) an injected fault """
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, (InjectedError, fakeray.RayActorError)):
            return True
        e = getattr(e, 'cause', None) or e.__cause__ or e.__context__
    return False


# -- recording ----------------------------------------------------------------------------------- #

class Episode:
    def __init__(self, worker, number):
        self.worker = worker
        self.number = number
        self.steps = []              # (s, a, r)
        self.logps = []
        self.complete = False        # the environment finished the episode
        self.rolled_out = False      # rollout() returned normally
        self.failed = False
        self.started = CTX.kernel.seq()
        self.ended = None
        self.stamps = []             # stamp of the parameters that chose the actions

    @property
    def key(self):
        return self.worker, self.number


class Config:
    """ plain values only """
    topology = 'remote'
    n_rollout = 2
    n_learn = 1
    buffer = 'per'
    capacity = 10000
    tracer = 'nstep'
    n = 1
    gamma = 0.9
    trace = 'pow2'
    max_episode_steps = 6
    budget = 30
    threshold = None
    spec_threshold = None
    start_T = 0
    batch_size = 4
    warmup_store = None
    warmup_learner = None
    delay = 0.0
    request_loss = 0.0
    reply_loss = 0.0
    stall = 0.0
    env_fail = 0.0
    crash = 0.0
    step_time = 0.01
    distinct_lengths = False
    real_q = False
    max_faults = 6
    max_learn_time = 0.02
    late_finish = False
    obs = 'vec'
    own_tracer = False
    phases = 1
    more = 0


class Context:
    def __init__(self, d, cfg):
        self.d = d
        self.cfg = cfg
        self.kernel = Kernel(d)
        self.cluster = fakeray.Cluster(
            d, self.kernel, delay=cfg.delay, request_loss=cfg.request_loss, reply_loss=cfg.reply_loss, stall=cfg.stall,
            stall_s=0.5)
        self.episodes = []
        self.by_worker = {}
        self.adds = []               # (seq, rows, advs)  as received by the store's buffer
        self.add_times = []
        self.updates = []            # (seq, ids, advantages)  as received by the store's buffer
        self.history = []            # worker-level calls: dicts
        self.store_states = []       # (seq, stamp) states installed in the store
        self.counter = []            # (seq, value) of the store's env.T
        self.samples = []
        self.store = None            # worker instance that plays the store
        self.store_handle = None     # what the others talk to
        self.workers = {}
        self.loops = []              # (worker, kind, outcome, seq)
        self.learns = []
        self.next_stamp = 1
        self.uids = 0
        self.n_faults = 0
        self.lengths = []
        self.pool = None
        self.problems = []           # violations noticed by the simulated parts
        self.sleeps = []             # (task name, t, dt)
        self.kernel.clock.on_sleep = self._on_sleep

    def _on_sleep(self, dt):
        self.sleeps.append((self.kernel.current.name, self.kernel.now, dt, self.kernel.seq()))

    def budgeted(self, p, kind, *fields):
        """ inject a fault with probability p, as long as faults are on """
        if p and self.n_faults < self.cfg.max_faults and self.cluster.faults_on and self.d.chance(p):
            self.n_faults += 1
            self.d.fault(kind, *fields)
            return True
        return False

    def enforce_fault_budget(self):
        n = sum(v for k, v in self.d.faults.items() if k in ('request_loss', 'reply_loss', 'env_fault', 'actor_crash', 'task_crash'))
        if n >= self.cfg.max_faults:
            self.cluster.faults_on = False
            self.cluster.request_loss = self.cluster.reply_loss = 0.0

    def watch_counter(self):
        if self.store is not None:
            T = self.store.env.T
            if not self.counter or self.counter[-1][1] != T:
                self.counter.append((self.kernel.seq(), T))
                self.d.event('T', T)

    def call(self, worker, op, fn, **info):
        k = self.kernel
        rec = dict(worker=worker, op=op, inv=k.seq(), t0=k.now, ret=None, ok=None, **info)
        self.history.append(rec)
        try:
            rec['result'] = fn()
            rec['ok'] = True
            return rec['result']
        except BaseException as e:
            rec['ok'] = False
            rec['error'] = e
            raise
        finally:
            rec['ret'] = k.seq()
            rec['t1'] = k.now


# -- environment --------------------------------------------------------------------------------- #

class SimEnv(gymnasium.Env):
    """ Every observation says which worker, episode and step it belongs to. """
    metadata = {'render_modes': []}

    def __init__(self, owner):
        cfg = CTX.cfg
        self.owner = owner
        self.uid = CTX.uids = CTX.uids + 1
        self.observation_space = gymnasium.spaces.Box(-onp.inf, onp.inf, (4,), 'float64')
        if cfg.obs == 'dict':
            self.observation_space = gymnasium.spaces.Dict({'id': self.observation_space, 'x': gymnasium.spaces.Tuple((
                gymnasium.spaces.Discrete(1000), gymnasium.spaces.Box(-onp.inf, onp.inf, (2, 2), 'float32')))})
        self.action_space = gymnasium.spaces.Discrete(N_ACTIONS)
        self.spec = EnvSpec('SimEnv-v0', entry_point=SimEnv, max_episode_steps=cfg.max_episode_steps,
                            reward_threshold=cfg.spec_threshold, order_enforce=False, disable_env_checker=True)
        self.n_episodes = 0
        self.episode = None

    def _obs(self):
        e = self.episode
        t = len(e.steps)
        v = onp.array([self.uid, e.number, t, (self.uid * 31 + e.number * 7 + t * 3) % 17], dtype='float64')
        return v if CTX.cfg.obs == 'vec' else {'id': v, 'x': (int(v[3]), onp.full((2, 2), 100 * v[1] + v[2], 'float32'))}

    def _work(self, t):
        if t > 0:
            CTX.kernel.sleep(t * (1 + CTX.d.choose(4)))
        else:
            CTX.kernel.yield_()

    def reset(self, **kwargs):
        ctx, d, cfg = CTX, CTX.d, CTX.cfg
        if self.episode is not None and self.episode.ended is None:
            self.episode.failed = True
            self.episode.ended = ctx.kernel.seq()
        self.n_episodes += 1
        self.episode = e = Episode(self.owner, self.n_episodes)
        e.uid = self.uid
        ctx.episodes.append(e)
        ctx.by_worker.setdefault(self.owner, []).append(e)
        self._work(0)
        if ctx.budgeted(cfg.env_fail / 2, 'env_fault', self.owner, 'reset'):
            e.failed, e.ended = True, ctx.kernel.seq()
            raise EnvFault(f"{self.owner}: reset failed")
        hi = cfg.max_episode_steps
        self.length = d.int(1, hi)
        if cfg.distinct_lengths:
            for _ in range(hi):
                if self.length not in ctx.lengths:
                    break
                self.length = self.length % hi + 1
            ctx.lengths.append(self.length)
        self.ending = 'truncated' if self.length == hi or d.chance(0.3) else 'terminated'
        d.event('reset', self.owner, e.number, self.length, self.ending)
        return self._obs(), {}

    def step(self, a):
        ctx, d, cfg = CTX, CTX.d, CTX.cfg
        e = self.episode
        if e is None or e.ended is not None:
            ctx.problems.append(('step-after-end', f"{self.owner}: environment stepped although no episode is running"))
            raise RuntimeError("step on a finished episode")
        self._work(cfg.step_time)
        if ctx.budgeted(cfg.env_fail, 'env_fault', self.owner, 'step', len(e.steps)):
            e.failed, e.ended = True, ctx.kernel.seq()
            raise EnvFault(f"{self.owner}: step failed")
        s = self._obs()
        r = float(((self.uid * 5 + e.number * 3 + len(e.steps) * 11) % 19) - 6) / 4
        e.steps.append((s, int(a), r))
        e.stamps.append(self.owner_worker_stamp())
        last = len(e.steps) >= self.length
        if last:
            e.complete = True
            e.ended = ctx.kernel.seq()
        return (self._obs(), r, last and self.ending == 'terminated', last and self.ending == 'truncated', {})

    def owner_worker_stamp(self):
        w = CTX.workers.get(self.owner)
        return None if w is None else w.stamp


class SimPolicy:
    """ a policy that is a pure function of the observation and of the installed parameters """
    def __init__(self, owner):
        self.owner = owner

    def __call__(self, s, return_logp=False):
        a, logp = policy(s, CTX.workers[self.owner].stamp if self.owner in CTX.workers else 0)
        return (a, logp) if return_logp else a


def vec(s):
    return s['id'] if isinstance(s, dict) else s


def policy(s, stamp):
    s = vec(s)
    x = int(s[0] * 3 + s[1] * 5 + s[2] * 7) + 13 * stamp
    return x % N_ACTIONS, -((x * 7) % 23) / 11.


def advantage(row_s):
    row_s = vec(row_s)
    x = int(row_s[0] * 11 + row_s[1] * 5 + row_s[2] * 3)
    return (x % 29 - 14) / 5. * (1, 1, 1, 30)[x % 4]  # some are far larger than the rest


# -- buffers that remember what they were given -------------------------------------------------- #

def _rows(tb):
    n = len(tb.Rn)
    out = []
    for i in range(n):
        out.append({k: jax.tree_util.tree_map(lambda x: onp.array(x[i]), getattr(tb, k))
                    for k in ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next', 'W')})
    return out


def _record(tb, adv):
    seq = CTX.kernel.seq()
    CTX.adds.append((seq, _rows(tb), None if adv is None else onp.array(adv)))
    CTX.add_times.append((seq, CTX.kernel.now))


class RecordingPER(PrioritizedReplayBuffer):
    def add(self, transition_batch, Adv):
        _record(transition_batch, Adv)
        CTX.d.event('add', len(transition_batch.Rn))
        super().add(transition_batch, Adv)

    def update(self, idx, Adv):
        CTX.updates.append((CTX.kernel.seq(), onp.array(idx), onp.array(Adv)))
        CTX.d.event('update', onp.array(idx))
        super().update(idx, Adv)


class RecordingSimple(SimpleReplayBuffer):
    def add(self, transition_batch):
        _record(transition_batch, None)
        CTX.d.event('add', len(transition_batch.Rn))
        super().add(transition_batch)


def key_of(row):
    s = vec(row['S'])
    return int(s[0]), int(s[1]), int(s[2])   # uid, episode, step


# -- workers ------------------------------------------------------------------------------------- #

def make_state(stamp):
    return dict(stamp=onp.array(stamp), vec=onp.full(5, stamp, 'float64'), nest=(onp.array([stamp]), {'x': onp.full((2, 2), stamp)}))


def stamp_of(state):
    """ the stamp of a state; None if the state is not one of ours in full """
    try:
        vals = [int(state['stamp']), *map(int, state['vec'].ravel()), int(state['nest'][0][0]), *map(int, state['nest'][1]['x'].ravel())]
        if len(state) == 3 and len(vals) == 11 and len(set(vals)) == 1:
            return vals[0]
    except Exception:
        pass
    return None


class SimWorker(coax.Worker):
    def __init__(self, name, param_store=None, role='rollout'):
        ctx, cfg = CTX, CTX.cfg
        ctx.workers[name] = self
        self.role = role
        self._state = make_state(0)
        self.stamp = 0
        self.q = self.unit = None
        if ctx.pool is not None and role == 'rollout':
            self.unit = ctx.pool.take()
            pi = self.unit.pi
        else:
            pi = SimPolicy(name)
        buffer = None
        if param_store is None:
            buffer = (RecordingPER(cfg.capacity, alpha=0.6, beta=0.5, random_seed=1) if cfg.buffer == 'per'
                      else RecordingSimple(cfg.capacity, random_seed=1))
        tracer = (coax.reward_tracing.NStep(cfg.n, cfg.gamma) if cfg.tracer == 'nstep' else coax.reward_tracing.MonteCarlo(cfg.gamma))
        super().__init__(
            env=SimEnv(name), param_store=param_store, pi=pi, tracer=None if cfg.own_tracer else tracer, buffer=buffer, name=name,
            buffer_warmup=cfg.warmup_store if param_store is None else cfg.warmup_learner if role == 'learn' else None)
        self.own = tracer
        if param_store is None:
            ctx.store = self
            self.env.T = cfg.start_T

    # -- user code of the worker -- #

    def get_state(self):
        return self._state

    def set_state(self, state):
        stamp = stamp_of(state)
        CTX.d.event('set_state', self.name, stamp)
        self._state = state
        self.stamp = stamp
        if self.unit is not None and stamp is not None:
            self.unit.install(stamp)
        if self.role == 'store':
            CTX.store_states.append((CTX.kernel.seq(), stamp))
        else:
            CTX.history.append(dict(worker=self.name, op='installed', inv=CTX.kernel.seq(), ret=None, ok=True, stamp=stamp))

    def trace(self, s, a, r, done, logp=0.0, w=1.0):
        cfg = CTX.cfg
        CTX.by_worker[self.name][-1].logps.append(float(logp))
        tracer = self.own if cfg.own_tracer else self.tracer
        tracer.add(s, a, r, done, logp)
        if cfg.trace == 'pop':
            while tracer:
                self._ship(tracer.pop())
        elif done:
            tb = tracer.flush()
            if cfg.trace == 'pow2':
                for chunk in coax.utils.chunks_pow2(tb):
                    self._ship(chunk)
            else:
                self._ship(tb)

    def _ship(self, tb):
        keys = [tuple(int(x) for x in s[:3]) for s in onp.asarray(vec(tb.S))]
        adv = onp.array([advantage(s) for s in onp.asarray(vec(tb.S))])
        if CTX.cfg.buffer == 'per':
            CTX.call(self.name, 'buffer_add', lambda: self.buffer_add(tb, adv), keys=keys)
        else:
            CTX.call(self.name, 'buffer_add', lambda: self.buffer_add(tb), keys=keys)

    def learn(self, transition_batch):
        ctx, cfg = CTX, CTX.cfg
        rec = dict(worker=self.name, seq=ctx.kernel.seq(), stamp=self.stamp, n=len(transition_batch.Rn))
        ctx.learns.append(rec)
        ctx.kernel.sleep(max(1e-3, cfg.step_time) + cfg.max_learn_time * ctx.d.choose(3))   # time always advances
        stamp = ctx.next_stamp
        ctx.next_stamp += 1
        self._state = make_state(stamp)
        self.stamp = stamp
        rec['new'] = stamp
        ctx.d.event('learn', self.name, stamp)
        if cfg.buffer == 'per':
            idx = onp.array(transition_batch.idx)
            adv = onp.array([advantage(s) for s in onp.asarray(vec(transition_batch.S))]) * (1 + stamp % 5)
            ctx.call(self.name, 'buffer_update', lambda: self.buffer_update(transition_batch.idx, adv), idx=idx, adv=adv.copy())
        return {'sim/loss': float(stamp)} if stamp % 4 else {}      # a learner need not have any metrics

    # -- recording of the calls under test -- #

    def rollout(self):
        def run():
            if CTX.cfg.own_tracer:
                self.own.reset()
            super(SimWorker, self).rollout()
            CTX.by_worker[self.name][-1].rolled_out = True
        CTX.call(self.name, 'rollout', run)

    def pull_state(self):
        CTX.call(self.name, 'pull_state', super().pull_state)

    def push_state(self):
        CTX.call(self.name, 'push_state', super().push_state, stamp=self.stamp)

    def pull_getattr(self, name, default_value=...):
        if self.role == 'store':
            return super().pull_getattr(name, default_value)
        return CTX.call(self.name, 'pull_getattr', lambda: super(SimWorker, self).pull_getattr(name, default_value), name=name)

    def push_setattr(self, name, value):
        if self.role == 'store':
            super().push_setattr(name, value)
            return CTX.watch_counter()
        return CTX.call(self.name, 'push_setattr', lambda: super(SimWorker, self).push_setattr(name, value), name=name, value=value)

    def buffer_sample(self, batch_size=32):
        if self.role == 'store':
            return super().buffer_sample(batch_size=batch_size)
        return CTX.call(self.name, 'buffer_sample', lambda: super(SimWorker, self).buffer_sample(batch_size=batch_size), n=batch_size)


# -- pool of real q-functions -------------------------------------------------------------------- #

class QUnit:
    """ a real coax.Q with a real value-based policy; the parameters encode a stamp as the greedy action """
    def __init__(self, kind):
        import haiku as hk
        import jax.numpy as jnp
        self.env = type('E', (), {})()
        self.env.observation_space = gymnasium.spaces.Box(-onp.inf, onp.inf, (4,), 'float64')
        self.env.action_space = gymnasium.spaces.Discrete(N_ACTIONS)

        def func(S, is_training):
            return hk.Linear(N_ACTIONS, w_init=hk.initializers.Constant(0.))(jnp.asarray(S, 'float32') * 0.)

        self.q = coax.Q(func, self.env, random_seed=7)
        self.pi = coax.EpsilonGreedy(self.q, epsilon=0.0, ) if kind == 'eps' else coax.BoltzmannPolicy(self.q, temperature=0.001)

    def install(self, stamp):
        import jax
        import jax.numpy as jnp
        b = onp.zeros(N_ACTIONS, 'float32')
        b[stamp % N_ACTIONS] = 5.0
        self.q.params = jax.tree_util.tree_map(lambda x: jnp.asarray(b) if x.shape == (N_ACTIONS,) else x, self.q.params)


class Pool:
    def __init__(self):
        self.units = []
        self.used = 0

    def take(self):
        if self.used == len(self.units):
            self.units.append(QUnit('eps' if len(self.units) % 2 == 0 else 'boltzmann'))
        u = self.units[self.used]
        self.used += 1
        u.install(0)
        return u

    def reset(self):
        self.used = 0


POOL = Pool()


# -- running ------------------------------------------------------------------------------------- #

def run_cluster(d, cfg, driver=None, max_steps=60000, max_time=40000.0, prepare=None):
    """
    Runs rollout and learner loops until they return. ``driver(ctx)`` may replace the default set of tasks. Returns the context;
    ``ctx.status`` is the outcome of the kernel ('done' is the good one).
    """
    global CTX
    ctx = CTX = Context(d, cfg)
    if cfg.real_q:
        POOL.reset()
        ctx.pool = POOL

    def cleanup():
        global CTX
        CTX = None
    d.cleanups.append(cleanup)
    k = ctx.kernel
    if prepare is not None:
        prepare(ctx)
    d.event('config', {x: v for x, v in sorted(vars(cfg).items())})
    with ctx.cluster:
        try:
            (driver or default_driver)(ctx)

            def tick():
                ctx.watch_counter()
                ctx.enforce_fault_budget()
                return False
            ctx.status = k.run(max_steps=max_steps, max_time=max_time, until=tick)
            ctx.end_time = k.now
            d.event('end', ctx.status, k.steps)
        finally:
            k.shutdown()
    for kind, msg in ctx.problems:
        d.violate(kind, msg)
    for t in k.tasks:
        if t.error is not None:
            if isinstance(t.error, (HarnessError,)):
                raise t.error
            if t.error.__class__.__name__ == 'Violation' or not is_injected(t.error):
                raise t.error
    return ctx


def start_store(ctx):
    cfg = ctx.cfg
    if cfg.topology == 'remote':
        ctx.store_handle = fakeray.remote(SimWorker).options(name='store').remote('store', None, 'store')
    else:
        ctx.store_handle = SimWorker('store', None, 'store')


def default_driver(ctx):
    cfg, k = ctx.cfg, ctx.kernel
    start_store(ctx)
    for i in range(cfg.n_rollout):
        k.spawn(f'sup-r{i}', lambda i=i: supervise(ctx, f'r{i}', 'rollout'))
    for i in range(cfg.n_learn):
        k.spawn(f'sup-l{i}', lambda i=i: supervise(ctx, f'l{i}', 'learn'))


def supervise(ctx, name, role):
    """ runs one loop of one worker, restarts it after failures and replaces the worker after crashes """
    cfg, k, d = ctx.cfg, ctx.kernel, ctx.d
    incarnation = 0
    worker = handle = None
    phase = 0
    while True:
        wname = f'{name}.{incarnation}'
        outcome = 'ok'
        try:
            if worker is None and handle is None:
                if cfg.topology == 'remote':
                    handle = fakeray.remote(SimWorker).options(name=wname).remote(wname, ctx.store_handle, role)
                else:
                    worker = SimWorker(wname, ctx.store_handle, role)
            budget = cfg.budget + phase * cfg.more
            args = ((budget, cfg.threshold) if role == 'rollout' else (budget, cfg.batch_size))
            method = 'rollout_loop' if role == 'rollout' else 'learn_loop'
            if cfg.topology == 'remote':
                if cfg.crash and ctx.cluster.faults_on and d.chance(cfg.crash):
                    h, dt = handle, cfg.step_time * d.int(0, 40)
                    k.after(dt, lambda: ctx.cluster.faults_on and crash(ctx, h))
                fakeray.get(getattr(handle, method).remote(*args))
            elif cfg.crash and ctx.cluster.faults_on and d.chance(cfg.crash):
                w = worker
                t = k.spawn(f'{wname}.main', lambda: run_local(ctx, w, method, args))
                k.after(cfg.step_time * d.int(0, 40), lambda: crash_task(ctx, t))
                k.wait(t.finished)
                if t.killed:
                    outcome = 'died'
                elif t.error is not None:
                    e, t.error = t.error, None
                    raise e
            else:
                getattr(worker, method)(*args)
        except fakeray.ActorDiedError:
            outcome = 'died'
        except Exception as e:
            if not is_injected(e):
                ctx.loops.append((wname, role, 'error', k.seq()))
                raise
            outcome = 'fault'
        d.event('loop', wname, role, outcome)
        ctx.loops.append((wname, role, outcome, k.seq()))
        if outcome == 'ok':
            phase += 1
            if phase >= cfg.phases:
                return
        if outcome == 'died':
            incarnation += 1
            worker = handle = None
        k.sleep(0.001)


def run_local(ctx, worker, method, args):
    getattr(worker, method)(*args)


def crash(ctx, handle):
    ctx.cluster.crash(handle)


def crash_task(ctx, task):
    if task.state != 'finished' and ctx.cluster.faults_on:
        ctx.d.fault('task_crash', task.name)
        ctx.kernel.kill(task)


# -- reference model ----------------------------------------------------------------------------- #

def reference(ctx):
    """ (uid, episode, step) -> expected transition content, for every transition that can be known """
    cfg = ctx.cfg
    out = {}
    for e in ctx.episodes:
        T = len(e.steps)
        n = cfg.n if cfg.tracer == 'nstep' else T
        for t, (s, a, r) in enumerate(e.steps):
            if t >= len(e.logps):
                continue
            boot = t + n < T
            if not boot and not e.complete:
                continue
            if cfg.tracer != 'nstep' and not e.complete:
                continue
            exp = dict(S=s, A=a, logP=e.logps[t], Rn=sum(cfg.gamma ** k * e.steps[t + k][2] for k in range(min(n, T - t))),
                       In=cfg.gamma ** n if boot else 0.0, W=1.0)
            if boot:
                if t + n >= len(e.logps):
                    continue
                exp.update(S_next=e.steps[t + n][0], A_next=e.steps[t + n][1], logP_next=e.logps[t + n])
            out[(e.uid, e.number, t)] = exp
    return out


def differs(row, exp):
    for k, v in exp.items():
        x = row[k]
        if not batches.same(x, v, 1e-5):
            return f"{k}: got {x}, expected {v}"
    return None
