""" C04: the shared step budget counts real steps and stops every loop. """
import numpy as onp
import coax

from . import _cluster as cl


def config(d):
    c = cl.Config()
    c.topology = d.weighted([('remote', 5), ('local', 3)])
    c.n_rollout = d.int(1, 4)
    c.n_learn = d.choose(3)
    c.buffer = 'simple'
    c.trace = d.pick(('flush', 'pop'))
    c.max_episode_steps = d.pick((1, 3, 7, 12, 20))
    c.start_T = d.pick((0, 0, 0, 1000, 1))
    c.budget = c.start_T + d.pick((1, 2, 5, 12, 30, 60, 0, -1))
    if d.chance(0.3):
        c.threshold = d.pick((0.5, 1.0, 3.0, -50.0, 6.0, 0.0))
    if d.chance(0.2):
        c.spec_threshold = d.pick((0.5, 2.0, -50.0))
    c.batch_size = 1
    c.step_time = d.pick((0.01, 0.0, 0.1))
    c.max_faults = d.int(1, 8)
    if d.chance(0.75):
        c.delay = d.pick((0.001, 0.05, 1.0))
    if d.chance(0.3):
        c.request_loss = 0.05
    if d.chance(0.3):
        c.reply_loss = 0.05
    if d.chance(0.25):
        c.stall = 0.1
    if d.chance(0.3):
        c.env_fail = 0.05
    if d.chance(0.3):
        c.crash = 0.6
    if d.chance(0.03):
        d.probe('long')
        c.max_episode_steps = d.int(30, 200)
        c.start_T = d.pick((0, 10 ** 6, 123456))
        c.budget = c.start_T + d.int(100, 700)
    return c


def run(d):
    cfg = config(d)
    closed = []

    def driver(ctx):
        k = ctx.kernel
        cl.default_driver(ctx)
        rollouts = [t for t in k.tasks if t.name.startswith('sup-r')]

        def closer():
            """ all rollout loops have returned (maybe because of the reward threshold): now exhaust the budget """
            for t in rollouts:
                k.wait(t.finished)
            ctx.cluster.faults_on = False
            ctx.watch_counter()
            closed.append(k.seq())
            w = cl.SimWorker('closer', ctx.store_handle, 'client')
            if len(ctx.store.buffer) == 0:   # a learner that waits for experience gets it
                tracer = coax.reward_tracing.NStep(1, 0.9)
                tracer.add(onp.zeros(4), 0, 0.0, True)
                w.buffer_add(tracer.flush())
            if ctx.store.env.T < cfg.budget:
                w.push_setattr('env.T', cfg.budget)
        k.spawn('closer', closer)
    ctx = cl.run_cluster(d, cfg, driver)
    d.check(ctx.status == 'done', 'no-progress',
            lambda: f"loops did not return: {ctx.status} at t={ctx.kernel.now:.3f}, counter {ctx.counter[-1:]}, budget {cfg.budget}, loops: {ctx.loops}")
    judge(d, ctx, closed[0] if closed else float('inf'))


def average(episodes):
    n, avg = 0., 0.
    for e in episodes:
        n = min(10., n + 1)
        avg += (sum(r for _, _, r in e.steps) - avg) / n
    return avg


def judge(d, ctx, closed):
    cfg = ctx.cfg
    threshold = cfg.threshold if cfg.threshold is not None else cfg.spec_threshold if cfg.spec_threshold is not None else float('inf')
    counter = [c for c in ctx.counter if c[0] <= closed]
    d.check(counter and counter[0][1] == cfg.start_T, 'counter', f"counter started at {counter[:1]}, expected {cfg.start_T}")
    done = [e for e in ctx.episodes if e.complete]

    def values(lo, hi):
        return [v for (seq, v), nxt in zip(counter, counter[1:] + [(float('inf'), None)]) if seq < hi and nxt[0] >= lo]

    # which episodes have been counted, tracking all explanations
    possible = {frozenset()}
    for seq, value in counter[1:]:
        cands = [(i, e) for i, e in enumerate(done) if e.ended < seq and value - len(e.steps) in values(e.ended, seq)]
        possible = {p | {i} for p in possible for i, _ in cands if i not in p}
        d.check(possible, 'counter', f"counter became {value}; no way to explain that by distinct completed episodes "
                                     f"(lengths {[len(e.steps) for e in done]}, history {[v for _, v in counter]})")
        if len(possible) > 2000:
            possible = set(sorted(possible, key=sorted)[:2000])
            d.probe('explanations_capped')
            break
    # episodes that did not finish concurrently are all counted
    clean = not any(d.faults.get(x) for x in ('request_loss', 'reply_loss', 'actor_crash', 'task_crash', 'env_fault'))
    windows = []
    for w in {h['worker'] for h in ctx.history if h['worker'] != 'closer'}:
        hs = [h for h in ctx.history if h['worker'] == w and h.get('name') == 'env.T']
        for i, h in enumerate(hs):
            if h['op'] == 'push_setattr':
                lo = max([x['inv'] for x in hs[:i] if x['op'] == 'pull_getattr'] + [-1])
                windows.append((lo, h['ret']))
    windows.sort()
    disjoint = all(a[1] < b[0] for a, b in zip(windows, windows[1:]))
    if clean and disjoint and counter:
        want = cfg.start_T + sum(len(e.steps) for e in done)
        d.check(counter[-1][1] == want, 'uncounted', f"counter ended at {counter[-1][1]}, expected {want}: an episode was not counted")
        d.probe('sequential')
    if windows and not disjoint:
        d.probe('concurrent_counting')
    # loops
    for w in sorted({x[0] for x in ctx.loops} | set(ctx.by_worker)):
        hs = [h for h in ctx.history if h['worker'] == w and h.get('name') == 'env.T' and
              (h['op'] == 'push_setattr' or (h['op'] == 'pull_getattr' and h['ok']))]

        def last_seen(seq, ops=('pull_getattr', 'push_setattr'), hs=hs):
            out = None
            for h in hs:
                if h['op'] in ops:
                    if h['op'] == 'push_setattr' and h['inv'] < seq:
                        out = h['value']
                    if h['op'] == 'pull_getattr' and h['ret'] < seq:
                        out = h['result']
            return out
        eps = ctx.by_worker.get(w, [])
        for e in eps:
            T = last_seen(e.started)
            before = [x for x in eps if x.complete and x.ended < e.started]
            avg, done_before = average(before), len(before)
            d.check(T is not None and T < cfg.budget, 'over-budget', f"{w}: started episode {e.number} although the counter had reached {T} (budget {cfg.budget})")
            # (the average of up to two returns is exact)
            d.check(avg < threshold + (1e-9 if done_before > 2 else 0), 'over-threshold', f"{w}: started episode {e.number} although the average return {avg} had reached {threshold}")
        learns = [x for x in ctx.learns if x['worker'] == w]
        for i, x in enumerate(learns):
            T = last_seen(x['seq'], ('pull_getattr',))
            d.check(T is not None and T < cfg.budget, 'over-budget', f"{w}: update although the counter had reached {T} (budget {cfg.budget})")
            if i:
                d.check(any(learns[i - 1]['seq'] < h['inv'] < x['seq'] for h in hs), 'counter-not-read', f"{w}: update without reading the counter")
        for name, role, outcome, seq in ctx.loops:
            if name == w and outcome == 'ok':
                T = last_seen(seq)
                avg = average([x for x in eps if x.complete and x.ended < seq])
                d.check(T is not None and (T >= cfg.budget or (role == 'rollout' and avg >= threshold - 1e-9)), 'stopped-early',
                        f"{w}: {role} loop returned at counter {T} (budget {cfg.budget}), average return {avg} (threshold {threshold})")
                d.probe('stopped_by_budget' if T >= cfg.budget else 'stopped_by_threshold')
    d.state(cfg.topology, len(done), [v for _, v in counter])
    d.is_nontrivial = len(counter) > 2
