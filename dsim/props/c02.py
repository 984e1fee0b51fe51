""" C02: sampling waits for enough experience and never deadlocks the system. """
import numpy as onp

from . import _cluster as cl
from .. import batches, fakeray


def config(d):
    c = cl.Config()
    c.topology = d.weighted([('remote', 5), ('local', 3), ('self', 2)])
    c.buffer = d.weighted([('per', 1), ('simple', 1)])
    c.n_writers = d.int(1, 3)
    c.n_samplers = d.int(1, 3)
    c.large = d.chance(0.03)
    c.need = d.int(1, 24) if not c.large else d.int(100, 1500)
    c.capacity = c.need + d.choose(12)
    c.batch_size = d.int(1, c.need)
    c.warmup_store = d.weighted([(None, 2), (0, 1), (c.need, 3), (d.int(1, c.need), 2)])
    c.warmup_learner = d.weighted([(None, 2), (0, 1), (c.need, 3), (d.int(1, c.need), 2)])
    c.n_samples = d.int(1, 4)
    c.gap = d.pick((0.0, 0.001, 0.1, 3.0, 40.0, 120.0))
    c.prefill = d.chance(0.2)
    c.changes = d.choose(3) if c.n_samplers == 1 and not c.large and d.chance(0.4) else 0
    if d.chance(0.6):
        c.delay = d.pick((0.001, 0.05, 1.0))
    if d.chance(0.2):
        c.request_loss = 0.05
    if d.chance(0.2):
        c.reply_loss = 0.05
    if d.chance(0.2):
        c.stall = 0.1
    return c


def run(d):
    cfg = config(d)
    state = dict(tag=0, writes_done=0)
    marks = []     # (seq, what, value): settings changed, buffer cleared

    def fresh(n):
        tags = list(range(state['tag'], state['tag'] + n))
        state['tag'] += n
        return tags

    def add(ctx, worker, name, n):
        tags = fresh(n)
        tb = batches.make(tags)
        adv = onp.arange(1, n + 1, dtype='float64')
        while True:
            try:
                return ctx.call(name, 'buffer_add', lambda: worker.buffer_add(tb, adv), tags=tags)
            except Exception as e:
                if not cl.is_injected(e):
                    raise
                tags = fresh(n)
                tb = batches.make(tags)

    def writer(ctx, i, name=None):
        name = name or f'w{i}'
        worker = ctx.store_handle if cfg.topology == 'self' else cl.SimWorker(name, ctx.store_handle, 'rollout')
        left = -(-cfg.need // cfg.n_writers) + d.choose(4)
        while left > 0:
            if cfg.gap:
                ctx.kernel.sleep(cfg.gap * d.pick((0.1, 1.0, 0.5, 2.0)))
            else:
                ctx.kernel.yield_()
            n = d.int(1, min(left, 4 if not cfg.large else 150))
            left -= n
            add(ctx, worker, name, n)

    def sampler(ctx, i):
        name = f's{i}'
        worker = ctx.store_handle if cfg.topology == 'self' else cl.SimWorker(name, ctx.store_handle, 'learn')
        for _ in range(cfg.n_samples):
            if d.chance(0.3):
                ctx.kernel.sleep(cfg.gap * d.pick((0.3, 2.0, 5.0)))
            n = d.int(1, cfg.batch_size)
            if cfg.changes and d.chance(0.6):
                # an administrator empties the buffer or changes the warm-up
                what = d.pick(('clear', 'store', 'learner'))
                d.fault('admin_' + what)
                value = d.weighted([(None, 1), (0, 1), (cfg.need, 3), (d.int(1, cfg.need), 2)])
                while ctx.store is None:
                    ctx.kernel.sleep(0.001)
                if what == 'clear':
                    ctx.store.buffer.clear()
                    for j in range(cfg.n_writers):
                        ctx.kernel.spawn(f'v{j}', lambda j=j: writer(ctx, j, f'v{j}'))
                elif what == 'store':
                    ctx.store.buffer_warmup = value
                elif cfg.topology != 'self':
                    worker.buffer_warmup = value
                marks.append((ctx.kernel.seq(), what, value))
            try:
                ctx.call(name, 'sample', lambda: coax_sample(worker, n), n=n)
            except Exception as e:
                if not cl.is_injected(e):
                    raise

    def driver(ctx):
        topo = cfg.topology
        if topo == 'self':
            cfg.topology = 'local'
        cl.start_store(ctx)
        cfg.topology = topo
        if cfg.prefill and cfg.topology != 'remote':
            ctx.store.buffer_add(batches.make(fresh(cfg.need)), onp.ones(cfg.need))
        for i in range(cfg.n_writers):
            ctx.kernel.spawn(f'w{i}', lambda i=i: writer(ctx, i))
        for i in range(cfg.n_samplers):
            ctx.kernel.spawn(f's{i}', lambda i=i: sampler(ctx, i))

    ctx = cl.run_cluster(d, cfg, driver, max_time=50000.0)
    d.check(ctx.status == 'done', 'no-progress', lambda: (
        f"{ctx.status} at t={ctx.kernel.now:.3f}: unfinished tasks {[t.name for t in ctx.kernel.tasks if not t.daemon and t.killed]}"))
    judge(d, ctx, marks)


def coax_sample(worker, n):
    return super(cl.SimWorker, worker).buffer_sample(batch_size=n)


def judge(d, ctx, marks):
    cfg = ctx.cfg
    # history of additions as the buffer saw them
    added = []      # (seq, t, tag)
    for seq, rows, advs in ctx.adds:
        for row in rows:
            added.append((seq, int(row['S'][0])))
    position = {tag: i for i, (_, tag) in enumerate(added)}
    slack = 1e-3 + 24 * cfg.delay + 2 * ctx.cluster.stalled
    waited = False
    for h in ctx.history:
        if h['op'] == 'buffer_add' and h['ok']:
            d.check(h['t1'] - h['t0'] <= slack, 'blocked', f"an addition of {h['worker']} took {h['t1'] - h['t0']:.3f} s")
        if h['op'] != 'sample' or not h['ok']:
            continue
        tb, n = h['result'], h['n']
        now = dict(store=cfg.warmup_store, learner=cfg.warmup_learner, clear=None)
        base = 0         # number of additions before the last clear
        for seq, what, value in marks:
            if seq < h['inv']:
                now[what] = value
                base = sum(q < seq for q, _ in added) if what == 'clear' else base
        need = max(n, now['store'] or 0, (now['learner'] or 0) if cfg.topology != 'self' else 0)
        with d.guard('malformed', 'sample'):
            S = onp.asarray(tb.S)
            tags = [int(x) for x in S[:, 0]]
            rows = cl._rows(tb)
        d.check(len(tags) == n, 'size', f"asked for {n} transitions, got {len(tags)}")
        before = [i for i, (seq, _) in enumerate(added) if seq < h['ret']]
        d.check(min(len(before) - base, cfg.capacity) >= need, 'too-early',
                f"sample({n}) returned when the buffer held {min(len(before) - base, cfg.capacity)} transitions, needs {need}")
        for tag, row in zip(tags, rows):
            d.check(tag in position and position[tag] < len(before), 'unknown', f"sample contains transition {tag}, which the buffer did not hold")
            # it must not have been evicted before the request was made
            at_inv = sum(seq < h['inv'] for seq, _ in added)
            d.check(position[tag] >= max(base, at_inv - cfg.capacity), 'evicted', f"sample contains transition {tag}, which was evicted or cleared before the request")
            exp = {k: v for k, v in batches.content(tag).items() if k in ('S', 'A', 'logP', 'Rn', 'In', 'S_next', 'A_next', 'logP_next')}
            diff = cl.differs(row, exp)
            d.check(diff is None, 'content', f"transition {tag}: {diff}")
        # waiting
        sleeps = [s for s in ctx.sleeps if s[0] == h['worker'] and h['inv'] < s[3] < h['ret']]
        enough_seq = added[base + need - 1][0] if need else -1
        if enough_seq < h['inv']:
            d.check(not sleeps, 'needless-wait', f"sample({n}) waited {[s[2] for s in sleeps]} although there was enough experience")
            d.check(h['t1'] - h['t0'] <= slack, 'slow', f"sample({n}) took {h['t1'] - h['t0']:.3f} s although there was enough experience")
            d.probe('no_wait')
        else:
            waited = True
            late = [s for s in sleeps if s[3] > enough_seq]
            t_enough = [t for q, t in ctx.add_times if q == enough_seq][0]
            d.check(len(late) <= 1, 'over-wait', f"sample({n}) started {len(late)} waits after there was enough experience")
            d.check(h['t1'] <= t_enough + 30 + slack, 'over-wait',
                    f"sample({n}) returned {h['t1'] - t_enough:.3f} s after there was enough experience")
            d.probe('waited')
            if any(s[2] >= 29 for s in sleeps):
                d.probe('max_backoff')
        d.check(all(s[2] <= 30 for s in sleeps), 'long-wait', f"waiting intervals {[s[2] for s in sleeps]}")
    d.state(cfg.topology, cfg.need, cfg.batch_size, waited)
    d.is_nontrivial = waited and any(h['op'] == 'sample' and h['ok'] for h in ctx.history)


_ = fakeray
