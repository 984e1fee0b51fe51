""" C01: distributed experience reaches the shared buffer exactly once, intact. """
import numpy as onp

from . import _cluster as cl
from .. import batches


def config(d):
    c = cl.Config()
    c.topology = d.weighted([('remote', 5), ('local', 3)])
    c.n_rollout = d.int(1, 4)
    c.n_learn = d.choose(2)
    c.buffer = d.weighted([('per', 2), ('simple', 1)])
    c.capacity = 10000 if d.chance(0.7) else d.int(3, 25)
    c.tracer = d.weighted([('nstep', 4), ('mc', 1)])
    c.n = d.int(1, 5)
    c.gamma = d.pick((0.9, 0.5, 1.0, 0.99))
    c.trace = d.pick(('pow2', 'flush', 'pop'))
    c.max_episode_steps = d.int(1, 13)
    c.budget = d.int(5, 80)
    c.batch_size = d.int(1, 6)
    c.step_time = d.pick((0.01, 0.0, 0.1))
    c.max_faults = d.int(1, 10)
    if d.chance(0.7):
        c.delay = d.pick((0.001, 0.05, 1.0))
    if d.chance(0.35):
        c.request_loss = 0.06
    if d.chance(0.35):
        c.reply_loss = 0.06
    if d.chance(0.25):
        c.stall = 0.1
    if d.chance(0.5):
        c.env_fail = d.pick((0.03, 0.1))
    if d.chance(0.4):
        c.crash = 0.7
    if c.n_learn:
        c.warmup_store = d.pick((None, 2))
        c.batch_size = min(c.batch_size, 2)
    if d.chance(0.25):
        c.obs = 'dict'
    if d.chance(0.1):
        c.own_tracer = True
    if d.chance(0.2):
        c.phases, c.more = 2, d.int(5, 20)
    c.long = d.chance(0.03)
    if c.long:
        d.probe('long')
        c.max_episode_steps = d.int(50, 300)
        c.budget = d.int(200, 1000)
        c.n = d.pick((1, 5, 20, 50))
        c.capacity = max(c.capacity, d.int(100, 900))
    return c


def run(d):
    cfg = config(d)
    if cfg.n_learn and cfg.capacity < 8:
        cfg.capacity = 8
    # a learner could wait forever for experience that no rollout will ever deliver: make sure that there is enough
    cfg.budget = max(cfg.budget, 12)
    ctx = cl.run_cluster(d, cfg, max_steps=600000 if cfg.long else 60000)
    d.check(ctx.status == 'done', 'no-progress', f"loops did not return: {ctx.status} at t={ctx.kernel.now:.3f}, loops: {ctx.loops}")
    judge(d, ctx)


def judge(d, ctx):
    cfg = ctx.cfg
    ref = cl.reference(ctx)
    seen = {}
    order = []
    for seq, rows, advs in ctx.adds:
        if cfg.buffer == 'per':
            d.check(onp.shape(advs) == (len(rows),), 'priority', f"got priorities of shape {onp.shape(advs)} for {len(rows)} transitions")
        for i, row in enumerate(rows):
            with d.guard('malformed', 'transition'):
                key = cl.key_of(row)
            d.check(key in ref, 'unknown-transition', f"buffer received transition {key}, which does not correspond to any (completed) steps")
            diff = cl.differs(row, ref[key])
            d.check(diff is None, 'content', f"transition {key} arrived with wrong content: {diff}")
            d.check(key not in seen, 'duplicate', f"transition {key} was added twice")
            if advs is not None:
                want = cl.advantage(row['S'])
                d.check(abs(float(advs[i]) - want) < 1e-5, 'priority', f"transition {key}: priority {advs[i]}, worker computed {want}")
            seen[key] = seq
            order.append(key)
    # actions and propensities are those of the policy
    for e in ctx.episodes:
        for (s, a, r), logp, stamp in zip(e.steps, e.logps, e.stamps):
            wa, wlogp = cl.policy(s, stamp)
            d.check(a == wa and abs(logp - wlogp) < 1e-6, 'propensity', f"episode {e.key}: traced (a={a}, logp={logp}), policy said ({wa}, {wlogp})")
    # acknowledged additions are never lost
    acked = 0
    for h in ctx.history:
        if h['op'] == 'buffer_add' and h['ok']:
            for key in h['keys']:
                acked += 1
                d.check(key in seen and h['inv'] < seen[key] < h['ret'], 'lost',
                        f"addition of {key} by {h['worker']} was acknowledged, but the buffer "
                        f"{'received it later' if key in seen else 'never received it'}")
    # priority updates as well
    if cfg.buffer == 'per':
        updates = list(ctx.updates)
        for h in sorted((h for h in ctx.history if h['op'] == 'buffer_update'), key=lambda h: (not h['ok'], h['ret'])):   # earliest deadline first
            mine = [u for u in updates if h['inv'] < u[0] and (not h['ok'] or u[0] < h['ret']) and batches.same(u[1], h['idx']) and batches.same(u[2], h['adv'], 1e-5)]
            d.check(mine or not h['ok'], 'lost', lambda: f"priority update of {h['worker']} for {h['idx']} was acknowledged, but the buffer did not receive it as sent")
            if mine:
                updates = [u for u in updates if u is not mine[0]]
        d.check(not updates, 'unknown-update', lambda: f"buffer received priority updates that nobody sent, or twice: {updates[:2]}")
    # completed rollouts are delivered in full
    for e in ctx.episodes:
        if e.rolled_out:
            d.check(e.complete, 'aborted', f"rollout of episode {e.key} returned before the episode had finished")
            d.check(len(e.logps) == len(e.steps), 'untraced', f"episode {e.key}: {len(e.steps)} steps, {len(e.logps)} traced")
            for t in range(len(e.steps)):
                d.check((e.uid, e.number, t) in seen, 'lost', f"step {t} of episode {e.key} was never added to the buffer")
    # the buffer holds what it was given, up to capacity
    with d.guard('malformed', 'buffer contents'):
        held = [tb for tb in ctx.store.buffer]
        rows = [cl._rows(tb)[0] for tb in held]
        keys = [cl.key_of(row) for row in rows]
    want = order[-cfg.capacity:]
    d.check(sorted(keys) == sorted(want), 'contents', f"buffer holds {sorted(keys)}, expected {sorted(want)}")
    for key, row in zip(keys, rows):
        diff = cl.differs(row, ref[key])
        d.check(diff is None, 'content', f"transition {key} is stored with wrong content: {diff}")
    if any(e.failed for e in ctx.episodes):
        d.probe('failed_episode')
        ok = {e.worker for e in ctx.episodes if e.failed and any(f.worker == e.worker and f.started > e.started and f.rolled_out
                                                                  for f in ctx.episodes)}
        if ok:
            d.probe('rollout_after_failed_episode')
    if any(h['op'] == 'buffer_add' and not h['ok'] for h in ctx.history):
        d.probe('failed_addition')
    if len(order) > cfg.capacity:
        d.probe('evicted')
    d.state(cfg.topology, len(ctx.episodes), len(order), len(seen))
    d.is_nontrivial = len([e for e in ctx.episodes if e.rolled_out]) > 1 and (cfg.n_rollout > 1 or bool(d.faults))


_ = batches
