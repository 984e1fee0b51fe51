""" C03: parameter synchronisation is atomic, fresh and read-your-writes. """
from . import _cluster as cl


SLOW = True      # compiles


def setup():
    cl.POOL.take()
    cl.POOL.take()


def config(d):
    c = cl.Config()
    c.topology = d.weighted([('remote', 5), ('local', 3)])
    c.n_rollout = d.int(1, 3)
    c.n_learn = d.int(1, 2)
    c.n_clients = d.choose(3)
    c.buffer = d.weighted([('simple', 1), ('per', 1)])
    c.max_episode_steps = d.int(1, 6)
    c.budget = d.int(10, 60)
    c.batch_size = d.int(1, 3)
    c.step_time = d.pick((0.01, 0.0, 0.1))
    c.trace = 'pop'
    c.max_faults = d.int(1, 8)
    c.real_q = d.chance(0.35)
    if d.chance(0.75):
        c.delay = d.pick((0.001, 0.05, 1.0))
    if d.chance(0.3):
        c.request_loss = 0.04
    if d.chance(0.3):
        c.reply_loss = 0.04
    if d.chance(0.25):
        c.stall = 0.1
    if d.chance(0.3):
        c.env_fail = 0.04
    if d.chance(0.3):
        c.crash = 0.6
    return c


def client(ctx, name):
    """ a worker that pulls and pushes on its own account """
    d, k = ctx.d, ctx.kernel
    w = cl.SimWorker(name, ctx.store_handle, 'client')
    for _ in d.steps(1, 8):
        k.sleep(ctx.cfg.step_time * d.choose(20))
        try:
            if d.chance(0.5):
                w._state = cl.make_state(ctx.next_stamp)
                w.stamp = ctx.next_stamp
                ctx.next_stamp += 1
                w.push_state()
                if d.chance(0.4):
                    w.pull_state()
            else:
                w.pull_state()
        except Exception as e:
            if not cl.is_injected(e):
                raise


def run(d):
    cfg = config(d)

    def driver(ctx):
        cl.default_driver(ctx)
        for i in range(cfg.n_clients):
            ctx.kernel.spawn(f'c{i}', lambda i=i: client(ctx, f'c{i}'))
    ctx = cl.run_cluster(d, cfg, driver)
    d.check(ctx.status == 'done', 'no-progress', f"loops did not return: {ctx.status} at t={ctx.kernel.now:.3f}, loops: {ctx.loops}")
    judge(d, ctx)


def judge(d, ctx):
    cfg = ctx.cfg
    timeline = [(-1, 0)] + ctx.store_states

    def held(lo, hi):
        """ stamps that the store held at some moment within [lo, hi] """
        out = []
        for (seq, stamp), nxt in zip(timeline, timeline[1:] + [(float('inf'), None)]):
            if seq <= hi and nxt[0] >= lo:
                out.append(stamp)
        return out

    pushed = {h['stamp'] for h in ctx.history if h['op'] == 'push_state'}
    for seq, stamp in ctx.store_states:
        d.check(stamp is not None, 'torn-state', "the store received a state that nobody pushed (mixture)")
        d.check(stamp in pushed, 'unknown-state', f"the store holds state {stamp}, which nobody pushed")
    stale = 0
    for h in ctx.history:
        w = h['worker']
        if h['op'] == 'push_state' and h['ok']:
            d.check(any(h['inv'] < seq < h['ret'] and stamp == h['stamp'] for seq, stamp in ctx.store_states), 'push-not-applied',
                    f"{w}: push of state {h['stamp']} returned, but the store did not install it meanwhile")
        if h['op'] == 'pull_state' and h['ok']:
            inst = [x for x in ctx.history if x['op'] == 'installed' and x['worker'] == w and h['inv'] < x['inv'] < h['ret']]
            d.check(inst, 'pull-not-installed', f"{w}: pull returned without installing a state")
            got = inst[-1]['stamp']
            d.check(got is not None, 'torn-state', f"{w}: pull installed a state that nobody pushed (mixture)")
            ok = held(h['inv'], h['ret'])
            stale += len(ok) > 1
            d.check(got in ok, 'stale', f"{w}: pull installed state {got}, but meanwhile the store only held {ok}")
    # loops
    names = sorted({h['worker'] for h in ctx.history})
    for w in names:
        hs = [h for h in ctx.history if h['worker'] == w]
        pulls = [h for h in hs if h['op'] == 'pull_state' and h['ok']]
        rollouts = [h for h in hs if h['op'] == 'rollout']
        for e in ctx.by_worker.get(w, []):
            prev_end = max([h['ret'] for h in rollouts if h['ret'] is not None and h['ret'] < e.started] + [-1])
            d.check(any(prev_end < p['inv'] and p['ret'] < e.started for p in pulls), 'no-refresh',
                    f"{w}: episode {e.number} started without refreshing the parameters after the previous one")
            installed = [x['stamp'] for x in hs if x['op'] == 'installed' and x['inv'] < e.started]
            for (s, a, r), stamp in zip(e.steps, e.stamps):
                want = stamp % cl.N_ACTIONS if cfg.real_q else cl.policy(s, stamp)[0]
                d.check(stamp == installed[-1], 'wrong-params', f"{w}: acted on state {stamp}, installed was {installed[-1]}")
                d.check(a == want, 'wrong-params', f"{w}: episode {e.number}: action {a}, but parameters {stamp} say {want}")
        learns = [x for x in ctx.learns if x['worker'] == w]
        for i, x in enumerate(learns):
            prev = learns[i - 1]['seq'] if i else -1
            d.check(any(prev < p['inv'] and p['ret'] < x['seq'] for p in pulls), 'no-refresh',
                    f"{w}: update {x.get('new')} without refreshing the parameters")
            installed = [y['stamp'] for y in hs if y['op'] == 'installed' and y['inv'] < x['seq']]
            d.check(x['stamp'] == installed[-1], 'wrong-params', f"{w}: updated state {x['stamp']}, installed was {installed[-1]}")
            # published before the next update / refresh / normal end of the loop
            nxt = min([y['seq'] for y in learns[i + 1:]] + [p['inv'] for p in hs if p['op'] == 'pull_state' and p['inv'] > x['seq']]
                      + [float('inf')])
            end = [m for m in ctx.loops if m[0] == w and m[3] > x['seq']]
            failed = [m for m in end if m[2] != 'ok' and m[3] < nxt]
            died = not end
            pushes = [p for p in hs if p['op'] == 'push_state' and x['seq'] < p['inv'] < nxt and p['stamp'] == x.get('new')]
            if not failed and not died:
                d.check(pushes, 'not-published', f"{w}: update {x.get('new')} was not published before the next iteration")
    if stale:
        d.probe('concurrent_push_and_pull')
    if cfg.real_q:
        d.probe('real_q')
    d.state(cfg.topology, len(ctx.store_states), len(ctx.episodes))
    d.is_nontrivial = len(ctx.store_states) >= 2 and len(ctx.episodes) >= 2
