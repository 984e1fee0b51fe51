"""
C14: a checkpoint file is always either the complete old or the complete new one.

One to three processes save to and load from one or two files on the simulated disk (dsim/simdisk.py), in several epochs between which the machine reboots or the
processes are restarted.  Every save carries a unique version that is woven through the whole object; the history of saves and loads has to be that of one atomic
register per file.
"""
import os
import shutil
import tempfile

import numpy as onp

import coax
from coax.wrappers import TrainMonitor

from .. import batches, simdisk
from ..core import SimKilled, InjectedError
from ..kernel import Kernel
from ..linear import linearizable, TooHard
from ._monitor import Env

_scratch = None


def setup():
    global _scratch
    simdisk.install()
    _scratch = tempfile.mkdtemp(prefix='dsim-c14-')   # inside of the scratch directory of the runner


class Poison:
    """ an object that cannot be serialised """
    def __init__(self, how):
        self.how = how

    def __reduce__(self):
        raise self.how("injected: cannot be serialised")


class Thing:
    """ user-defined object with references to shared parts """
    def __init__(self, version, shared):
        self.version = version
        self.shared = shared


KINDS = ('plain', 'shared', 'together', 'listed', 'big', 'closure', 'buffer', 'tracer', 'batch', 'tiny')


def make(version, kind):
    v = version
    if kind == 'tiny':
        return ('tiny', v)
    if kind == 'plain':
        return {'kind': kind, 'v': v, 'x': onp.full((3, 2), v), 's': f"version {v}", 't': (v, [v, {'y': float(v)}]), 'n': None, 'b': bytes([v % 256]) * v}
    if kind == 'shared':
        a = [v]
        arr = onp.arange(4) + v
        t = Thing(v, a)
        return {'kind': kind, 'v': v, 'a': a, 'b': {'a': a}, 'arr': arr, 'arrs': [arr, arr], 't': t, 'self': [t]}
    if kind in ('together', 'listed'):      # several objects in one file, sharing parts of each other
        a, arr = [v], onp.arange(4) + v
        return (tuple if kind == 'together' else list)([kind, v, a, arr, Thing(v, a), {'arr': arr}])
    if kind == 'big':
        rng = onp.random.RandomState(v)
        return {'kind': kind, 'v': v, 'first': v, 'noise': rng.randint(0, 256, size=40_000 + 1000 * (v % 7)).astype('uint8'), 'last': v}
    if kind == 'closure':
        return {'kind': kind, 'v': v, 'f': (lambda x: x + v)}
    if kind in ('buffer', 'batch'):
        tags = [100 * v + i for i in range(3)]
        tb = batches.make(tags, 2)
        if kind == 'batch':
            return {'kind': kind, 'v': v, 'tb': tb}
        buf = coax.experience_replay.PrioritizedReplayBuffer(4, random_seed=v)
        buf.add(tb, onp.array([1., 2., 3.]))
        return {'kind': kind, 'v': v, 'buf': buf}
    if kind == 'tracer':
        tr = coax.reward_tracing.NStep(n=3, gamma=0.5)
        for i in range(4):
            tr.add(onp.array([v + i]), i, float(v), False)
        return {'kind': kind, 'v': v, 'tr': tr}
    raise AssertionError(kind)


def identify(x):
    """ (version, None) if x is a complete object, or (None, complaint) """
    try:
        if isinstance(x, (tuple, list)) and x[0] in ('together', 'listed'):
            assert type(x) is {'together': tuple, 'listed': list}[x[0]] and len(x) == 6, f"unknown object {x!r}"
            v = x[1]
            assert x[2] == [v] and onp.array_equal(x[3], onp.arange(4) + v) and x[4].version == v, "content"
            assert x[4].shared is x[2] and x[5]['arr'] is x[3], "shared parts"
            return v, None
        if isinstance(x, tuple):
            assert len(x) == 2 and x[0] == 'tiny', f"unknown object {x!r}"
            return x[1], None
        kind, v = x['kind'], x['v']
        assert isinstance(v, int)
        if kind == 'plain':
            ref = make(v, kind)
            assert set(x) == set(ref)
            assert isinstance(x['x'], onp.ndarray) and x['x'].dtype == ref['x'].dtype and onp.array_equal(x['x'], ref['x']), 'x'
            for k in ('s', 't', 'n', 'b'):
                assert x[k] == ref[k] and type(x[k]) is type(ref[k]), k
        elif kind == 'shared':
            assert x['a'] == [v] and x['b']['a'] is x['a'], "shared list"
            assert x['t'].shared is x['a'] and x['t'].version == v and x['self'][0] is x['t'], "shared object"
            assert x['arrs'][0] is x['arr'] and x['arrs'][1] is x['arr'] and onp.array_equal(x['arr'], onp.arange(4) + v), "shared array"
        elif kind == 'big':
            ref = make(v, kind)
            assert x['first'] == x['last'] == v and onp.array_equal(x['noise'], ref['noise']), 'noise'
        elif kind == 'closure':
            assert x['f'](1) == v + 1, 'f'
        elif kind == 'batch':
            for i in range(3):
                assert batches.mismatch(x['tb'], i, 100 * v + i, 2) is None, 'tb'
        elif kind == 'buffer':
            tags = sorted(batches.tag_of(tb, 0) for tb in x['buf'])
            assert tags == [100 * v + i for i in range(3)], f"buffer holds {tags}"
        elif kind == 'tracer':
            tb = x['tr'].pop()
            assert int(onp.asarray(tb.S).ravel()[0]) == v and len(x['tr']) == 3, 'tracer'
        else:
            return None, f"unknown kind {kind}"
        return v, None
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"


class Monitors:
    """ a file that holds the counters of a TrainMonitor """
    @staticmethod
    def make(version):
        m = TrainMonitor(Env())
        m.T, m.ep, m.t, m.G, m.avg_G = version, version + 1, version % 5, float(version), version / 2
        m.record_metrics({'a/loss': version, 'b': 2 * version})
        return m

    @staticmethod
    def load(path):
        m = TrainMonitor(Env())
        m.load_counters(path)
        return m

    @staticmethod
    def identify(m):
        v = m.T
        ok = (m.ep == v + 1 and m.t == v % 5 and m.G == float(v) and m.avg_G == v / 2 and m.get_metrics() == {'a/loss': v, 'b': 2 * v})
        return (v, None) if ok else (None, f"T={m.T} ep={m.ep} t={m.t} G={m.G} avg_G={m.avg_G} metrics={m.get_metrics()}")


def run(d):
    root = tempfile.mkdtemp(dir=_scratch)
    d.cleanups.append(lambda: shutil.rmtree(root, True))
    d.cleanups.append(lambda: simdisk.activate(None))
    old_tmp, old_cwd = tempfile.tempdir, os.getcwd()

    def restore():
        tempfile.tempdir = old_tmp
        os.chdir(old_cwd)
    d.cleanups.append(restore)
    os.makedirs(os.path.join(root, 'systmp'))
    tempfile.tempdir = os.path.join(root, 'systmp')
    os.chdir(root)
    disk = simdisk.Disk(d, root)
    d.cleanups.append(disk.release)
    root = disk.root

    # -- the files -- #
    n_files = d.int(1, 2)
    files = []
    for i in range(n_files):
        style = d.pick(('plain', 'nested', 'relative', 'monitor'))
        rel = {'plain': f'f{i}.pkl.lz4', 'nested': f'deep/er/f{i}.pkl.lz4', 'relative': f'f{i}', 'monitor': f'counters{i}.pkl.lz4'}[style]
        path = os.path.join(root, rel)
        disk.labels[path] = f'f{i}'
        files.append(dict(path=path, arg=rel if style == 'relative' else path, monitor=style == 'monitor', allowed={None}, i=i))
    version = [0]

    def new_version():
        version[0] += 1
        return version[0]

    def save(f, v, kind):
        if f['monitor']:
            m = Monitors.make(v)
            return lambda: m.save_counters(f['arg'])
        obj = make(v, kind)
        return lambda: coax.utils.dump(obj, f['arg'])

    def load(f):
        return Monitors.load(f['arg']) if f['monitor'] else coax.utils.load(f['arg'])

    def inspect(f, x):
        v, complaint = Monitors.identify(x) if f['monitor'] else identify(x)
        d.check(complaint is None, 'mixture', lambda: f"load of file {f['i']} returned an incomplete or mixed object: {complaint}")
        return v

    for f in files:
        if d.chance(0.75):
            v = new_version()
            with d.calling('exception', 'save'):
                save(f, v, d.pick(KINDS))()
            f['allowed'] = {v}

    for epoch in range(d.int(1, 3)):
        kernel = Kernel(d)
        kernel.bias = d.pick((0.0, 0.7))
        simdisk.activate(disk)
        disk.begin(kernel)
        strays_before = set(disk.files())
        disk.budget = d.pick((1, 2, 0, 4))
        disk.fault_rate = d.pick((0.0, 0.15, 0.4))
        disk.crash_rate = d.pick((0.0, 0.0, 0.1, 0.3))
        disk.machine_rate = d.pick((0.0, 0.0, 0.1, 0.3))
        disk.short_rate = d.pick((0.0, 0.3))
        disk.interrupt_rate = d.pick((0.0, 0.0, 0.1))
        history = []

        def operation(task, op, f, fn, v=None, expect_failure=False):
            rec = dict(task=task, op=op, f=f['i'], v=v, inv=kernel.seq(), ret=None, ok=False, out=None)
            history.append(rec)
            disk.faulted.pop(task, None)
            d.event(task, op, f['i'], v)
            d.sched(task, op, f['i'])
            try:
                out = fn()
            except SimKilled:
                raise
            except BaseException as e:
                if isinstance(e, (coax_violation)):
                    raise
                rec['ret'] = kernel.seq()
                faults = disk.faulted.pop(task, [])
                d.event(task, op, 'failed', type(e).__name__)
                if op == 'load' and isinstance(e, FileNotFoundError) and not faults:
                    rec.update(ok=True, out=None)
                    return
                if op == 'load' and not faults:
                    d.violate('unreadable', f"load of file {f['i']} failed: {type(e).__name__}: {str(e).replace(root, '')[:80]}")
                if op == 'save' and not faults and not expect_failure:
                    d.violate('save-failed', f"save failed without any fault: {type(e).__name__}")
                return
            rec['ret'] = kernel.seq()
            faults = disk.faulted.pop(task, [])
            if expect_failure:
                d.violate('silent-failure', f"saving an object that cannot be serialised to file {f['i']} did not raise")
            if op == 'load':
                rec['out'] = inspect(f, out)
            rec['ok'] = True
            d.event(task, op, 'ok', rec['out'])

        def writer(name):
            for _ in range(d.int(1, 3)):
                f = d.pick(files)
                v = new_version()
                if not f['monitor'] and d.chance(0.2):
                    d.fault('unserialisable')
                    bad = Poison(d.pick((TypeError, ValueError, RuntimeError, RecursionError, KeyboardInterrupt)))
                    good = make(v, d.pick(KINDS))
                    obj = d.pick(([good, bad], {'x': good, 'y': {'z': (bad,)}}, bad))
                    operation(name, 'save', f, lambda: coax.utils.dump(obj, f['arg']), v, True)
                else:
                    operation(name, 'save', f, save(f, v, d.pick(KINDS)), v)
                kernel.yield_()

        def reader(name):
            for _ in range(d.int(1, 4)):
                f = d.pick(files)
                operation(name, 'load', f, lambda: load(f))
                kernel.yield_()

        n_w, n_r = d.weighted([((1, 1), 4), ((1, 0), 4), ((2, 0), 2), ((2, 1), 3), ((1, 2), 1)])
        tasks = [kernel.spawn(f'w{i}', lambda i=i: writer(f'w{i}')) for i in range(n_w)]
        tasks += [kernel.spawn(f'r{i}', lambda i=i: reader(f'r{i}')) for i in range(n_r)]
        d.event('epoch', epoch, n_w, n_r)
        status = kernel.run(max_steps=4000)
        d.check(disk.machine_crashed or status == 'done', 'stuck', lambda: f"the processes did not finish: {status}")
        for t in tasks:
            if t.error is not None:
                kernel.shutdown()
                raise t.error
        kernel.shutdown()
        simdisk.activate(None)

        # -- after the dust settled -- #
        if disk.machine_crashed:
            disk.reboot()
            d.probe('reboot')
        for f in files:
            ops = [h for h in history if h['f'] == f['i']]
            in_flight = {h['v'] for h in ops if h['op'] == 'save' and not h['ok']}
            if in_flight:
                d.probe('failed_or_interrupted_save')
            try:
                final = load(f)
            except FileNotFoundError:
                final = None
            except Exception as e:
                d.violate('unreadable', f"file {f['i']} cannot be loaded after {'a machine crash' if disk.machine_crashed else 'epoch ' + str(epoch)}: "
                                        f"{type(e).__name__}: {e}")
            v = inspect(f, final) if final is not None else None
            d.event('after', f['i'], v)
            if disk.machine_crashed:
                # what was there before, or anything that was saved or being saved since (the directory itself is not synced)
                allowed = f['allowed'] | {h['v'] for h in ops if h['op'] == 'save'}
                d.check(v in allowed, 'lost', lambda: f"file {f['i']} holds version {v} after the machine crash; possible: {sorted(map(str, allowed))}")
                reads = [h['out'] for h in ops if h['op'] == 'load' and h['ok']]
                d.check(all(r in allowed for r in reads), 'mixture', lambda: f"loads returned {reads}; possible: {sorted(map(str, allowed))}")
            else:
                ops.append(dict(task='final', op='load', f=f['i'], v=None, inv=kernel.seq(), ret=kernel.seq(), ok=True, out=v))
            if not linear(d, ops, f['allowed']):
                d.violate('not-atomic', f"the history of file {f['i']} is not that of an atomic register: "
                                        + "; ".join(f"{h['task']} {h['op']} {h['v'] if h['op'] == 'save' else h['out']} [{h['inv']},{h['ret']}]"
                                                    f"{'' if h['ok'] else ' failed/unknown'}" for h in ops))
            f['allowed'] = {v}
        d.evaluations += len(history)
        if not disk.machine_crashed and not disk.crashed_processes and not disk.cleanup_fault:
            paths = {f['path'] for f in files}
            strays = [p for p in disk.files() if p not in strays_before and p not in paths]
            d.check(not strays, 'stray-files', lambda: f"files left behind: {len(strays)} (e.g. {disk.label(strays[0])})")
        d.state(n_w, n_r, sorted(disk.faulted), disk.machine_crashed, disk.crashed_processes, len(history), [f['allowed'] for f in files] == [{None}])

    # -- references survive in memory too -- #
    if d.chance(0.3):
        v = new_version()
        kind = d.pick(KINDS)
        with d.calling('exception', 'dumps/loads'):
            x = coax.utils.loads(coax.utils.dumps(make(v, kind)))
        w, complaint = identify(x)
        d.check(complaint is None and w == v, 'roundtrip', lambda: f"loads(dumps(x)) differs: {complaint}")
    d.is_nontrivial = sum(d.faults.values()) > 0 and disk.ops > 4


coax_violation = __import__('dsim.core', fromlist=['Violation']).Violation


def linear(d, ops, init):
    def step(state, op):
        if op['op'] == 'save':
            return [op['v']]
        return [state] if (not op['ok'] or op['out'] == state) else []
    try:
        return any(linearizable(ops, s, step) for s in init)
    except TooHard:
        d.probe('linearizability_search_too_hard')
        return True
