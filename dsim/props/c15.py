""" C15: training programs that are checkpointed, killed at any point and resumed (here or in another process), against a twin that is never interrupted. """
import os
import shutil
import tempfile

import jax
import numpy as onp

import coax
from .. import bundle
from ..core import HarnessError
from ..other import Other
from . import _agents as ag

HEAVY = sorted(ag.BUILDERS)
_other = []


SLOW = True      # compiles


def other():
    if not _other:
        _other.append(Other())
    return _other[0]


class Here:
    """ a running program in this process """
    def __init__(self, o, jit):
        self.o = o
        self.jit = jit

    def do(self, op, x):
        with jax.disable_jit(not self.jit):
            return bundle.do(self.o, op, x)

    def dumps(self, form='dict'):
        return coax.utils.dumps(bundle.pack(self.o, form))

    def dump(self, path, form='dict'):
        coax.utils.dump(bundle.pack(self.o, form), path)

    def kill(self):
        self.o = None


class Elsewhere:
    """ a running program in another process """
    def __init__(self, d, blob, jit):
        self.d = d
        self.jit = jit
        self.call('load', blob)

    def call(self, what, *rest):
        try:
            r = other().call(what, 'victim', self.jit, *rest)
        except (EOFError, BrokenPipeError) as e:
            _other.clear()
            raise HarnessError(f"other process: {e}")
        if r[0] == 'error':
            self.d.violate('exception', f"in another process, {what} {rest if what == 'do' else ''}: {r[1]} ({r[2]})")
        return r[1]

    def do(self, op, x):
        return self.call('do', op, x)

    def dumps(self, form='dict'):
        return self.call('dumps')

    def kill(self):
        self.call('drop')


def run(d):
    heavy = d.chance(0.4)
    kind = d.pick(HEAVY) if heavy else d.pick(bundle.LIGHT)
    jit = heavy and d.chance(0.03)
    cfg = dict(seed=d.choose(20), n=1 + d.choose(3), mc=d.chance(0.3), prioritized=d.chance(0.5), capacity=3 + d.choose(6), smoothing=1 + d.choose(3), stack=d.chance(0.3))
    d.event('program', kind, 'compiled' if jit else 'not compiled', cfg)
    rtol = 1e-5 if jit else 1e-6 if heavy else 0.0      # (nothing but numpy in the light programs)
    tmp = tempfile.mkdtemp(prefix='dsim-c15-', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
    try:
        simulate(d, heavy, kind, cfg, jit, rtol, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def simulate(d, heavy, kind, cfg, jit, rtol, tmp):
    def start():
        with jax.disable_jit(not jit):
            return bundle.build(kind, cfg)
    with d.calling('exception', "build the program"):
        twin = Here(start(), jit)           # never interrupted
        victim = Here(start(), jit)
    history = []                            # (op, x, what the twin observed)
    pos = 0                                 # the victim has executed history[:pos]
    saved = None                            # (checkpoint, position)
    n_saved = n_restored = n_after = 0
    path = os.path.join(tmp, 'checkpoint.pkl.lz4')

    def execute(op, x, want):
        nonlocal n_after
        with d.calling('exception', f"{op} after {n_restored} restarts"):
            got = victim.do(op, x)
        where = bundle.same(want, got, rtol)
        n_after += n_restored > 0
        d.check(where is None, 'diverged', lambda: f"{kind}: {op}({x}) after {n_saved} checkpoints and {n_restored} restarts gives something else than in an uninterrupted program: {where}")

    def advance(op, x):
        nonlocal pos
        with d.calling('exception', f"{op} without interruption"):
            want = twin.do(op, x)
        history.append((op, x, want))
        execute(op, x, want)
        pos += 1
        return want

    def checkpoint():
        nonlocal saved, n_saved
        form = d.pick(('dict', 'list', 'tuple'))
        with d.calling('exception', "save"):
            if isinstance(victim, Here) and d.chance(0.4):
                victim.dump(path, form)
                saved = ('file', None, pos)
            else:
                saved = ('bytes', victim.dumps(form), pos)
        n_saved += 1
        d.sched('save', saved[0])
        d.event('save', saved[0], pos)

    def restart():
        nonlocal victim, pos, n_restored
        how, blob, at = saved
        victim.kill()
        if how == 'file':
            with open(path, 'rb') as f:
                blob = f.read()
        away = d.chance(0.35)
        d.fault('crash', kind)
        d.event('crash at', pos, 'restart from', at, 'in another process' if away else 'here')
        d.sched('restart', away)
        with d.calling('exception', "restore"):
            if away:
                victim = Elsewhere(d, blob, jit)
            else:
                victim = Here(bundle.unpack(coax.utils.load(path) if how == 'file' and d.chance(0.5) else coax.utils.loads(blob)), jit)
        n_restored += 1
        redo = history[at:pos]
        pos = at
        for op, x, want in redo:            # the work since the checkpoint is done again
            execute(op, x, want)
            pos += 1

    # let it run for a while without checkpoints
    for step in d.steps(6 if heavy else 10, 16 if heavy else 50):
        what = d.weighted([('step', 10), ('learn', 4 if heavy else 0), ('sample', 1 if heavy else 3), ('soft', 1 if heavy else 0), ('anneal', 1), ('metrics', 1), ('look', 1),
                           ('save', 3), ('restart', 3 if saved else 0)])
        if what == 'save':
            checkpoint()
        elif what == 'restart':
            if not d.chance(0.3):
                checkpoint()
            restart()
        else:
            x = d.choose(12)
            want = advance(what, x)
            d.sched(kind, what)
            d.event(what, x, bundle_digest(want))
    if not n_restored:
        checkpoint()
        restart()
    for op, x in [('step', 0)] * 3 + [('sample', 1)] + [('learn', d.choose(6))] * heavy + [('step', 1), ('look', 0)]:
        advance(op, x)
    d.state(kind, n_saved, n_restored, pos)
    d.is_nontrivial = n_after > 3


def bundle_digest(x):
    import hashlib
    h = hashlib.sha1()

    def visit(y):
        if isinstance(y, (list, tuple)):
            for z in y:
                visit(z)
        else:
            h.update(repr(onp.asarray(y, "float64").round(4).tolist() if isinstance(y, (onp.ndarray, float)) else y).encode())
    visit(x)
    return h.hexdigest()[:8]
