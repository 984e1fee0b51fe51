"""
Executes simulated runs of one property. Started by the runner, talks JSON lines on stdout.

    python -m dsim.worker PROP run  SEED TIER START STRIDE COUNT DEADLINE_S
    python -m dsim.worker PROP replay FILE
    python -m dsim.worker PROP trace SEED TIER INDEX
"""
import gc
import importlib
import json
import os
import random
import signal
import sys
import traceback

from . import simtime, fakeray, faketb

simtime.install()
fakeray.install()
faketb.install()

from .core import D, Violation, HarnessError, in_repo  # noqa: E402
from . import shrink  # noqa: E402

HANG_S = float(os.environ.get('DSIM_HANG_S', 60))
_stdout = None


class Hang(BaseException):
    pass


def emit(obj):
    _stdout.write(json.dumps(obj) + '\n')
    _stdout.flush()


def load(prop):
    # silence the loggers that coax would configure
    import logging
    logging.basicConfig(level=logging.WARNING, handlers=[logging.NullHandler()])
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module(f'dsim.props.{prop.lower()}')
    import coax
    if not os.path.abspath(coax.__file__).startswith('/repo/'):
        raise HarnessError(f"wrong coax: {coax.__file__}")
    if hasattr(mod, 'setup'):
        mod.setup()
    return mod


def _alarm(signum, frame):
    raise Hang()


def execute(mod, d):
    """ returns None or a Violation (never raises for violations); raises HarnessError and others for harness problems """
    import numpy as onp
    random.seed(12345)
    onp.random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    limit = HANG_S * (4 if hasattr(mod, 'AFFINITY') or getattr(mod, 'SLOW', False) else 1)     # compiling takes its time on a busy machine
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run(d)
        return None
    except Violation as v:
        return v
    except Hang:
        signal.setitimer(signal.ITIMER_REAL, 0)
        d.event('VIOLATION', 'hang')
        return Violation('hang', f"the run did not finish within {limit:g} s of wall time")
    except HarnessError:
        raise
    except Exception as e:
        if in_repo(e):
            tb = [f"{fr.filename}:{fr.lineno} {fr.name}" for fr in traceback.extract_tb(e.__traceback__)][-6:]
            d.event('VIOLATION', 'exception', type(e).__name__, str(e)[:200])
            return Violation(f'exception:{type(e).__name__}', f"{e} @ {tb}")
        if isinstance(e, (MemoryError, OSError, ImportError)):
            raise
        # an oracle stumbled over what the code under test returned
        d.event('VIOLATION', 'malformed', type(e).__name__, str(e)[:200])
        return Violation(f'malformed:{type(e).__name__}', traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        simtime.activate(None)
        fakeray._cluster = None
        for fn in reversed(d.cleanups):
            fn()


def summary(i, d):
    return dict(t='run', i=i, dig=d.digest(), il=d.interleaving(), sl=d.sched_len, f=d.faults, p=d.probes, s=round(d.sim_seconds, 6),
                ev=d.evaluations, nt=bool(d.is_nontrivial), st=sorted(d.states)[:200], ne=d.n_events, nc=len(d.choices))


def share(mod, prop, seed, start, stride, count):
    """
    The runs of this worker.  Where compiling is expensive, runs with the same first choice (what has to be compiled) go to the same worker.
    """
    n = getattr(mod, 'AFFINITY', None)
    if n is None:
        return list(range(start, count, stride))
    order = sorted(range(count), key=lambda i: (random.Random(f"{seed}/{prop}/{i}").randrange(n), i))
    return sorted(order[start * count // stride:(start + 1) * count // stride])


def do_run(prop, seed, tier, start, stride, count, deadline, affine):
    mod = load(prop)
    mine = share(mod, prop, seed, start, stride, count) if affine else range(start, count, stride)
    emit(dict(t='ready'))
    t0 = simtime.real['monotonic']()
    for n, i in enumerate(mine):
        if simtime.real['monotonic']() - t0 > deadline:
            emit(dict(t='deadline', i=i))
            break
        d = D(seed=f"{seed}/{prop}/{i}", tier=tier, index=i)
        v = execute(mod, d)
        if v is None:
            msg = summary(i, d)
            if n < 2:
                msg['sample'] = d.events[:40]
            emit(msg)
        else:
            emit(dict(t='viol', i=i, kind=v.kind, msg=v.msg[:2000], choices=d.choices, events=d.events[-60:]))
            if v.kind != 'hang':
                budget = float(os.environ.get('DSIM_SHRINK_S', 40))
                best, tries = shrink.minimise(lambda ch: attempt(mod, ch, tier, i), d.choices, d.spans, v.kind, budget)
                d2 = D(choices=best, tier=tier, index=i)
                v2 = execute(mod, d2)
                if v2 is not None and v2.kind == v.kind:
                    emit(dict(t='min', i=i, kind=v2.kind, msg=v2.msg[:2000], choices=strip(d2.choices), events=d2.events,
                              dig=d2.digest(), tries=tries, faults=d2.faults))
            break
        if n % 50 == 49:
            gc.collect()
    emit(dict(t='end'))


def strip(choices):
    """ trailing zeros are implied """
    n = len(choices)
    while n and choices[n - 1] == 0:
        n -= 1
    return choices[:n]


def attempt(mod, choices, tier, index):
    d = D(choices=choices, tier=tier, index=index)
    try:
        v = execute(mod, d)
    except (HarnessError, Exception):
        return None, d
    return v, d


def do_replay(prop, path):
    with open(path) as f:
        rep = json.load(f)
    mod = load(prop)
    d = D(choices=rep['choices'], tier=rep.get('tier', 'quick'), index=rep.get('index', 0))
    v = execute(mod, d)
    emit(dict(t='replay', kind=v.kind if v else None, msg=v.msg[:2000] if v else None, dig=d.digest(), events=d.events))


def do_trace(prop, seed, tier, i):
    mod = load(prop)
    d = D(seed=f"{seed}/{prop}/{i}", tier=tier, index=i)
    v = execute(mod, d)
    for e in d.events:
        print(e, file=sys.stderr)
    emit(dict(t='trace', kind=v.kind if v else None, msg=v.msg if v else None, **{k: x for k, x in summary(i, d).items() if k != 't'}))


def main():
    global _stdout
    # keep the real stdout for the protocol; whatever the code under test prints goes to /dev/null
    _stdout = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    prop, mode, *args = sys.argv[1:]
    try:
        if mode in ('run', 'rerun'):
            seed, tier, start, stride, count, deadline = args
            do_run(prop, seed, tier, int(start), int(stride), int(count), float(deadline), mode == 'run')
        elif mode == 'replay':
            do_replay(prop, args[0])
        elif mode == 'trace':
            do_trace(prop, args[0], args[1], int(args[2]))
        else:
            raise SystemExit(2)
    except BaseException:
        emit(dict(t='error', tb=traceback.format_exc()[-4000:]))
        _stdout.flush()
        os._exit(3)
    _stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
