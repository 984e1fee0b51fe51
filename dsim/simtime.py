"""
The clock seam: ``time.time``, ``time.sleep``, ``time.monotonic`` and ``time.perf_counter`` dispatch to the simulated clock
while a simulation is active in the calling thread, and to the real ones otherwise.  Has to be installed before coax is imported.
"""
import sys as _sys
import threading
import time as _time

_SIMULATED = ('coax', 'dsim')   # modules that live on simulated time

real = {k: getattr(_time, k) for k in (
    'time', 'sleep', 'monotonic', 'perf_counter', 'process_time', 'time_ns', 'monotonic_ns', 'perf_counter_ns')}

_tls = threading.local()   # _tls.clock: clock of the simulated task that runs in this thread


def current():
    return getattr(_tls, 'clock', None)


def activate(clock):
    _tls.clock = clock


class Clock:
    """
    Base class for simulated clocks (single-task version).

    ``now`` is true simulated time; what the code under test reads is ``now`` seen through the wall-clock faults: resolution
    (coarse ticks), offset (jumps), frozen, and rate (drift).
    """
    def __init__(self, d, start=1_600_000_000.0, tick=1e-6):
        self.d = d
        self.start = start
        self.now = 0.0
        self.tick = tick            # cost of reading the clock
        self.resolution = 0.0
        self.offset = 0.0
        self.rate = 1.0
        self.frozen_at = None
        self.reads = 0
        self.sleeps = []
        self.on_read = None         # fault hook
        self.on_sleep = None

    # -- faults -- #
    def freeze(self):
        self.frozen_at = self._wall()
        self.d.fault('clock_freeze')

    def unfreeze(self):
        self.frozen_at = None

    def jump(self, dt):
        self.offset += dt
        self.d.fault('clock_jump', dt)

    def coarse(self, resolution):
        self.resolution = resolution
        self.d.fault('clock_coarse', resolution)

    # -- what the code sees -- #
    def _wall(self):
        t = self.start + self.now * self.rate + self.offset
        if self.resolution:
            t = (t // self.resolution) * self.resolution
        return t

    def time(self):
        self.reads += 1
        if self.on_read is not None:
            self.on_read(self)
        self.now += self.tick
        if self.frozen_at is not None:
            return self.frozen_at
        return self._wall()

    def monotonic(self):
        self.reads += 1
        self.now += self.tick
        return self.now

    def sleep(self, dt):
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        self.sleeps.append(dt)
        if self.on_sleep is not None:
            self.on_sleep(dt)
        self.now += dt

    def close(self):
        self.d.sim_seconds += self.now


def _dispatch(name, meth, scale=None):
    realfn = real[name]

    def fn(*args):
        clock = current()
        if clock is None or not _sys._getframe(1).f_globals.get('__name__', '').startswith(_SIMULATED):
            return realfn(*args)   # e.g. jax timing its own compilation
        x = getattr(clock, meth)(*args)
        return x if scale is None else int(x * scale)
    fn.__name__ = name
    return fn


def install():
    _time.time = _dispatch('time', 'time')
    _time.sleep = _dispatch('sleep', 'sleep')
    _time.monotonic = _dispatch('monotonic', 'monotonic')
    _time.perf_counter = _dispatch('perf_counter', 'monotonic')
    _time.process_time = _dispatch('process_time', 'monotonic')
    _time.time_ns = _dispatch('time_ns', 'time', 1e9)
    _time.monotonic_ns = _dispatch('monotonic_ns', 'monotonic', 1e9)
    _time.perf_counter_ns = _dispatch('perf_counter_ns', 'monotonic', 1e9)


class simulated:
    """ context manager: run the enclosed code on the given simulated clock """
    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        self.prev = current()
        activate(self.clock)
        return self.clock

    def __exit__(self, *exc):
        activate(self.prev)
        self.clock.close()
