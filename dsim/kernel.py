"""
A deterministic scheduler for simulated tasks.

Every task is a real thread, but exactly one thread runs at any moment: a task runs until it reaches a blocking point of the
simulator (remote call, sleep, yield), parks itself and hands the baton back to the kernel, which decides -- with a recorded
choice -- who runs next.  Time is virtual: if nothing is runnable, the clock jumps to the next timer.
"""
import heapq
import threading

from . import simtime
from .core import SimKilled, HarnessError


class Future:
    """ A single-assignment cell that tasks can wait for. """
    __slots__ = ('kernel', 'done', 'value', 'error', 'waiters', 'ident')

    def __init__(self, kernel):
        self.kernel = kernel
        self.done = False
        self.value = None
        self.error = None
        self.waiters = []
        kernel._n_futures += 1
        self.ident = kernel._n_futures

    def set(self, value=None, error=None):
        if self.done:
            return
        self.done, self.value, self.error = True, value, error
        for task in self.waiters:
            self.kernel._wake(task)
        self.waiters = []


class Task:
    def __init__(self, kernel, name, fn, daemon):
        self.kernel = kernel
        self.name = name
        self.fn = fn
        self.daemon = daemon
        self.state = 'runnable'     # runnable | blocked | sleeping | finished
        self.killed = False
        self.error = None
        self.result = None
        self.baton = threading.Semaphore(0)
        self.wake_seq = 0           # invalidates outdated timers
        self.thread = threading.Thread(target=self._main, daemon=True, name=f'sim-{name}')
        self.finished = Future(kernel)
        self.started = False

    def _main(self):
        self.baton.acquire()
        simtime.activate(self.kernel.clock)
        self.kernel._tls.task = self
        try:
            if not self.killed:
                self.result = self.fn()
        except SimKilled:
            self.killed = True
        except BaseException as e:  # noqa: B902
            self.error = e
        finally:
            self.state = 'finished'
            simtime.activate(None)
            self.finished.set(self.result, self.error)
            self.kernel._main_baton.release()


class KernelClock(simtime.Clock):
    """ wall clock of the simulated machine; sleeping parks the task """
    def __init__(self, kernel, d, **kw):
        super().__init__(d, **kw)
        self.kernel = kernel

    def sleep(self, dt):
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        self.sleeps.append(dt)
        if self.on_sleep is not None:
            self.on_sleep(dt)
        self.kernel.sleep(dt)


class Kernel:
    def __init__(self, d, tick=1e-6):
        self.d = d
        self._n_futures = 0
        self._tls = threading.local()
        self._main_baton = threading.Semaphore(0)
        self.clock = KernelClock(self, d, tick=tick)
        self.tasks = []
        self._runnable = []
        self._timers = []
        self._seq = 0
        self.steps = 0
        self.idle_hooks = []
        self._last = None
        self.broken = False
        self.bias = 0.0    # probability of letting the last task continue if it can

    # -- called from outside of tasks ----------------------------------------------------------- #

    @property
    def now(self):
        return self.clock.now

    def seq(self):
        """ global sequence number for history events """
        self._seq += 1
        return self._seq

    def spawn(self, name, fn, daemon=False):
        t = Task(self, name, fn, daemon)
        self.tasks.append(t)
        self._runnable.append(t)
        return t

    def after(self, dt, fn):
        """ call fn() (on the kernel's own stack, must not block) after dt simulated seconds """
        self._seq += 1
        heapq.heappush(self._timers, (self.clock.now + max(0.0, dt), self._seq, fn))

    def _wake(self, task):
        if task.state in ('blocked', 'sleeping'):
            task.state = 'runnable'
            task.wake_seq += 1
            self._runnable.append(task)

    def kill(self, task):
        """ crash the task at its current blocking point """
        if task.state == 'finished' or task.killed:
            return
        task.killed = True
        self._wake(task)

    def _fire_due(self):
        while self._timers and self._timers[0][0] <= self.clock.now:
            _, _, fn = heapq.heappop(self._timers)
            fn()

    def run(self, max_steps, max_time=float('inf'), until=None):
        """ returns: 'done' | 'deadlock' | 'steps' | 'time' | 'until' """
        if simtime.current() is not None:
            raise HarnessError("nested simulation")
        while True:
            self._fire_due()
            if until is not None and until():
                return 'until'
            if all(t.state == 'finished' or t.daemon for t in self.tasks):
                return 'done'
            if not self._runnable:
                if not self._timers:
                    return 'deadlock'
                t_next = self._timers[0][0]
                if t_next > max_time:
                    return 'time'
                self.clock.now = max(self.clock.now, t_next)
                continue
            if self.steps >= max_steps:
                return 'steps'
            if self.clock.now > max_time:
                return 'time'
            self.steps += 1
            n = len(self._runnable)
            i = 0
            if n > 1:
                if self.bias and self._last in self._runnable and not self.d.chance(1 - self.bias):
                    i = self._runnable.index(self._last)
                else:
                    i = self.d.choose(n)
            task = self._runnable.pop(i)
            self._last = task
            self.d.sched(task.name)
            self._switch(task)

    def _switch(self, task):
        if not task.started:
            task.started = True
            task.thread.start()
        task.baton.release()
        try:
            self._main_baton.acquire()
        except BaseException:
            self.broken = True     # the task never came back (hang): its thread is lost
            raise

    def shutdown(self):
        """ crash whatever is still there """
        if self.broken:
            return
        self.d.sim_seconds += self.clock.now
        for _ in range(3):
            for task in self.tasks:
                if task.state != 'finished':
                    task.killed = True
                    if task in self._runnable:
                        self._runnable.remove(task)
                    task.state = 'runnable'
                    self._switch(task)
        stuck = [t.name for t in self.tasks if t.state != 'finished']
        if stuck:
            raise HarnessError(f"tasks refuse to die: {stuck}")

    # -- called from inside of tasks ------------------------------------------------------------ #

    @property
    def current(self):
        return getattr(self._tls, 'task', None)

    def _park(self):
        task = self.current
        if task is None:
            raise HarnessError("blocking call outside of a simulated task")
        self._main_baton.release()
        task.baton.acquire()
        if task.killed:
            raise SimKilled()

    def yield_(self):
        task = self.current
        if task.killed:
            raise SimKilled()
        task.state = 'runnable'
        self._runnable.append(task)
        self._park()

    def sleep(self, dt):
        task = self.current
        if task is None:
            raise HarnessError("sleep outside of a simulated task")
        if task.killed:
            raise SimKilled()
        task.state = 'sleeping'
        task.wake_seq += 1
        ticket = task.wake_seq

        def wake():
            if task.state == 'sleeping' and task.wake_seq == ticket:
                self._wake(task)
        self.after(dt, wake)
        self._park()

    def wait(self, future, timeout=None):
        """ returns True if the future is done, False on timeout """
        task = self.current
        if task is None:
            raise HarnessError("wait outside of a simulated task")
        if task.killed:
            raise SimKilled()
        if future.done:
            return True
        task.state = 'blocked'
        task.wake_seq += 1
        ticket = task.wake_seq
        future.waiters.append(task)
        if timeout is not None:
            def expire():
                if task.state == 'blocked' and task.wake_seq == ticket:
                    self._wake(task)
            self.after(timeout, expire)
        self._park()
        if task in future.waiters:
            future.waiters.remove(task)
        return future.done

    def wait_any(self, futures, n=1, timeout=None):
        """ wait until at least n of the futures are done """
        task = self.current
        deadline = None if timeout is None else self.clock.now + timeout
        while sum(f.done for f in futures) < n:
            if deadline is not None and self.clock.now >= deadline:
                break
            if task.killed:
                raise SimKilled()
            task.state = 'blocked'
            task.wake_seq += 1
            ticket = task.wake_seq
            pending = [f for f in futures if not f.done]
            for f in pending:
                f.waiters.append(task)
            if deadline is not None:
                def expire(ticket=ticket):
                    if task.state == 'blocked' and task.wake_seq == ticket:
                        self._wake(task)
                self.after(deadline - self.clock.now, expire)
            self._park()
            for f in pending:
                if task in f.waiters:
                    f.waiters.remove(task)
