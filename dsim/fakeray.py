"""
A stand-in for the ``ray`` package that runs actors as tasks of the simulator kernel.

What is modelled: actors process one call at a time, in order of arrival; calls of one caller to one actor arrive in the order in
which they were made; calls of different callers interleave arbitrarily; arguments and results are serialised (arrays arrive
read-only); calls take time; exceptions raised by a method are re-raised by ``ray.get`` as an exception that is both a RayTaskError and
an instance of the original type.  Faults: delays, a request that never reaches the actor, a reply that never reaches the caller (both
surface as ActorUnavailableError at the caller), actor crash (pending and later calls fail with ActorDiedError) and stalls.
"""
import itertools
import pickle
import sys
import types

import cloudpickle

from .core import HarnessError, InjectedError, SimKilled

_cluster = None   # the active cluster


def cluster():
    if _cluster is None:
        raise HarnessError("ray used outside of a simulation")
    return _cluster


# -- exceptions ---------------------------------------------------------------------------------- #

class RayError(Exception):
    pass


class RayTaskError(RayError):
    pass


class RayActorError(RayError):
    pass


class ActorDiedError(RayActorError):
    pass


class ActorUnavailableError(RayActorError):
    pass


class GetTimeoutError(RayError, TimeoutError):
    pass


_task_error_types = {}


def as_task_error(cause):
    cls = type(cause)
    if cls not in _task_error_types:
        try:
            class Both(RayTaskError, cls):
                def __init__(self, cause):
                    self.cause = cause
                    self.args = (str(cause),)

                def __str__(self):
                    return f"{type(self.cause).__name__}: {self.cause}"
            Both.__name__ = f'RayTaskError({cls.__name__})'
            Both(cause)
            _task_error_types[cls] = Both
        except Exception:
            _task_error_types[cls] = None
    Both = _task_error_types[cls]
    err = RayTaskError(f"{cls.__name__}: {cause}") if Both is None else Both(cause)
    err.cause = cause
    err.__cause__ = cause
    return err


# -- serialisation ------------------------------------------------------------------------------- #

def roundtrip(obj):
    """ serialise and deserialise, such that arrays come out read-only (as with ray's object store) """
    buffers = []
    s = cloudpickle.dumps(obj, protocol=5, buffer_callback=buffers.append)
    return pickle.loads(s, buffers=[bytes(b.raw()) for b in buffers])


# -- actors -------------------------------------------------------------------------------------- #

class ObjectRef:
    def __init__(self, future, actor=None, method=None):
        self._future = future
        self._actor = actor
        self._method = method


class _RemoteMethod:
    __slots__ = ('handle', 'name')

    def __init__(self, handle, name):
        self.handle = handle
        self.name = name

    def remote(self, *args, **kwargs):
        return cluster().submit(self.handle._actor_id, self.name, args, kwargs)

    def options(self, **kwargs):
        return self

    def __call__(self, *args, **kwargs):
        raise TypeError("Actor methods cannot be called directly. Use '.remote()'")


def _handle(actor_id):
    return ActorHandle(actor_id)


class ActorHandle:
    def __init__(self, actor_id):
        self._actor_id = actor_id

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _RemoteMethod(self, name)

    def __reduce__(self):
        return _handle, (self._actor_id,)

    def __deepcopy__(self, memo):
        return ActorHandle(self._actor_id)


class _Actor:
    def __init__(self, cluster, actor_id, name, construct):
        self.cluster = cluster
        self.id = actor_id
        self.name = name
        self.construct = construct
        self.instance = None
        self.dead = None           # an exception once the actor died
        self.mailbox = []
        self.waiting = None        # future on which the actor's task waits for mail
        self.last_arrival = {}     # per caller: keeps calls of one caller in order
        self.current_call = None
        self.task = cluster.kernel.spawn(name, self.main, daemon=True)

    def main(self):
        k = self.cluster.kernel
        try:
            self.instance = self.construct()
        except SimKilled:
            raise
        except Exception as e:
            self.die(as_task_error(e))
            self.cluster.d.event('actor-init-failed', self.name, type(e).__name__)
            return
        while True:
            while not self.mailbox:
                self.waiting = k_future(k)
                k.wait(self.waiting)
            call = self.mailbox.pop(0)
            self.cluster.execute(self, call)

    def deliver(self, call):
        if self.dead is not None:
            self.cluster.reply(call, error=self.dead)
            return
        self.mailbox.append(call)
        if self.waiting is not None:
            w, self.waiting = self.waiting, None
            w.set()

    def die(self, error):
        if self.dead is not None:
            return
        self.dead = error
        pending, self.mailbox = self.mailbox, []
        if self.current_call is not None:
            pending.insert(0, self.current_call)
        for call in pending:
            self.cluster.reply(call, error=error)


def k_future(k):
    from .kernel import Future
    return Future(k)


class _Call:
    __slots__ = ('id', 'caller', 'actor', 'method', 'args', 'kwargs', 'future', 'lose_reply', 't_submit')


class Cluster:
    """
    faults: dict of rates. ``delay`` (max seconds), ``request_loss``, ``reply_loss``, ``stall`` (probability), ``stall_s``
    """
    def __init__(self, d, kernel, delay=0.0, request_loss=0.0, reply_loss=0.0, stall=0.0, stall_s=1.0, lossy=None):
        self.d = d
        self.kernel = kernel
        self.delay = delay
        self.request_loss = request_loss
        self.reply_loss = reply_loss
        self.stall = stall
        self.stall_s = stall_s
        self.lossy = lossy        # predicate: (caller name, method) -> whether loss faults apply
        self.actors = {}
        self._ids = itertools.count(1)
        self.history = []         # (seq, 'call'|'exec'|'ret'|'fail', caller, actor, method, call id)
        self.on_exec = None
        self.faults_on = True
        self.stalled = 0.0

    def __enter__(self):
        global _cluster
        if _cluster is not None:
            raise HarnessError("another cluster is active")
        _cluster = self
        return self

    def __exit__(self, *exc):
        global _cluster
        _cluster = None

    def create(self, cls, args, kwargs, name=None):
        aid = next(self._ids)
        args, kwargs = roundtrip((args, kwargs))
        name = name or kwargs.get('name') or f'{cls.__name__}-{aid}'
        actor = _Actor(self, aid, name, lambda: cls(*args, **kwargs))
        self.actors[aid] = actor
        self.d.event('actor', name)
        return ActorHandle(aid)

    def actor(self, handle):
        return self.actors[handle._actor_id]

    def crash(self, handle):
        actor = self.actor(handle)
        if actor.dead is None:
            self.d.fault('actor_crash', actor.name, f't={self.kernel.now:.6f}')
            actor.die(ActorDiedError(f"{actor.name} died"))
            self.kernel.kill(actor.task)

    def _caller(self):
        task = self.kernel.current
        return task.name if task is not None else 'driver'

    def submit(self, actor_id, method, args, kwargs):
        k = self.kernel
        actor = self.actors[actor_id]
        call = _Call()
        call.id = next(self._ids)
        call.caller = self._caller()
        call.actor = actor
        call.method = method
        call.args, call.kwargs = roundtrip((args, kwargs))
        call.future = k_future(k)
        call.lose_reply = False
        call.t_submit = k.now
        self.history.append((k.seq(), 'call', call.caller, actor.name, method, call.id))
        self.d.event('call', call.caller, actor.name, method, call.id)
        ref = ObjectRef(call.future, actor, method)
        lossy = self.faults_on and (self.lossy is None or self.lossy(call.caller, method))
        if lossy and self.d.chance(self.request_loss):
            self.d.fault('request_loss', call.caller, method)
            k.after(self._delay(), lambda: call.future.set(
                error=ActorUnavailableError(f"{actor.name} is unavailable (request lost)")))
            return ref
        if lossy and self.d.chance(self.reply_loss):
            call.lose_reply = True
        arrival = max(k.now + self._delay(), actor.last_arrival.get(call.caller, 0.0))
        actor.last_arrival[call.caller] = arrival
        k.after(arrival - k.now, lambda: actor.deliver(call))
        return ref

    def _delay(self):
        if not self.delay:
            return 0.0
        u = self.d.choose(8)
        if u >= 4:
            self.d.faults['message_delay'] = self.d.faults.get('message_delay', 0) + 1
        return self.delay * (0.0, 0.0, 0.01, 0.05, 0.1, 0.3, 0.6, 1.0)[u]

    def execute(self, actor, call):
        k = self.kernel
        actor.current_call = call
        if self.faults_on and self.d.chance(self.stall):
            dt = self.stall_s * self.d.pick((0.1, 0.5, 1.0, 3.0))
            self.d.fault('actor_stall', actor.name, dt)
            self.stalled += dt
            k.sleep(dt)
        self.history.append((k.seq(), 'exec', call.caller, actor.name, call.method, call.id))
        if self.on_exec is not None:
            self.on_exec(actor, call)
        result = error = None
        try:
            result = getattr(actor.instance, call.method)(*call.args, **call.kwargs)
            result = roundtrip(result)
        except SimKilled:
            raise
        except Exception as e:
            error = as_task_error(e)
        actor.current_call = None
        if call.lose_reply:
            self.d.fault('reply_loss', call.caller, call.method)
            result, error = None, ActorUnavailableError(f"{actor.name} is unavailable (reply lost)")
        k.after(self._delay(), lambda: self.reply(call, result, error))
        k.yield_()

    def reply(self, call, result=None, error=None):
        k = self.kernel
        if not call.future.done:
            self.history.append((k.seq(), 'fail' if error is not None else 'ret',
                                 call.caller, call.actor.name, call.method, call.id))
        call.future.set(result, error)


# -- module-level api ---------------------------------------------------------------------------- #

def get(refs, timeout=None):
    if isinstance(refs, (list, tuple)):
        return [get(r, timeout=timeout) for r in refs]
    if not isinstance(refs, ObjectRef):
        raise ValueError(f"Invalid type of object refs, {type(refs)}, is given.")
    k = cluster().kernel
    if k.current is None:
        raise HarnessError("ray.get outside of a simulated task")
    k.yield_()
    if not k.wait(refs._future, timeout=timeout):
        raise GetTimeoutError("Get timed out: some object(s) not ready.")
    if refs._future.error is not None:
        e = refs._future.error
        raise e
    return refs._future.value


def wait(refs, num_returns=1, timeout=None, fetch_local=True):
    k = cluster().kernel
    k.wait_any([r._future for r in refs], n=num_returns, timeout=timeout)
    ready = [r for r in refs if r._future.done]
    return ready[:max(num_returns, 0) or None], [r for r in refs if r not in ready[:num_returns]]


def put(obj):
    f = k_future(cluster().kernel)
    f.set(roundtrip(obj))
    return ObjectRef(f)


def kill(handle, no_restart=True):
    cluster().crash(handle)


class _ActorClass:
    def __init__(self, cls):
        self.cls = cls
        self.__name__ = cls.__name__

    def remote(self, *args, **kwargs):
        return cluster().create(self.cls, args, kwargs)

    def options(self, name=None, **kw):
        outer = self

        class Opt:
            @staticmethod
            def remote(*args, **kwargs):
                return cluster().create(outer.cls, args, kwargs, name=name)
        return Opt


def remote(*args, **kwargs):
    if len(args) == 1 and not kwargs and isinstance(args[0], type):
        return _ActorClass(args[0])
    return _ActorClass


def method(*args, **kwargs):
    return lambda f: f


def install():
    ray = types.ModuleType('ray')
    actor = types.ModuleType('ray.actor')
    exceptions = types.ModuleType('ray.exceptions')
    for mod in (ray, actor, exceptions):
        mod.__file__ = __file__
        mod.__path__ = []
    actor.ActorHandle = ActorHandle
    for cls in (RayError, RayTaskError, RayActorError, ActorDiedError, ActorUnavailableError, GetTimeoutError):
        setattr(exceptions, cls.__name__, cls)
    for k, v in dict(
            actor=actor, exceptions=exceptions, ObjectRef=ObjectRef, get=get, wait=wait, put=put, kill=kill, remote=remote,
            method=method, init=lambda *a, **k: None, shutdown=lambda *a, **k: None,
            is_initialized=lambda: _cluster is not None, __version__='0.simulated').items():
        setattr(ray, k, v)
    sys.modules['ray'] = ray
    sys.modules['ray.actor'] = actor
    sys.modules['ray.exceptions'] = exceptions


# InjectedError is part of the public face of this module for harness code
__all__ = ('Cluster', 'ActorHandle', 'install', 'remote', 'get', 'wait', 'kill', 'InjectedError')
