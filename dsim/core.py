"""
Core of the deterministic simulator.

One integer seed -> one stream of *choices* -> one execution.  Everything that is decided during a run (configuration,
generated operations, which task runs next, delays, faults) is drawn with ``D.choose(n)`` and recorded.  A replay file is
the recorded (and minimised) list of choices; re-running with that list is a pure function of the list and of the code
under test.  A choice of 0 is always the simplest alternative (no fault, first task, smallest value), which is what the
minimiser drives towards.
"""
import contextlib
import hashlib
import random
import traceback

REPO = '/repo/'


class Violation(Exception):
    """ The property is violated. ``kind`` is the violation class that minimisation has to preserve. """
    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """ Something is wrong with the harness itself (never reported as a violation). """


class InjectedError(Exception):
    """ A fault injected by the simulator. """


class EnvFault(InjectedError):
    """ Injected failure of an environment call. """


class SimKilled(BaseException):
    """ Raised inside of a simulated task to make it crash at its current blocking point. """


def fmt(x):
    """ Stable rendering of values for event logs. """
    import numpy as onp
    if isinstance(x, float):
        return f"{x:.6g}"
    if isinstance(x, onp.ndarray):
        if x.dtype == object:
            return f"obj{x.shape}"
        if x.size > 12:
            return f"arr{x.shape}#{hashlib.sha1(onp.ascontiguousarray(x).tobytes()).hexdigest()[:8]}"
        return "[" + ",".join(fmt(v) for v in x.ravel().tolist()) + "]"
    if isinstance(x, onp.generic):
        return fmt(x.item())
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(fmt(v) for v in x) + ")"
    if isinstance(x, dict):
        return "{" + ",".join(f"{fmt(k)}:{fmt(v)}" for k, v in x.items()) + "}"
    return str(x)


class D:
    """ The decision source and recorder of a single simulated run. """

    MAX_CHOICES = 200_000

    def __init__(self, seed=None, choices=None, tier='quick', index=0):
        self.seed = seed
        self.tier = tier
        self.index = index
        self._rng = random.Random(seed) if choices is None else None
        self._given = None if choices is None else list(choices)
        self.choices = []
        self.spans = []           # (start, stop) of groups of choices that belong together
        self.events = []
        self.n_events = 0
        self._digest = hashlib.sha256()
        self._sched = hashlib.sha256()
        self.sched_len = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_seconds = 0.0
        self.evaluations = 0      # number of oracle evaluations
        self.is_nontrivial = False
        self.cleanups = []

    # -- drawing -------------------------------------------------------------------------------- #

    def choose(self, n):
        if n <= 1:
            return 0
        if len(self.choices) >= self.MAX_CHOICES:
            raise HarnessError("too many choices in a single run")
        if self._given is None:
            v = self._rng.randrange(n)
        else:
            k = len(self.choices)
            v = min(self._given[k], n - 1) if k < len(self._given) else 0
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        """ integer in [lo, hi] (both inclusive); simplest is lo """
        return lo + self.choose(hi - lo + 1)

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def chance(self, p):
        """ True with probability p; simplest is False """
        if p <= 0:
            return False
        return self.choose(1000) >= 1000 * (1 - p)

    def weighted(self, pairs):
        """ pairs: [(item, integer weight)]; simplest is the first item """
        total = sum(w for _, w in pairs)
        v = self.choose(total)
        for item, w in pairs:
            if v < w:
                return item
            v -= w
        raise AssertionError

    def unit(self):
        return self.choose(1 << 16) / (1 << 16)

    def real(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    @contextlib.contextmanager
    def span(self):
        start = len(self.choices)
        try:
            yield
        finally:
            self.spans.append((start, len(self.choices)))

    def steps(self, lo, hi):
        """ iterate over a random number of steps, each of which is a span that minimisation can delete """
        n = 0
        while n < hi:
            start = len(self.choices)
            if n >= lo and self.choose(hi) == 0:  # geometric tail; a choice of 0 means: stop here
                return
            yield n
            self.spans.append((start, len(self.choices)))
            n += 1

    # -- recording ------------------------------------------------------------------------------ #

    def event(self, *fields):
        line = " ".join(fmt(f) for f in fields)
        self._digest.update(line.encode() + b"\n")
        self.n_events += 1
        if len(self.events) < 4000:
            self.events.append(line)

    def sched(self, *fields):
        """ record a scheduling decision / operation for the 'distinct interleavings' measure """
        self._sched.update(" ".join(map(str, fields)).encode() + b"\n")
        self.sched_len += 1

    def fault(self, kind, *fields):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.event("FAULT", kind, *fields)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def state(self, *fields):
        if len(self.states) < 5000:
            self.states.add(hashlib.sha1(" ".join(fmt(f) for f in fields).encode()).hexdigest()[:12])

    def digest(self):
        return self._digest.hexdigest()[:20]

    def interleaving(self):
        return self._sched.hexdigest()[:16]

    # -- judging -------------------------------------------------------------------------------- #

    def violate(self, kind, msg):
        self.event("VIOLATION", kind, msg)
        raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        self.evaluations += 1
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg)

    @contextlib.contextmanager
    def guard(self, kind, what=''):
        """ anything that goes wrong while the oracle inspects results of the code under test is a malformed result """
        try:
            yield
        except (Violation, HarnessError):
            raise
        except Exception as e:
            self.violate(kind, f"{what}: malformed result: {type(e).__name__}: {e}")

    @contextlib.contextmanager
    def calling(self, kind, what='', allow=()):
        """ calls into the code under test that must not raise """
        try:
            yield
        except (Violation, HarnessError):
            raise
        except allow:
            raise
        except Exception as e:
            if not in_repo(e):
                raise
            self.violate(kind, f"{what}: unexpected {type(e).__name__}: {str(e)[:300]}")


class SubD(D):
    """ decisions taken from a fixed plan (a list of integers), so that one scenario can be executed several times """
    def __init__(self, plan, tier='quick'):
        super().__init__(choices=[], tier=tier)
        self.plan = plan

    def choose(self, n):
        if n <= 1:
            return 0
        k = len(self.choices)
        v = self.plan[k] % n if k < len(self.plan) else 0
        self.choices.append(v)
        if k > self.MAX_CHOICES:
            raise HarnessError("too many choices in a single run")
        return v


def in_repo(e):
    """ whether the exception passed through the code under test """
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if any(fr.filename.startswith(REPO) for fr in traceback.extract_tb(e.__traceback__)):
            return True
        if getattr(e, '_from_repo', False):
            return True
        e = e.__cause__ or e.__context__
    return False
