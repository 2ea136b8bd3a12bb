"""Runtime monitor core: event recording at the public API boundary, verdicts, coverage, replay.

A check is a list of JSON-able cases.  Executing a case drives the real code
through `Monitor.call`, which records one event (call + outcome) per API call.
Oracles decide on those events by comparing them with reference models; every
decision goes through `Monitor.expect`.  Nothing here looks at how the code
under test is written: only at what its public calls return, raise or do to
the buffers they were given.
"""

import collections
import gc
import hashlib
import signal
import sys
import time
import traceback

# CPU seconds one API call may take (typical calls: micro- to a few milliseconds; the largest
# single calls of a workload a few seconds).  CPU time, so a loaded machine does not matter.
CALL_CPU_BUDGET = 60
IDLE_TICK = 15       # seconds; two of them without any CPU time inside one call are a deadlock


class Hang(BaseException):
    pass


class Broken(Exception):
    """A decision against the property; aborts the case."""


class Inconclusive(Exception):
    pass


Event = collections.namedtuple('Event', 'seq op args outcome')


class Outcome:
    __slots__ = ('kind', 'value', 'exc')

    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc

    @property
    def returned(self):
        return self.kind == 'ret'

    def text(self):
        if self.kind == 'ret':
            return 'returned ' + short(self.value)
        if self.kind == 'hang':
            return 'did not return within its budget of CPU time, or waits for ever'
        return 'raised %s: %s' % (type(self.exc).__name__, self.exc)


def short(v, limit=160):
    if isinstance(v, (bytes, bytearray)):
        s = '%s[%d]:%s' % (type(v).__name__, len(v), bytes(v[:40]).hex() + ('..' if len(v) > 40 else ''))
    elif isinstance(v, int) and v.bit_length() > 8192:
        s = 'int of %d bits:%#x' % (v.bit_length(), v >> v.bit_length() - 64)
    else:
        try:
            s = repr(v)
        except ValueError:
            s = '<%s>' % type(v).__name__
    return s if len(s) <= limit else s[:limit] + '..'


def freeze(v):
    """A copy of an argument for the event log."""
    if isinstance(v, bytearray):
        return bytes(v)
    if isinstance(v, (bytes, str, int, float, type(None), bool)):
        return v
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    return type(v).__name__


def _alarm(_sig, _frm):
    raise Hang()


class Monitor:
    def __init__(self):
        self.events = 0
        self.evaluations = 0
        self.cover = collections.Counter()
        self.distinct = set()
        self.ops = collections.Counter()
        self.samples = []
        self.log = None          # list of events of the current case
        self.keep = 12
        self.counters = collections.Counter()
        self.unraisable = []
        self.findings = []       # (mechanism key, what, case) reported without aborting the case
        self.case = None
        self.budget = CALL_CPU_BUDGET
        signal.signal(signal.SIGVTALRM, _alarm)
        self.calling = None      # identity of the call in progress
        self.seen = (None, 0, 0)
        signal.signal(signal.SIGALRM, self._tick)
        signal.setitimer(signal.ITIMER_REAL, IDLE_TICK, IDLE_TICK)
        sys.unraisablehook = self._unraisable

    def _tick(self, _sig, _frm):
        """A call that waits for something that never comes (a lock it holds itself) uses no CPU time at all."""
        call, cpu, idle = self.seen
        now = time.process_time()
        idle = idle + 1 if call is not None and call is self.calling and now - cpu < .1 else 0
        self.seen = (self.calling, now, idle)
        if idle >= 2:
            self.seen = (None, 0, 0)
            raise Hang()

    def _unraisable(self, info):
        self.unraisable.append('%s in %r' % (info.exc_value.__class__.__name__ + ': ' + str(info.exc_value),
                                             getattr(info.object, '__qualname__', info.object)))

    # -- cases ---------------------------------------------------------
    def begin(self, case=None):
        self.case = case
        self.budget = CALL_CPU_BUDGET * (5 if case and case.get('w', 0) >= 90 else 1)
        self.log = []

    def tail(self):
        return ['%s%s -> %s' % (e.op, tuple(short(a, 80) for a in e.args), e.outcome.text())
                for e in self.log[-self.keep:]]

    # -- events --------------------------------------------------------
    def call(self, op, fn, *args, **kw):
        """Invoke the code under test; never raises what it raises."""
        frozen = tuple(freeze(a) for a in args) + tuple('%s=%s' % (k, short(freeze(v), 60)) for k, v in kw.items())
        signal.setitimer(signal.ITIMER_VIRTUAL, self.budget)
        self.calling = object()
        try:
            out = Outcome('ret', fn(*args, **kw))
        except Hang:
            out = Outcome('hang')
        except KeyboardInterrupt:
            raise
        except BaseException as exc:      # noqa: the outcome is what we observe
            out = Outcome('exc', exc=exc)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            self.calling = None
        self.events += 1
        self.ops[op] += 1
        if self.log is not None:
            self.log.append(Event(self.events, op, frozen, out))
        return out

    def must(self, op, fn, *args, **kw):
        """A call that has to succeed on this input: its value, or a violation."""
        out = self.call(op, fn, *args, **kw)
        if not out.returned:
            self.evaluations += 1
            raise Broken('%s on a valid input %s' % (op, out.text()))
        return out.value

    def attempt(self, op, fn, *args, **kw):
        """A call that may be rejected, but has to end."""
        out = self.call(op, fn, *args, **kw)
        if out.kind == 'hang':
            self.evaluations += 1
            raise Broken('%s %s' % (op, out.text()))
        return out

    def get(self, op, fn):
        return self.must(op, fn)

    # -- verdicts ------------------------------------------------------
    def expect(self, cond, what, *details):
        self.evaluations += 1
        if not cond:
            raise Broken(what + (': ' + '; '.join(details) if details else ''))

    def same(self, what, got, want):
        """Byte-exact comparison of a returned byte object with the oracle."""
        self.evaluations += 1
        if not isinstance(got, (bytes, bytearray)) or bytes(got) != bytes(want):
            raise Broken('%s: observed %s, oracle %s' % (what, short(got), short(bytes(want))))

    def finding(self, mech, what, *details):
        """A violation with a recognised mechanism: the case goes on, the runner decides
        whether the committed known-findings file lists exactly this mechanism."""
        self.evaluations += 1
        self.counters['finding ' + mech] += 1
        if not any(f['mech'] == mech for f in self.findings):
            self.findings.append(dict(mech=mech, what=what + (': ' + '; '.join(details) if details else ''),
                                      case=self.case, tail=self.tail()))

    # -- coverage ------------------------------------------------------
    def state(self, *key):
        """An abstract state/input class that a deciding comparison reached."""
        self.cover[key[0]] += 1
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def count(self, name, n=1):
        self.counters[name] += n

    def collect_garbage(self):
        gc.collect()


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return '%s: %s @ %s' % (type(exc).__name__, exc, ' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno)
                                                              for f in tb[-4:][::-1]))
