"""C19: objects do not influence each other, also across threads."""

import copy
import gc
import os
import random
import subprocess
import sys
import threading
import time

from gostmon import target
from gostmon.core import short
from . import actors, sig
from .common import gostcipher, gosthash, gosthmac, gostoid, gostpbkdf, gostrandom, gostsignature, rng_of

FILES = ('gostcipher/gost_34_13_2015.py', 'gostcipher/gost_34_12_2015.py', 'gosthash/gost_34_11_2012.py',
         'gosthmac/r_50_1_113_2016.py', 'gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py',
         'gostsignature/gost_34_10_2012.py', 'gostoid/oid.py', 'utils/utils.py')
RULE = ('case = 4..9 independent users (ciphers of every mode with default and shared vectors, MAC, hash, HMAC, generator, '
        'derivation, signature, identifiers, and nuisances: rejected calls, short-lived and cleared objects), each with its '
        'own objects and reference predictions, (a) interleaved call by call in one thread in a random order with collections '
        'in between, or (b) run in 3..6 threads with a switch interval of 2 microseconds and thread switches injected at random lines '
        'inside the package, (c) started as threads of a new process that has not used the package before, or (d) nested: at random lines inside a call of one user others take steps, or die, in the same thread, as signal handlers and finalizers do. Oracle: every result equals the reference; exported constants and the arguments shared by the '
        'users are unchanged. Distinct = interleavings (sequence of user indices of the steps) and switch points (line of the '
        'package where control passed to another thread inside a call); non-trivial = a result compared.')
ASSUMES = ('the reference models are checked by gostmon.selftest', 'threads are CPython threads; each object is used by one thread')
REACH = {'results': 6000, 'results in threads': 600, 'switches inside calls': 2000, 'constants compared': 150, 'results from a cold start': 200,
         'steps inside calls of others': 400}

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MODULES = (gostcipher, gosthash, gosthmac, gostoid, gostpbkdf, gostrandom, gostsignature)


def constants():
    return {(m.__name__, k): getattr(m, k) for m in MODULES for k in dir(m)
            if not k.startswith('_') and isinstance(getattr(m, k), (int, str, bytes, bytearray, tuple, list, dict))}


PRISTINE = copy.deepcopy(constants())


def cases(tier, rng):
    res = []
    for _ in range({'quick': 360, 'thorough': 9000}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='steps'))
    for _ in range({'quick': 90, 'thorough': 1800}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='threads', w=1))
    for _ in range({'quick': 60, 'thorough': 1800}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='nested'))
    for _ in range({'quick': 24, 'thorough': 600}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='cold', w=1))
    return res


class Switcher:
    """Yields the interpreter at random lines of the package; records where another thread then ran."""

    TOOL = 4

    def __init__(self, seed, prefix, rate):
        self.rng, self.prefix, self.rate = random.Random(seed), prefix, rate
        self.last = None
        self.points = set()
        self.switches = 0

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'gostmon-switch')
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.set_events(self.TOOL, m.events.LINE)

    def stop(self):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)

    def line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        if self.last is not None and self.last[0] != me:
            self.switches += 1
            self.points.add(self.last[1:])
        self.last = (me, code.co_filename[len(self.prefix):], line)
        if self.rng.random() < self.rate:
            time.sleep(0)
        return None


def run_threads(mon, rng, gens, rates=(0, .002, .01, .05)):
    import gostcrypto
    prefix = gostcrypto.__file__.rsplit('/', 1)[0]
    records = [[] for _ in gens]
    order = []
    barrier = threading.Barrier(len(gens))

    def body(i):
        try:
            barrier.wait(30)
            for step in gens[i]:
                order.append(i)
                records[i].append(step)
        except Exception as exc:
            records[i].append(('after %s' % (records[i][-1][0] if records[i] else 'start'), exc, None))

    old = sys.getswitchinterval()
    switcher = Switcher(rng.getrandbits(32), prefix, rng.choice(rates))
    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(gens))]
    sys.setswitchinterval(2e-6)
    switcher.start()
    try:
        for t in threads:
            t.start()
        limit = time.monotonic() + 200
        for t in threads:
            t.join(max(.1, limit - time.monotonic()))
        alive = sum(t.is_alive() for t in threads)
    finally:
        switcher.stop()
        sys.setswitchinterval(old)
    mon.expect(not alive, '%d threads did not finish' % alive)
    mon.count('switches inside calls', switcher.switches)
    for p in switcher.points:
        mon.state('switch point', *p)
    mon.state('interleaving', tuple(order))
    return records


class Nester:
    """Lets other users take a step at random lines inside a call, in the same thread (as a signal handler or a finalizer does)."""

    TOOL, DEEPEST = 4, 3

    def __init__(self, seed, prefix, rate, gens):
        self.rng, self.prefix, self.rate, self.gens = random.Random(seed), prefix, rate, gens
        self.running = []               # users whose step is in progress, outermost first
        self.records = [[] for _ in gens]
        self.order, self.points, self.nested = [], set(), 0
        self.live = set(range(len(gens)))
        self.busy = False               # the callback itself is at work

    start, stop = Switcher.start, Switcher.stop

    def line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        if self.busy or len(self.running) >= self.DEEPEST or self.rng.random() >= self.rate:
            return None
        self.busy = True
        idle = sorted(self.live.difference(self.running))
        if idle:
            self.points.add((code.co_filename[len(self.prefix):], line))
            i = self.rng.choice(idle)
            self.nested += 1
            self.step(i)
        self.busy = False
        return None

    def step(self, i):
        self.running.append(i)
        self.order.append((i, len(self.running)))
        self.busy = False
        try:
            self.records[i].append(next(self.gens[i]))
        except StopIteration:
            self.live.discard(i)
            self.gens[i] = None         # its objects die here, inside the call of another one
        except Exception as exc:
            self.records[i].append(('after %s' % (self.records[i][-1][0] if self.records[i] else 'start'), exc, None))
            self.live.discard(i)
        finally:
            self.running.pop()


def run_nested(mon, rng, gens):
    import gostcrypto
    nester = Nester(rng.getrandbits(32), gostcrypto.__file__.rsplit('/', 1)[0], rng.choice((.0005, .002, .01, .05)), gens)
    nester.start()
    try:
        while nester.live:
            i = nester.rng.choice(sorted(nester.live))
            mon.must('step of user %d with others inside it' % i, nester.step, i)
    finally:
        nester.stop()
    mon.count('steps inside calls of others', nester.nested)
    for p in nester.points:
        mon.state('nested at', *p)
    mon.state('nesting', tuple(nester.order))
    return nester.records


COLD = '''import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from gostmon import target
target.load()
from gostmon.props import c19
c19.cold_main(%d)
'''
COLD_KINDS = ('cipher', 'hash', 'hmac', 'prng', 'mac', 'signature', 'pbkdf', 'oid')


def cold_main(seed):
    """In a process that has not used the package yet: its first uses happen in several threads at once."""
    from gostmon import core
    mon, rng = core.Monitor(), random.Random(seed)
    shared = actors.shared_args(rng)
    kinds = [rng.choice(COLD_KINDS)] * rng.randrange(3, 7) if rng.random() < .7 else rng.sample(COLD_KINDS, 5)
    kinds = [k for i, k in enumerate(kinds) if k not in ('signature', 'pbkdf') or i < 2]
    gens = [actors.KINDS[k](random.Random(rng.getrandbits(64)), shared) for k in kinds]
    n = 0
    for i, rec in enumerate(run_threads(mon, rng, gens, (.002, .01, .05, .3))):
        for label, got, want in rec:
            n += 1
            if not actors.matches(got, want):
                print('WRONG user %d of %s, %s: observed %s, alone %s' % (
                    i, kinds, label, repr(got) if isinstance(got, Exception) else short(got), short(want)))
    print('DONE %d %d' % (n, mon.counters['switches inside calls']))


def cold(case, mon):
    res = subprocess.run([sys.executable, '-B', '-c', COLD % (ROOT, case['s'])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         timeout=300, env=dict(os.environ, GOSTMON_REPO=target.REPO))
    text = res.stdout.decode(errors='replace')
    mon.expect('WRONG' not in text, 'first use of the package from several threads', text[text.find('WRONG'):][:400])
    done = text[text.rfind('DONE'):].split()
    mon.expect(len(done) == 3 and not res.returncode, 'first use of the package from several threads did not finish', text[-400:])
    mon.events += int(done[1])
    mon.count('results from a cold start', int(done[1]))
    mon.count('switches inside calls', int(done[2]))
    mon.state('cold', case['s'])


def run(case, mon):
    if case['how'] == 'cold':
        return cold(case, mon)
    rng = rng_of(case)
    shared = actors.shared_args(rng)
    frozen = copy.deepcopy(shared)
    threaded = case['how'] == 'threads'
    n = rng.randrange(3, 7) if case['how'] != 'steps' else rng.randrange(4, 10)
    pool = ['cipher'] * 4 + ['hash', 'hmac', 'prng', 'mac', 'nuisance', 'nuisance', 'pbkdf', 'signature', 'oid']
    kinds = [rng.choice(pool) for _ in range(n)]
    if rng.random() < .35:      # several users of the same kind: class-level state
        kinds = [rng.choice(pool)] * n
    if case['how'] != 'steps' and kinds.count('signature') > 3:
        kinds = [k if k != 'signature' or i < 3 else 'hash' for i, k in enumerate(kinds)]
    gens = [actors.KINDS[k](random.Random(rng.getrandbits(64)), shared) for k in kinds]

    def judge(i, step):
        label, got, want = step
        mon.events += 1
        mon.ops[label] += 1
        mon.expect(actors.matches(got, want), 'user %d of %s, %s' % (i, kinds, label),
                   'observed ' + (repr(got) if isinstance(got, Exception) else short(got)), 'alone ' + short(want))
        if want is not actors.ANY:
            mon.count('results in threads' if threaded else 'results')

    if threaded or case['how'] == 'nested':
        for i, rec in enumerate(run_threads(mon, rng, gens) if threaded else run_nested(mon, rng, gens)):
            for step in rec:
                judge(i, step)
    else:
        live = list(range(n))
        order = []
        while live:
            i = rng.choice(live)
            for _ in range(rng.choice((1, 1, 1, 2, 5))):
                out = mon.attempt('step of ' + kinds[i], next, gens[i])
                if not out.returned:
                    mon.expect(isinstance(out.exc, StopIteration), 'user %d of %s' % (i, kinds), out.text())
                    live.remove(i)
                    gens[i] = None      # its objects die here, others go on
                    break
                order.append(i)
                judge(i, out.value)
            if rng.random() < .05:
                gc.collect()
        mon.state('interleaving', tuple(order), tuple(kinds))
    mon.expect(shared == frozen, 'an argument shared by the users was changed', str(kinds))
    mon.expect(constants() == PRISTINE, 'an exported constant was changed', str(kinds))
    mon.count('constants compared')
