"""C22: comparisons are correct and do position-independent work."""

import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

from gostcrypto.utils import compare, compare_to_zero
from gostmon import target
from .common import gen, rng_of, typed

FILES = ('utils/utils.py',)
RULE = ('case = (result) batches of pairs of strings of 0..300 octets, equal, of different length, or different in 1..n octets, '
        'the differences chosen to cancel under exclusive or, under addition modulo 256 or 65536, or with only one bit set; '
        'oracle: equality of the octets; (bytecode) for one length, strings different at every position in turn, in every number '
        'of positions, as all four type combinations, the interpreter reporting every executed instruction; oracle: the same '
        'number of instructions for all of one length; (native) comparisons of 65536 octets run under callgrind, each '
        'bracketed so that its machine instructions are counted separately; oracle: the counts for a difference at the start, '
        'in the middle and at the end agree to 1500 of them (an early exit of a C-level comparison differs by more). '
        'Distinct = (kind, length, position or number of differences); non-trivial = unequal strings of equal length.')
ASSUMES = ('work is counted in executed interpreter and machine instructions, not time',
           'callgrind counts machine instructions exactly; if valgrind cannot run, the native part is reported as skipped')
REACH = {'pairs': 4000, 'measured': 1000}

SLACK = 1500


def cases(tier, rng):
    k = 1 if tier == 'quick' else 12
    res = [dict(s=rng.getrandbits(48), how='result') for _ in range(60 * k)]
    lens = (1, 2, 3, 8, 16, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200)
    res += [dict(s=rng.getrandbits(48), how='bytecode', fn=f, n=n, w=1) for f in ('compare', 'zero')
            for n in (lens if tier == 'quick' else range(1, 300))]
    for f in ('compare', 'compare_to_zero'):
        for delta in ((1, 128) if tier == 'quick' else (1, 2, 16, 85, 128, 255)):
            res.append(dict(s=rng.getrandbits(48), how='native', fn=f, n=65536, delta=delta, w=9))
    return res


def second_of(rng, a):
    """(class, b) for a given a."""
    n = len(a)
    kind = rng.choice(('equal', 'len', 'one', 'one', 'bit', 'cancel', 'sum', 'sum16', 'many', 'all', 'swap', 'shift', 'prefix'))
    b = bytearray(a)
    if kind == 'len':
        m = rng.choice([x for x in (0, 1, n - 1, n + 1, 2 * n, rng.randrange(300)) if x >= 0])
        return kind, bytes((b + bytearray(m))[:m])
    if kind == 'prefix':
        return kind, bytes(b + b'\0' * rng.randrange(1, 3)) if rng.random() < .5 else bytes(b[:-1])
    if not n or kind == 'equal':
        return 'equal', bytes(b)
    p = rng.choice((0, n - 1, rng.randrange(n)))
    if kind == 'one':
        b[p] ^= rng.randrange(1, 256)
    elif kind == 'bit':
        b[p] ^= 1 << rng.randrange(8)
    elif kind == 'cancel' and n > 1:
        d = rng.randrange(1, 256)
        for i in rng.sample(range(n), 2):
            b[i] ^= d
    elif kind in ('sum', 'sum16') and n > 3:
        # exclusive-or differences whose sum is a multiple of 256 (or of 65536 when n allows)
        if kind == 'sum16' and n >= 258:
            for i in range(257):
                b[i] ^= 255
            b[257] ^= 1
        else:
            for i in rng.sample(range(n), rng.choice((2, 4))):
                b[i] ^= 0x80
    elif kind == 'many':
        for i in rng.sample(range(n), rng.randrange(1, n + 1)):
            b[i] ^= rng.randrange(1, 256)
    elif kind == 'all':
        d = rng.randrange(1, 256)
        b = bytearray(x ^ d for x in b)
    elif kind == 'swap':
        b.reverse()
    elif kind == 'shift':
        b = b[1:] + b[:1]
    return kind, bytes(b)


def results(case, mon):
    rng = rng_of(case)
    for _ in range(100):
        n = rng.choice((0, 1, 2, 3, 4, 8, 16, 31, 32, 33, 63, 64, 65, 128, 258, 300, rng.randrange(300)))
        a = gen(rng, n)
        kind, b = second_of(rng, a)
        x, y = typed(a, rng), typed(b, rng)
        got = mon.must('compare', compare, x, y)
        mon.expect(bool(got) is (a == b), 'compare of %s (%s)' % (kind, 'equal' if a == b else 'different'),
                   '%s %s -> %r' % (a.hex(), b.hex(), got))
        if kind in ('len', 'prefix'):
            b = bytes(n)
        z = bytes(u ^ v for u, v in zip(a, b))
        got = mon.must('compare_to_zero', compare_to_zero, typed(z, rng))
        mon.expect(bool(got) is (not any(z)), 'compare_to_zero', '%s -> %r' % (z.hex(), got))
        mon.count('pairs')
        mon.state('pair', kind, n, a == b)


class Instructions:
    """Counts interpreter instructions executed by Python code other than this module's."""

    TOOL = 2

    def __init__(self):
        self.n = 0
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            m.use_tool_id(self.TOOL, 'gostmon-instructions')
        m.register_callback(self.TOOL, m.events.INSTRUCTION, self._one)

    def _one(self, code, _offset):
        if code.co_filename != __file__:
            self.n += 1

    def start(self):
        sys.monitoring.set_events(self.TOOL, sys.monitoring.events.INSTRUCTION)

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)

    def of(self, fn, *args):
        self.n = 0
        fn(*args)
        return self.n


def bytecode(case, mon):
    counter = Instructions()
    counter.start()
    try:
        # the adaptive interpreter fuses and specializes instructions: let it settle first
        for i in range(300):
            x, y = bytes([i & 255]) * 9, bytearray([i // 3 & 255]) * 9
            compare(x, y), compare(y, x), compare_to_zero(x), compare_to_zero(y)
        work(case, mon, counter)
    finally:
        counter.stop()


def work(case, mon, counter):
    rng = rng_of(case)
    n = case['n']
    fn = compare if case['fn'] == 'compare' else compare_to_zero
    seen = {}

    def measure(label, a, b):
        for cls in ((bytes, bytes), (bytearray, bytearray), (bytes, bytearray), (bytearray, bytes)):
            if fn is compare:
                args = (cls[0](a), cls[1](b))
                key = cls
            else:
                args = (cls[0](x ^ y for x, y in zip(a, b)),)
                key = cls[0]
            k = counter.of(fn, *args)
            mon.events += 1
            first = seen.setdefault(key, (args, label, k))
            if k != first[2]:
                # not the difference, if it does not persist (the interpreter re-specializes code now and then)
                again = [(counter.of(fn, *first[0]), counter.of(fn, *args)) for _ in range(6)]
                mon.expect(any(x == y for x, y in again), '%s of %d octets takes a number of instructions that depends on '
                           'the difference' % (case['fn'], n), '%d for %s, %d for %s' % (again[-1][0], first[1], again[-1][1], label))
                seen[key] = (args, label, counter.of(fn, *args))
            mon.count('measured')
        mon.state('work', case['fn'], n, label)

    base = gen(rng, n, 'rand')
    for pos in range(n) if n <= 64 else sorted({0, 1, 2, n // 2, n - 2, n - 1} | set(rng.sample(range(n), 20))):
        b = bytearray(base)
        b[pos] ^= 1 << rng.randrange(8)
        measure('position %d' % pos, base, b)
    for num in range(1, n + 1) if n <= 32 else sorted({2, 3, n - 1, n} | set(rng.sample(range(1, n), 12))):
        b = bytearray(base)
        for i in rng.sample(range(n), num):
            b[i] ^= rng.randrange(1, 256)
        measure('%d differences' % num, base, b)
        if num < n:
            b = bytearray(base)
            for i in range(num):
                b[i] ^= 255
            measure('first %d differ' % num, base, b)


def native_counts(case, mon):
    """{position: fewest machine instructions}, or None if valgrind cannot run."""
    n, delta = case['n'], case['delta']
    positions = [0, n - 1, 0, n - 1, n // 2, 0, n - 1]
    if not shutil.which('valgrind'):
        mon.count('native skipped')
        return None
    tmp = tempfile.mkdtemp(prefix='gostmon-cg-')
    try:
        env = dict(os.environ, PYTHONHASHSEED='0')
        cmd = ['valgrind', '--tool=callgrind', '--vgdb=no', '--collect-atstart=no', '--toggle-collect=qsort_r',
               '--dump-after=qsort_r', '--callgrind-out-file=' + os.path.join(tmp, 'cg'), sys.executable, '-S', '-E',
               os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'native_compare.py'),
               target.REPO, case['fn'], str(n), str(delta)] + [str(p) for p in positions]
        try:
            out = subprocess.run(cmd, env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except (subprocess.TimeoutExpired, OSError):
            mon.count('native skipped')
            return None
        totals = []
        files = glob.glob(os.path.join(tmp, 'cg.*'))
        for f in sorted(files, key=lambda f: int(f.rsplit('.', 1)[1])):
            with open(f, encoding='utf-8', errors='replace') as fh:
                totals += [int(x) for x in re.findall(r'^totals: (\d+)', fh.read(), re.M)]
        text = out.stdout.decode(errors='replace')
        if out.returncode or 'RESULTS %d ' % len(positions) not in text or len(totals) < len(positions):
            mon.count('native skipped')
            mon.count('native failed rc=%d dumps=%d' % (out.returncode, len(totals)))
            return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    mon.expect('True' not in text.split('RESULTS')[1], 'unequal strings of %d octets compare equal' % n, text[-200:])
    totals = totals[-len(positions):]
    best = {}
    for p, t in zip(positions, totals):
        best[p] = min(best.get(p, t), t)
        mon.count('machine instructions', t)
    mon.events += len(positions)
    mon.count('native comparisons', len(positions))
    return best


def native(case, mon):
    for last in (False, True):
        best = native_counts(case, mon)
        if best is None:
            return
        spread = max(best.values()) - min(best.values())
        if spread <= SLACK:
            break
        mon.expect(not last, '%s of %d octets takes a number of machine instructions that depends on the position'
                   % (case['fn'], case['n']), 'position: instructions %s' % best)
    mon.state('native', case['fn'], case['n'], case['delta'])


def run(case, mon):
    {'result': results, 'bytecode': bytecode, 'native': native}[case['how']](case, mon)
