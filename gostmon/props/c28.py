"""C28: the memory kept by objects and by the library does not grow with what was processed."""

import gc
import random
import sys
import time
import tracemalloc
import types

from gostmon import scale
from gostmon.core import Inconclusive
from . import script, sig
from .common import ALGS, BS, HINTS, MODES, gen, gostcipher, gosthash, gosthmac, gostoid, gostpbkdf, gostrandom, gostsignature, rng_of

FILES = ('gostcipher/gost_34_13_2015.py', 'gostcipher/gost_34_12_2015.py', 'gosthash/gost_34_11_2012.py',
         'gosthmac/r_50_1_113_2016.py', 'gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py',
         'gostsignature/gost_34_10_2012.py', 'gostoid/oid.py', 'utils/utils.py')
RULE = ('case = one repeated operation with fresh random arguments each time: (stream) further calls on one object of a class, '
        'mode and algorithm, with interleaved digests, copies, rejected calls; (churn) creating, using, clearing, copying, '
        'dropping objects with fresh keys, failed constructors included; (big) one call with a message of 5000..10000 octets (generator, derivation: 3000), then of 65536 octets and above (modes and MAC: over the stand-in permutation). '
        'Oracle: the interpreter\'s allocation tracer; after a warm-up the memory allocated and still held must stop growing: '
        'windows of 48 (slow operations: 16), 96, 192, .. operations are measured until one adds less than 512 octets; if none does within 20 s '
        'or 13 windows, memory grows with use (a cache of bounded size fills up and passes). For (stream), what the one object and its parts occupy is '
        'measured too, with windows of 400 (slow operations: 40), 800, .. operations and a bound of 176 octets. After (big) and dropping the result, at most 2048 octets '
        'more are held than after a call with 16 octets (smaller of two trials). A control case leaks on purpose and has to be caught. '
        'Distinct = (kind, operation, class); non-trivial = a window measured.')
ASSUMES = ('memory is what the Python allocators hand out (tracemalloc); nothing in the package is native',)
REACH = {'windows': 60, 'extents': 20, 'big': 20, 'control': 1}
SMALL = 512
SLACK = 176          # octets one object may gain in a window (a partial block comes and goes)
SLOW = ('sign', 'verify', 'key', 'pbkdf', 'random')

STREAMS = tuple(('cipher', alg, mode, op) for alg in ALGS for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr') for op in ('encrypt', 'decrypt')) + \
    tuple(('mac', alg) for alg in ALGS) + tuple((k, bits) + r for k in ('hash', 'hmac') for bits in (256, 512) for r in ((), ('reset',))) + \
    (('random',), ('pbkdf',), ('sign',), ('verify',), ('key',), ('oid',), ('direct', 'kuznechik'), ('direct', 'magma'))
CHURN = ('cipher', 'mac', 'hash', 'hmac', 'random', 'pbkdf', 'direct', 'oid', 'signature', 'failed', 'copies')


def cases(tier, rng):
    k = {'quick': 1, 'thorough': 8}[tier]
    res = [dict(s=1, how='control', what='')]
    for _ in range(k):
        res += [dict(s=rng.getrandbits(48), how='stream', what=w) for w in STREAMS]
        res += [dict(s=rng.getrandbits(48), how='churn', what=w, w=1) for w in CHURN for _ in range(2)]
        res += [dict(s=rng.getrandbits(48), how='big', what=w) for w in STREAMS if w[0] in ('cipher', 'mac', 'hash', 'hmac', 'random', 'pbkdf') and 'reset' not in w]
        res += [dict(s=rng.getrandbits(48), how='huge', what=w, w=2) for w in STREAMS if w[0] in ('cipher', 'mac', 'hash', 'hmac') and 'reset' not in w]
    return res


def quiet(fn, *args, **kw):
    try:
        fn(*args, **kw)
    except Exception:
        pass


def stream(rng, what):
    """A function of no arguments performing one more operation on an object."""
    kind = what[0]
    if kind == 'cipher':
        _, alg, mode, op = what
        bs = BS[alg]
        kw = dict(init_vect=rng.randbytes(bs // 2)) if mode == 'ctr' else dict(init_vect=rng.randbytes(2 * bs)) if mode != 'ecb' else {}
        obj = gostcipher.new(alg, rng.randbytes(32), MODES[mode], **kw)

        def fn():
            getattr(obj, op)(rng.randbytes(bs * rng.randrange(0, 4)))
            if mode == 'ctr':
                obj.counter
            elif mode != 'ecb':
                obj.iv
    elif kind == 'mac':
        obj = gostcipher.new(what[1], rng.randbytes(32), MODES['mac'])

        def fn():
            obj.update(rng.randbytes(rng.randrange(40)))
            if rng.random() < .5:
                obj.digest(8)
                obj.hexdigest(4)
    elif kind in ('hash', 'hmac'):
        obj = gosthash.new('streebog%d' % what[1]) if kind == 'hash' else gosthmac.new('HMAC_GOSTR3411_2012_%d' % what[1], rng.randbytes(40))

        def fn():
            obj.update(rng.randbytes(rng.randrange(90)))
            x = rng.random()
            if x < .2:
                obj.digest()
            elif x < .3:
                obj.hexdigest()
            elif x < .4:
                obj.copy().update(rng.randbytes(20))
            elif x < .5:
                quiet(obj.update, 'text')
            elif x < .55 and 'reset' in what:
                obj.reset()
    elif kind == 'random':
        obj = gostrandom.new(40, rand_k=b'\1' + rng.randbytes(31), size_s=32)

        def fn():
            obj.random()
            if rng.random() < .1:
                obj.reset(b'\1' + rng.randbytes(31))
            if rng.random() < .1:
                quiet(obj.reset, b'short')
    elif kind == 'pbkdf':
        obj = gostpbkdf.new(rng.randbytes(16), salt=rng.randbytes(8), counter=1)

        def fn():
            obj.derive(rng.randrange(1, 100))
            obj.salt
    elif kind in ('sign', 'verify', 'key'):
        c = sig.ec.CURVES[sig.C256[0]]
        obj = gostsignature.new(gostsignature.MODE_256, sig.SUPPLIED[sig.C256[0]])
        d = sig.enc(7, c)
        good = c.sign(7, bytes(31) + b'\5', 11)
        pub = c.encode(c.public(7))

        def fn():
            if kind == 'sign':
                obj.sign(d, rng.randbytes(32), sig.enc(rng.randrange(1, 1 << 24), c))
            elif kind == 'verify':
                quiet(obj.verify, pub if rng.random() < .8 else rng.randbytes(64), rng.randbytes(32),
                      rng.choice((good, bytes(63) + b'\1', rng.randbytes(64), good[:32] + bytes(31) + rng.randbytes(1))))
            else:
                obj.public_key_generate(sig.enc(rng.randrange(1, 1 << 24), c))
    elif kind == 'oid':
        def fn():
            o = gostoid.ObjectIdentifier('1.2.%d.%d' % (rng.getrandbits(60), rng.getrandbits(30)))
            o.digit, o.octet, o.name, str(o)
            quiet(lambda: gostoid.ObjectIdentifier('1.x%d' % rng.getrandbits(40)).octet)
    else:
        cls = {'kuznechik': gostcipher.GOST34122015Kuznechik, 'magma': gostcipher.GOST34122015Magma}[what[1]]
        obj = cls(rng.randbytes(32))

        def fn():
            obj.decrypt(obj.encrypt(rng.randbytes(BS[what[1]])))
    fn.obj = None if kind == 'oid' else obj
    return fn


class Quiet(script.Executor):
    """Executes the steps without recording events."""

    def do(self, step):
        kind, slot, name, args, kw = step
        try:
            if kind == 'new':
                self.objects[slot] = script.NEW[name](*args, **kw)
            elif kind == 'copy':
                self.objects[name] = self.objects[slot].copy()
            elif kind == 'get':
                getattr(self.objects[slot], name)
            else:
                getattr(self.objects[slot], name)(*args, **kw)
        except Exception:
            pass


BAD = (lambda rng: gostcipher.new('magma', rng.randbytes(31), MODES['ctr']),
       lambda rng: gostcipher.new('kuznechik', rng.randbytes(32), MODES['cbc'], init_vect=rng.randbytes(17)),
       lambda rng: gostcipher.new('magma', rng.randbytes(32), MODES['ecb'], pad_mode=7),
       lambda rng: gostcipher.new('rot%d' % rng.getrandbits(40), rng.randbytes(32), MODES['ecb']),
       lambda rng: gosthash.new('streebog%d' % rng.getrandbits(40)),
       lambda rng: gosthmac.new('HMAC_GOSTR3411_2012_256', rng.randbytes(65)),
       lambda rng: gostpbkdf.new(rng.randbytes(65)),
       lambda rng: gostpbkdf.new(rng.randbytes(8), salt='salt'),
       lambda rng: gostrandom.new(32, rand_k=rng.randbytes(31)),
       lambda rng: gostsignature.new(gostsignature.MODE_512, sig.SUPPLIED[sig.C256[0]]),
       lambda rng: gostsignature.new(gostsignature.MODE_256, dict(p=rng.getrandbits(200) | 1, q=7, a=1, b=2, x=3, y=4)))


def churn(rng, what):
    if what == 'failed':
        return lambda: quiet(rng.choice(BAD), rng)
    if what == 'copies':
        def fn():
            o = gosthash.new('streebog256', data=rng.randbytes(10)) if rng.random() < .5 else gosthmac.new('HMAC_GOSTR3411_2012_512', rng.randbytes(32))
            for _ in range(3):
                o = o.copy()
                o.update(rng.randbytes(5))
            if hasattr(o, 'clear'):
                o.clear()
        return fn
    if what == 'signature':
        def fn():
            o = gostsignature.new(gostsignature.MODE_256, sig.SUPPLIED[rng.choice(sig.C256)])
            o.public_key_generate(bytes(30) + rng.randbytes(1) + b'\1')
        return fn
    build = script.KINDS[what]

    def fn():
        ex = Quiet(None)
        if what == 'pbkdf':
            ex.do(script.new('o', 'pbkdf', rng.randbytes(12), salt=rng.randbytes(9), counter=1))
            ex.do(script.call('o', 'derive', 20))
        else:
            ex.run(build(rng)[:3])
        if rng.random() < .5:
            for o in ex.objects.values():
                if hasattr(o, 'clear'):
                    o.clear()
    return fn


def held():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def settle(mon, fn, seconds=20, n=48):
    """(windows, total operations, growth of the windows); the last one is small if memory settled."""
    grown, total = [], 0
    end = time.thread_time() + seconds
    tracemalloc.start(1)
    try:
        for _ in range(n // 2):
            fn()
        for _ in range(13):
            before = held()
            for _ in range(n):
                fn()
            total += n
            grown.append(held() - before)
            mon.count('windows')
            mon.events += n
            if grown[-1] < SMALL or time.thread_time() > end:
                break
            n *= 2
    finally:
        tracemalloc.stop()
    return total, grown


NOT_PARTS = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.CodeType)


def extent(obj):
    """Octets occupied by an object and everything that belongs to it."""
    seen, todo, total = set(), [obj], 0
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, NOT_PARTS):
            continue
        seen.add(id(x))
        total += sys.getsizeof(x)
        todo += gc.get_referents(x)
    return total


def grows(mon, fn, n, seconds=20):
    """Like settle(), for what one object occupies: growth of windows of n, 2n, 4n, .. operations."""
    def most():
        top = 0
        for _ in range(6):
            fn()
            top = max(top, extent(fn.obj))
        return top

    grown, total = [], 0
    end = time.thread_time() + seconds
    for _ in range(n // 2):
        fn()
    before = most()
    for _ in range(10):
        for _ in range(n):
            fn()
        total += n
        now = most()
        grown.append(now - before)
        mon.count('extents')
        if grown[-1] < SLACK or time.thread_time() > end:
            break
        before = now
        n *= 2
    return total, grown


def run(case, mon):
    rng = rng_of(case)
    how, what = case['how'], case['what']
    if how == 'control':
        kept = []
        _, grown = settle(mon, lambda: kept.append(random.Random(len(kept)).randbytes(16)), 1)
        if min(grown) < SMALL:
            raise Inconclusive('a deliberate leak was not seen: %s' % grown)
        mon.count('control')
        return
    if how == 'big':
        return big(mon, rng, what)
    if how == 'huge':
        sizes = [65536 + 64, 65536 + rng.randrange(65, 4096)] + [h * u // 16 * 16 for h in HINTS for u in (1, 8, 16, 64) if 10000 < h * u <= 200000][:3]
        light = what[0] in ('cipher', 'mac')
        for n in sizes[:1] + [131072, sizes[1]] * light + sizes[2:]:
            if light:
                with scale.Blocks():
                    big(mon, rng, what, n)
            else:
                big(mon, rng, what, n)
        return
    fn = stream(rng, what) if how == 'stream' else churn(rng, what)
    if how == 'stream' and fn.obj is not None:
        total, grown = grows(mon, fn, 40 if what[0] in SLOW else 400)
        mon.expect(grown[-1] < SLACK, 'an object grows with use: %s' % (what,), 'octets gained in each of the last windows: +%s (%d operations)' % (grown, total))
    total, grown = settle(mon, fn, n=16 if what == 'pbkdf' or what[0] in ('sign', 'verify', 'key', 'pbkdf') else 48)
    mon.expect(grown[-1] < SMALL, 'memory grows with use: %s %s' % (how, what), 'octets held after each of the last windows: +%s (%d operations)' % (grown, total))
    mon.state('settles', how, str(what), len(grown))


def big(mon, rng, what, n=0):
    kind = what[0]
    first, small = (64, 64) if n else (20, 16)
    n = n or rng.randrange(5000, 10000)
    if kind == 'cipher':
        _, alg, mode, op = what
        bs = BS[alg]
        kw = dict(init_vect=rng.randbytes(bs // 2)) if mode == 'ctr' else dict(init_vect=rng.randbytes(2 * bs)) if mode != 'ecb' else {}
        obj = gostcipher.new(alg, rng.randbytes(32), MODES[mode], **kw)
        n -= n % bs        # what follows a partial block is not specified

        def fn(size):
            getattr(obj, op)(rng.randbytes(size))
        fn(bs)
    elif kind == 'mac':
        obj = gostcipher.new(what[1], rng.randbytes(32), MODES['mac'])

        def fn(size):
            obj.update(rng.randbytes(size))
            obj.digest(8)
        fn(first)
    elif kind in ('hash', 'hmac'):
        obj = gosthash.new('streebog%d' % what[1]) if kind == 'hash' else gosthmac.new('HMAC_GOSTR3411_2012_%d' % what[1], rng.randbytes(40))

        def fn(size):
            obj.update(rng.randbytes(size))
            obj.digest()
        fn(first)
    elif kind == 'random':
        n = 3000
        obj = gostrandom.new(n, rand_k=b'\1' + rng.randbytes(31), size_s=32)

        def fn(size):
            obj.random()
        fn(0)
    else:
        obj = gostpbkdf.new(rng.randbytes(16), salt=rng.randbytes(8), counter=1)

        def fn(size):
            obj.derive(min(size, 3000))
        fn(first)
    def pair():
        fn(small)
        before = held()
        fn(n)
        return held() - before

    tracemalloc.start(1)
    try:
        fn(n // 2 // 64 * 64)
        out = mon.attempt('calls with %d and %d octets on %s' % (small, n, what), lambda: min(pair(), pair()))
    finally:
        tracemalloc.stop()
    mon.expect(out.returned, 'a large call on %s' % (what,), out.text())
    mon.expect(out.value < 2048, 'each call with %d octets leaves %s octets more held than a call with %d: %s' % (n, out.value, small, what))
    mon.count('big')
    mon.state('big', str(what))
