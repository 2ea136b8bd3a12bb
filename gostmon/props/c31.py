"""C31: the work of a call is proportional to its input, whatever was processed before."""

import sys

from gostmon import scale, target
from . import sig
from .common import ALGS, BS, MODES, gen, gostcipher, gosthash, gosthmac, gostoid, gostpbkdf, gostrandom, gostsignature, near, rng_of

FILES = ('gostcipher/gost_34_13_2015.py', 'gostcipher/gost_34_12_2015.py', 'gosthash/gost_34_11_2012.py',
         'gosthmac/r_50_1_113_2016.py', 'gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py',
         'gostsignature/gost_34_10_2012.py', 'gostoid/oid.py', 'utils/utils.py')
RULE = ('case = one operation of a class, mode and algorithm with work measured as function entries, jumps and branches executed by the '
        'interpreter (deterministic, no clock). (size) the work W for inputs of n, 2n and 4n units (blocks, octets, output blocks, iterations, '
        'identifier components): W(4n) - W(2n) is at most 2.5 times W(2n) - W(n) plus a constant (twice for proportional work, four times for '
        'quadratic). (history) the work of the same call on one object at its beginning and after up to 2000 units processed (for half of the cases up to 66000, over a stand-in for the primitive), with digests, copies, '
        'resets and reads in between: at most 1.4 times the earlier work plus a constant. Both are decided for all and for each function, the first on up to four repetitions (tables filled on demand). (objects) the work of creating and using an object after hundreds of '
        'others: the same bound. (numbers) signing, verification and key generation for numbers of every shape: at most 3 times the median of random '
        'numbers. Control: a deliberately quadratic operation is reported. Distinct = (kind, operation, size); non-trivial = a difference compared.')
ASSUMES = ('work inside single interpreter instructions (copying of octets, arithmetic of long integers) is not counted',)
REACH = {'size': 40, 'history': 40, 'objects': 8, 'numbers': 50, 'control': 1, 'functions compared': 800, 'work counted': 2000000}

CIPHERS = tuple(('cipher', alg, mode, op) for alg in ALGS for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr') for op in ('encrypt', 'decrypt'))
OTHERS = (('mac', 'kuznechik'), ('mac', 'magma'), ('hash', 256), ('hash', 512), ('hmac', 256), ('hmac', 512), ('random',), ('pbkdf',))
SIZES = CIPHERS + OTHERS + (('iterations',), ('oid',), ('oid bits',), ('compare',), ('add_xor',), ('int_to_bytearray',))
HISTORIES = CIPHERS + OTHERS + (('direct', 'kuznechik'), ('direct', 'magma'), ('sign',), ('verify',), ('key',), ('salt',))
CHURN = ('cipher', 'mac', 'hash', 'hmac', 'random', 'pbkdf', 'signature', 'oid', 'copies')


class Excess(BaseException):
    """Raised inside a call that does more work than can be meant."""


class Work:
    """Function entries, jumps and branches of the package (PEP 669), per function."""

    TOOL = 2

    def __init__(self):
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            m.use_tool_id(self.TOOL, 'gostmon-work')
        e = m.events
        for ev in (e.PY_START, e.JUMP, e.BRANCH):
            m.register_callback(self.TOOL, ev, self._one)
        self.events = e.PY_START | e.JUMP | e.BRANCH
        self.mine = (__file__, target.__file__)
        self.per, self.left = {}, 0

    def _one(self, code, *_rest):
        if code.co_filename in self.mine and code.co_name != 'deliberate':
            return
        self.per[code] = self.per.get(code, 0) + 1
        self.left -= 1
        if self.left < 0:
            self.left = 1 << 60
            raise Excess()

    def of(self, fn, *args, limit=1 << 60):
        """{function: steps}, with the total under None."""
        self.per, self.left = {}, limit
        sys.monitoring.set_events(self.TOOL, self.events)
        try:
            fn(*args)
        except Excess:
            self.per['limit'] = limit
        finally:
            sys.monitoring.set_events(self.TOOL, 0)
        res = {}
        for code, n in self.per.items():
            name = code if isinstance(code, str) else '%s:%s' % (code.co_filename.rpartition('/')[2], code.co_qualname)
            res[name] = res.get(name, 0) + n
        res[None] = sum(res.values())
        return res


def least(maps):
    return {k: min(m.get(k, 0) for m in maps) for k in set().union(*maps)}


def cases(tier, rng):
    k = {'quick': 1, 'thorough': 10}[tier]
    res = [dict(s=1, how='control', what='')]
    for _ in range(k):
        res += [dict(s=rng.getrandbits(48), how='size', what=w) for w in SIZES for _ in range(2)]
        res += [dict(s=rng.getrandbits(48), how='history', what=w, deep=i) for w in HISTORIES for i in (0, 1)]
        res += [dict(s=rng.getrandbits(48), how='objects', what=w) for w in CHURN]
        res += [dict(s=rng.getrandbits(48), how='numbers', what=w, op=op, w=2 if '512' in w else 1) for op in ('sign', 'public_key_generate', 'verify')
                for w in list(sig.C256) + [rng.choice(sig.C512)]]
    return res


def make(rng, what, size=64):
    """(object, function of a number of units, work units it should be measured with)."""
    kind = what[0]
    if kind == 'cipher':
        _, alg, mode, op = what
        bs = BS[alg]
        kw = dict(init_vect=gen(rng, bs // 2, rng.choice(('rand', 'ff', 'zero')))) if mode == 'ctr' else \
            dict(init_vect=rng.randbytes(rng.choice((1, 2, 4)) * bs)) if mode != 'ecb' else {}
        obj = gostcipher.new(alg, rng.randbytes(32), MODES[mode], **kw)
        return obj, lambda n: getattr(obj, op)(rng.randbytes(n * bs)), 6
    if kind == 'mac':
        obj = gostcipher.new(what[1], rng.randbytes(32), MODES['mac'])
        return obj, lambda n: (obj.update(rng.randbytes(n * BS[what[1]])), obj.digest(8)), 6
    if kind in ('hash', 'hmac'):
        obj = gosthash.new('streebog%d' % what[1]) if kind == 'hash' else gosthmac.new('HMAC_GOSTR3411_2012_%d' % what[1], rng.randbytes(rng.choice((0, 20, 64))))
        obj.update(b'')
        return obj, lambda n: (obj.update(rng.randbytes(n * 64)), obj.digest()), 4
    if kind == 'random':
        obj = gostrandom.new(size, rand_k=b'\1' + rng.randbytes(31), size_s=32)
        return obj, lambda n: [obj.random() for _ in range(n)], 3
    if kind == 'pbkdf':
        obj = gostpbkdf.new(rng.randbytes(20), salt=rng.randbytes(16), counter=2)
        return obj, lambda n: obj.derive(64 * n), 3
    if kind == 'salt':
        obj = gostpbkdf.new(rng.randbytes(20), salt=rng.randbytes(16), counter=2)
        return obj, lambda n: [obj.salt for _ in range(n)], 3
    if kind == 'direct':
        cls = {'kuznechik': gostcipher.GOST34122015Kuznechik, 'magma': gostcipher.GOST34122015Magma}[what[1]]
        obj = cls(rng.randbytes(32))
        return obj, lambda n: [obj.decrypt(obj.encrypt(rng.randbytes(BS[what[1]]))) for _ in range(n)], 3
    c = sig.ec.CURVES[sig.C256[0]]
    obj = gostsignature.new(gostsignature.MODE_256, sig.SUPPLIED[sig.C256[0]])
    d, k = sig.enc(rng.randrange(1 << 200, 1 << 201), c), sig.enc(rng.randrange(1 << 200, 1 << 201), c)
    digest = rng.randbytes(32)
    if kind == 'key':
        return obj, lambda n: [obj.public_key_generate(d) for _ in range(n)], 1
    if kind == 'sign':
        return obj, lambda n: [obj.sign(d, digest, k) for _ in range(n)], 1
    pub, sgn = obj.public_key_generate(d), obj.sign(d, digest, k)
    return obj, lambda n: [obj.verify(pub, digest, sgn) for _ in range(n)], 1


def sizes(rng, what):
    """(function of units, units n): work measured at n, 2n, 4n on fresh objects."""
    kind = what[0]
    if kind == 'iterations':
        pw, salt = rng.randbytes(20), rng.randbytes(16)
        return (lambda n: gostpbkdf.new(pw, salt=salt, counter=n).derive(32)), rng.randrange(4, 9)
    if kind == 'oid':
        return (lambda n: gostoid.ObjectIdentifier('1.2.' + '.'.join(['77'] * n)).octet), rng.randrange(40, 300)
    if kind == 'oid bits':
        return (lambda n: gostoid.ObjectIdentifier('1.2.%d' % ((1 << 7 * n) - 5)).octet), rng.randrange(20, 300)
    if kind == 'compare':
        from gostcrypto.utils import compare, compare_to_zero
        return (lambda n: (compare(bytes(n), bytes(n)), compare_to_zero(bytes(n)))), rng.randrange(100, 900)
    if kind == 'add_xor':
        from gostcrypto.utils import add_xor
        return (lambda n: add_xor(bytes(n), b'\1' * n)), rng.randrange(100, 900)
    if kind == 'int_to_bytearray':
        from gostcrypto.utils import int_to_bytearray
        return (lambda n: int_to_bytearray((1 << 8 * n) - 3, n)), rng.randrange(100, 900)
    n = {'random': 4, 'pbkdf': 2, 'hash': 5, 'hmac': 5}.get(kind, 8) + rng.randrange(4)
    if kind == 'random':
        seed = b'\1' + rng.randbytes(31)
        return (lambda k: gostrandom.new(64 * k, rand_k=seed, size_s=32).random()), n

    def fn(k):
        fn.made[1](k)
    return fn, n


def run(case, mon):
    rng = rng_of(case)
    work = Work()
    how, what = case['how'], tuple(case['what']) if isinstance(case['what'], (list, tuple)) else case['what']
    if how == 'control':
        def deliberate(n):
            for i in range(n):
                for _ in range(i):
                    pass
        w = [work.of(deliberate, n)['c31.py:run.<locals>.deliberate'] for n in (50, 100, 200)]
        mon.expect(w[2] - w[1] > 3 * (w[1] - w[0]) > 0, 'the monitor does not count work', repr(w))
        mon.count('control')
        return
    if how == 'size':
        fn, n = sizes(rng, what)
        bad = None
        for _ in range(4):           # tables that are filled on demand are full the second time, or the third
            w, bad = [], None
            for k in (n, 2 * n, 4 * n):
                if hasattr(fn, '__closure__') and what[0] in ('cipher', 'mac', 'hash', 'hmac', 'pbkdf'):
                    fn.made = make(rng, what)
                w.append(work.of(fn, k, limit=10 * w[0][None] + 100000 if w else 1 << 60))
                mon.count('work counted', w[-1][None])
                if 'limit' in w[-1]:
                    bad = ('%d units take more than %d steps' % (k, w[-1]['limit']),)
                    break
            mon.events += len(w)
            for name in w[2] if not bad else ():
                x, y, z = (m.get(name, 0) for m in w)
                if z - y > 2.5 * max(y - x, 0) + 400:
                    bad = '%d, %d and %d units take %d, %d and %d steps' % (n, 2 * n, 4 * n, x, y, z), 'in %s' % (name or 'all')
                mon.count('functions compared')
            if not bad:
                break
        mon.expect(not bad, 'the work of %s grows faster than its input' % (what,), *(bad or ()))
        mon.count('size')
        mon.state('size', what, n)
        return
    if how == 'objects':
        return objects(mon, rng, work, what)
    if how == 'numbers':
        return numbers(mon, rng, work, what, case['op'])
    obj, fn, unit = make(rng, what)
    fn(1)
    little = small(obj, what)
    tiny = least([work.of(little) for _ in range(2)])
    first = least([work.of(fn, unit) for _ in range(2)])
    top = near(rng, 200, {'cipher': 2000, 'mac': 2000}.get(what[0], 500)) if what[0] not in ('sign', 'verify', 'key') else 14
    if what[0] == 'pbkdf':
        top = 60
    done = 0
    while done < top:
        n = min(top - done, rng.choice((1, 2, unit, unit, 4 * unit, 30)))
        fn(n)
        done += n
        extras(rng, obj, what)
    if case['deep']:
        done += deep(mon, rng, fn, what)
    more(mon, tiny, least([work.of(little, limit=20 * tiny[None] + 100000) for _ in range(3)]),
         'the work of small calls on %s grows with what the object has processed (%d units)' % (what, done))
    late = least([work.of(fn, unit, limit=20 * first[None] + 100000) for _ in range(2)])
    mon.count('work counted', 2 * first[None] + 2 * late[None])
    mon.events += 4
    more(mon, first, late, 'the work of %s grows with what the object has processed (%d units)' % (what, done))
    mon.count('history')
    mon.state('history', what, done // 100)


def small(obj, what):
    """Calls with less than a block."""
    if what[0] in ('mac', 'hash', 'hmac'):
        return lambda: (obj.update(b'a'), obj.update(b''), obj.digest(*((8,) if what[0] == 'mac' else ())))
    if what[0] == 'cipher' and what[2] in ('cfb', 'ofb', 'ctr'):
        return lambda: getattr(obj, what[3])(b'')
    return lambda: None


def deep(mon, rng, fn, what):
    """A history of tens of thousands of blocks, over a stand-in for the primitive where there is one."""
    top = {'cipher': 66000, 'mac': 66000, 'random': 20000, 'hash': 2000, 'hmac': 2000}.get(what[0], 0)
    over = {'cipher': scale.Blocks, 'mac': scale.Blocks, 'random': scale.Hash}.get(what[0])
    done = 0

    def fill():
        nonlocal done
        while done < top:
            n = min(top - done, rng.choice((1, 2, 30, 300, 3000, rng.randrange(1, 8000))))
            fn(n)
            done += n
    if over:
        with over():
            out = mon.attempt('a long history on %s' % (what,), fill)
        if not out.returned:
            mon.count('stand-in does not apply')
    else:
        fill()
    mon.count('deep units', done)
    return done


def more(mon, first, late, what):
    for name in late:
        x, y = first.get(name, 0), late[name]
        mon.expect(y <= 1.4 * x + 400, what, 'in %s: at the beginning %d steps, later %d' % (name or 'all', x, y))
        mon.count('functions compared')


def extras(rng, obj, what):
    x = rng.random()
    if x < .1 and hasattr(obj, 'copy'):
        obj.copy()
    elif x < .2 and hasattr(obj, 'hexdigest'):
        obj.hexdigest(*((8,) if what[0] == 'mac' else ()))
    elif x < .25 and hasattr(obj, 'iv'):
        obj.iv
    elif x < .3 and hasattr(obj, 'counter'):
        obj.counter


def objects(mon, rng, work, what):
    def one():
        if what == 'copies':
            o = gosthash.new('streebog256', data=b'abc')
            for _ in range(5):
                o = o.copy()
            o.digest()
        elif what == 'signature':
            gostsignature.new(gostsignature.MODE_256, sig.SUPPLIED[sig.C256[0]])
        elif what == 'oid':
            gostoid.ObjectIdentifier('1.2.643.7.%d' % rng.randrange(1 << 13, 1 << 14)).octet
        elif what == 'cipher':
            gostcipher.new('magma', rng.randbytes(32), MODES['ctr'], init_vect=rng.randbytes(4)).encrypt(rng.randbytes(20))
        elif what == 'pbkdf':
            gostpbkdf.new(rng.randbytes(10), salt=rng.randbytes(8), counter=1).derive(20)
        else:
            make(rng, {'mac': ('mac', 'magma'), 'hash': ('hash', 256), 'hmac': ('hmac', 512), 'random': ('random',)}[what])[1](1)
    for _ in range(3):
        one()
    first = least([work.of(one) for _ in range(3)])
    for _ in range(400 if what != 'pbkdf' else 100):
        one()
    late = least([work.of(one, limit=20 * first[None] + 100000) for _ in range(3)])
    mon.count('work counted', first[None] + late[None])
    mon.events += 6
    more(mon, first, late, 'creating and using %s gets more work the more objects there were' % what)
    mon.count('objects')
    mon.state('objects', what)


def numbers(mon, rng, work, name, op):
    c = sig.ec.CURVES[name]
    obj = gostsignature.new(sig.mode_of(c), sig.SUPPLIED[name])
    q, n = c.q, 8 * c.size

    def measure(d, k, digest, limit=1 << 60):
        want = c.sign(d, digest, k)
        if not want:
            return
        args = dict(sign=lambda: (sig.enc(d, c), digest, sig.enc(k, c)), public_key_generate=lambda: (sig.enc(d, c),),
                    verify=lambda: (c.encode(c.public(d)), digest, want))[op]()
        w = work.of(getattr(obj, op), *args, limit=limit)[None]
        mon.count('work counted', w)
        mon.events += 1
        return w

    base = sorted(measure(rng.randrange(2, q - 1), rng.randrange(2, q - 1), rng.randbytes(c.size)) for _ in range(3))[1]
    for i in range(6 if n == 256 else 4):
        small = bytes(c.size - 1) + bytes([rng.choice((2, 3, 4, 16))])
        args = (q - 1 if not i else sig.scalar(rng, c)[1], (1 << q.bit_length() - 1) - 1 if not i else sig.scalar(rng, c)[1],
                rng.choice((b'\xff' * c.size, small)) if i < 2 else sig.digest_of(rng, c)[1], 10 * base)
        got = measure(*args)
        if got and got > 3 * base + 400:
            got = measure(*args)
        if got:
            mon.expect(got <= 3 * base + 400, '%s: %s takes %d steps for some numbers, normally %d' % (name, op, got, base))
            mon.count('numbers')
    mon.state('numbers', name, op)
