"""C23: default salts, seeds and signature numbers come fresh from the system source."""

import random

from gostmon.entropy import SOURCE
from gostmon.ref import streebog
from . import sig
from .common import gen, rng_of, typed, gostpbkdf, gostrandom

FILES = ('gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py', 'gostsignature/gost_34_10_2012.py')
RULE = ('case = a history of 3..8 constructions, resets and signatures (values omitted, given empty, or supplied; arbitrary '
        'interleaving) under an interposer that replaces and records what the operating system hands out (random, constant, '
        'repeated, nearly zero, failing). Oracle: every default salt is 32 octets handed out during that very constructor call, and '
        'the derived keys are those of that salt; every default seed is of the configured size, handed out during that very '
        'constructor or reset call, and the outputs are those of that seed; a signature number recovered from the signature is a '
        'function of what was handed out during that very call: equal blocks give an equal number, inverting any octet or bit of them '
        'changes it, an unusable draw is followed by a fresh one; when the source fails the call fails; supplied values are used as they are whatever the source holds. '
        'Distinct = (what, how given, entropy kind, history position); non-trivial = a value traced to its origin.')
ASSUMES = ('the library reads the source through os.urandom, os.getrandom, secrets or random.SystemRandom',
           'a signature number may be any injective function of the octets drawn')
REACH = {'salts': 200, 'seeds': 220, 'numbers': 60, 'octets inverted': 300, 'numbers after an unusable draw': 12, 'source failed': 60, 'supplied': 150}


class Failed(OSError):
    pass


def cases(tier, rng):
    n = {'quick': 220, 'thorough': 6000}[tier]
    res = [dict(s=rng.getrandbits(48), how='history') for _ in range(n)]
    n = {'quick': 36, 'thorough': 700}[tier]
    res += [dict(s=rng.getrandbits(48), how='number', name=(sig.C256 * 3 + sig.C512)[i % (len(sig.C256) * 3 + len(sig.C512))], w=1)
            for i in range(n)]
    res += [dict(s=rng.getrandbits(48), how='fail') for _ in range({'quick': 80, 'thorough': 2000}[tier])]
    return res


def feeder(rng, kind):
    const = rng.randbytes(64)

    def fn(n):
        if kind == 'same':
            return const[:n] + bytes(max(0, n - 64))
        if kind == 'ff':
            return b'\xff' * n
        if kind == 'low':
            return bytes(n - 1) + b'\1' if n else b''
        if kind == 'bit':
            return gen(rng, n, 'bit')
        return rng.randbytes(n)
    return fn


def windows(log, n):
    """Every value of n octets in what the source handed out: whole blocks, or parts of the concatenation."""
    joined = b''.join(log)
    return [b for b in log if len(b) == n] + [joined[i:i + n] for i in range(len(joined) - n + 1)]


def seed_size(rng):
    return rng.choice((48, 40, 32, rng.randrange(8, 63)))


EMPTY = (None, b'', bytearray())


def history(case, mon, rng):
    objs = []
    for step in range(rng.randrange(3, 9)):
        kind = rng.choice(('rand', 'rand', 'rand', 'same', 'ff', 'low', 'bit'))
        what = rng.choice(('salt', 'salt', 'seed', 'seed', 'reset', 'supplied salt', 'supplied seed', 'use'))
        empty = rng.choice(EMPTY)
        if what == 'salt':
            password = gen(rng, rng.randrange(1, 65))
            kw = {} if empty is None else dict(salt=empty)
            count = rng.randrange(1, 4)
            SOURCE.feed(feeder(rng, kind))
            obj = mon.must('gostpbkdf.new', gostpbkdf.new, typed(password, rng), counter=count, **kw)
            log = SOURCE.stop()
            salt = bytes(mon.must('salt', lambda: obj.salt))
            mon.expect(len(salt) == 32, 'the default salt has %d octets' % len(salt))
            mon.expect(salt in windows(log, 32), 'the default salt was not handed out by the system source in this call',
                       'salt %s, handed out %s' % (salt.hex(), [b.hex() for b in log]))
            n = rng.choice((16, 64, 70))
            mon.same('key derived with the default salt', mon.must('derive', obj.derive, n), streebog.pbkdf2(password, salt, count, n))
            mon.same('salt read again', mon.must('salt', lambda: obj.salt), salt)
            objs.append(('salt', obj, password, salt, count))
            mon.count('salts')
        elif what == 'seed':
            size, ss = rng.choice((8, 64, 70)), seed_size(rng)
            kw = {} if empty is None else dict(rand_k=empty)
            if ss != 48 or rng.random() < .5:
                kw['size_s'] = ss
            SOURCE.feed(feeder(rng, kind))
            obj = mon.must('gostrandom.new', gostrandom.new, size, **kw)
            log = SOURCE.stop()
            traced(mon, obj, size, ss, log, 'constructor')
            objs.append(('seed', obj, size, ss))
        elif what == 'reset':
            old = [o for o in objs if o[0] == 'seed']
            if not old:
                continue
            _, obj, size, ss = rng.choice(old)
            SOURCE.feed(feeder(rng, kind))
            mon.must('reset', obj.reset, *(() if empty is None else (empty,)))
            log = SOURCE.stop()
            traced(mon, obj, size, ss, log, 'reset')
        elif what == 'supplied salt':
            password, salt = gen(rng, 8), gen(rng, rng.choice((1, 8, 31, 32, 33, 64)), rng.choice(('rand', 'zero', 'ff')))
            SOURCE.feed(feeder(rng, kind))
            obj = mon.must('gostpbkdf.new', gostpbkdf.new, typed(password, rng), salt=typed(salt, rng), counter=2)
            got = mon.must('derive', obj.derive, 32)
            SOURCE.stop()
            mon.same('supplied salt', mon.must('salt', lambda: obj.salt), salt)
            mon.same('key derived with a supplied salt', got, streebog.pbkdf2(password, salt, 2, 32))
            mon.count('supplied')
        elif what == 'supplied seed':
            ss = seed_size(rng)
            seed = gen(rng, ss, rng.choice(('rand', 'ff', 'bit')))
            SOURCE.feed(feeder(rng, kind))
            obj = mon.must('gostrandom.new', gostrandom.new, 70, rand_k=typed(seed, rng), size_s=ss)
            if rng.random() < .5:
                seed = gen(rng, ss, 'rand')
                mon.must('reset', obj.reset, typed(seed, rng))
            got = mon.must('random', obj.random)
            SOURCE.stop()
            mon.same('output of a supplied seed', got, streebog.Prng(70, seed).random())
            mon.count('supplied')
        else:
            for o in objs:
                if o[0] == 'salt':
                    mon.same('salt later', mon.must('salt', lambda: o[1].salt), o[3])
        mon.state('origin', what, repr(empty), kind, step)


def traced(mon, obj, size, ss, log, where):
    outs = [bytes(mon.must('random', obj.random)) for _ in range(2)]
    for seed in windows(log, ss):
        ref = streebog.Prng(size, seed)
        if any(seed) and [ref.random(), ref.random()] == outs:
            mon.count('seeds')
            mon.expect(True, 'seed')
            return
    mon.expect(False, 'the default seed (%d octets, %s) was not handed out by the system source in this call' % (ss, where),
               'outputs %s, handed out %s' % ([o.hex()[:40] for o in outs], [b.hex() for b in log]))


def number(case, mon, rng):
    """Signature numbers."""
    name = case['name']
    c, obj = sig.ec.CURVES[name], sig.obj_of(mon, name, fresh=rng.random() < .1)
    d, k0 = sig.scalar(rng, c)[1], sig.scalar(rng, c)[1]
    digest = sig.digest_of(rng, c)[1]
    e = c.e_of(digest)

    def sign(fn, *args):
        SOURCE.feed(fn)
        out = mon.must('sign', obj.sign, typed(sig.enc(d, c), rng), typed(digest, rng), *args)
        log = SOURCE.stop()
        r, s = int.from_bytes(out[:c.size], 'big'), int.from_bytes(out[c.size:], 'big')
        k = (s - r * d) * pow(e, -1, c.q) % c.q
        mon.expect(k != 0 and c.mul(k)[0] % c.q == r, '%s: a signature by the library that is none' % name)
        return k, log

    def replay(blocks, seed):
        todo, more = list(blocks), random.Random(seed)
        return lambda n: todo.pop(0) if todo and len(todo[0]) == n else more.randbytes(n)

    args = rng.choice(((), (b'',), (bytearray(),)))
    seen = {}
    for _ in range(2):
        seed = rng.getrandbits(32)
        k, log = sign(lambda n: rng.randbytes(n), *args)
        mon.expect(sum(map(len, log)) >= c.size and log, '%s: the number was not drawn from the system source in this call' % name,
                   'only %d octets were handed out' % sum(map(len, log)))
        mon.expect(k not in seen, '%s: a signature number was used twice' % name)
        seen[k] = log
        k2, log2 = sign(replay(log, seed), *args)
        mon.expect(k2 == k and log2 == log, '%s: with equal octets from the system source the number differs' % name, '%x and %x' % (k, k2))
        last = len(log) - 1
        size = len(log[last])
        for pos in sorted({0, 1, size - 1, size // 2} | set(rng.sample(range(size), min(size, 4)))):
            changed = bytearray(log[last])
            changed[pos] ^= 0xff
            k3, _ = sign(replay(log[:last] + [bytes(changed)], seed), *args)
            mon.expect(k3 != k, '%s: octet %d of what the system source hands out does not matter for the number' % (name, pos), '%x' % k)
            mon.count('octets inverted')
            mon.state('number', name, pos)
        for pos in rng.sample(range(8 * size), 5) + [8 * size - 1, 8 * size - 2]:
            changed = bytearray(log[last])
            changed[pos // 8] ^= 0x80 >> pos % 8
            k3, _ = sign(replay(log[:last] + [bytes(changed)], seed), *args)
            mon.expect(k3 != k, '%s: bit %d of what the system source hands out does not matter for the number' % (name, pos), '%x' % k)
            mon.count('bits inverted')
        mon.count('numbers')
    # after an unusable draw the number comes from the next one, not from somewhere else
    e = c.e_of(digest)
    k1 = rng.randrange(1, c.q)
    k, _ = sign(replay([sig.enc(k1, c)], 0), *args)
    if k == k1:
        r = c.mul(k1)[0] % c.q
        bad = rng.choice((0, 's=0', 's=0'))
        if bad == 's=0' and r and -r * d * pow(k1, -1, c.q) % c.q:
            digest, bad = sig.digest_for(c, -r * d * pow(k1, -1, c.q) % c.q), k1
            e = c.e_of(digest)
        elif bad == 's=0':
            bad = 0
        blocks = [sig.enc(bad, c)] * rng.choice((1, 1, 2))
        found = [sign(replay(blocks, rng.getrandbits(32)), *args) for _ in range(2)]
        mon.expect(found[0][0] != found[1][0], '%s: after an unusable draw (%s) the number is not one that is drawn' % (name, 's = 0' if bad else '0'),
                   'the number %x whatever is drawn next, from %s' % (found[0][0], [b.hex() for b in found[0][1]]))
        mon.count('numbers after an unusable draw')
        mon.state('redrawn', name, bool(bad), len(blocks))
    want = c.sign(d, digest, k0)
    if want:
        k, log = sign(lambda n: rng.randbytes(n), typed(sig.enc(k0, c), rng))
        mon.expect(k == k0, '%s: a supplied number was not used' % name, '%x instead of %x' % (k, k0))
        mon.count('supplied')


def fail(case, mon, rng):
    """The source fails: no value may come from anywhere else."""
    def refuse(_n):
        raise rng.choice((Failed('no entropy'), NotImplementedError('no entropy source'), OSError(5, 'I/O error')))

    kind = rng.choice(('salt', 'seed', 'reset', 'number', 'number'))
    rs = mon.must('gostrandom.new', gostrandom.new, 8, rand_k=b'\1' * 48)
    name = rng.choice(sig.C256)
    c, obj = sig.ec.CURVES[name], sig.obj_of(mon, name)
    after = rng.choice((0, 0, 1))          # the draw that fails (the one before it is unusable for a number)
    todo = [b'\xff' * c.size] * after if kind == 'number' else []

    def fn(n):
        if todo and len(todo[0]) == n:
            return todo.pop()
        return refuse(n)

    SOURCE.feed(fn)
    if kind == 'salt':
        out = mon.attempt('gostpbkdf.new', gostpbkdf.new, b'password')
    elif kind == 'seed':
        out = mon.attempt('gostrandom.new', gostrandom.new, 8, size_s=seed_size(rng))
    elif kind == 'reset':
        out = mon.attempt('reset', rs.reset)
    else:
        out = mon.attempt('sign', obj.sign, sig.enc(sig.scalar(rng, c)[1], c), sig.digest_of(rng, c)[1])
    SOURCE.stop()
    mon.expect(not out.returned, 'the system source failed and the default %s came from elsewhere' % kind, out.text())
    mon.count('source failed')
    mon.state('failure', kind, after, type(out.exc).__name__)
    # afterwards everything works again
    SOURCE.feed(lambda n: rng.randbytes(n))
    new = mon.must('gostpbkdf.new', gostpbkdf.new, b'password', counter=1)
    log = SOURCE.stop()
    mon.expect(bytes(new.salt) in windows(log, 32), 'after a failure of the source, the default salt was not handed out by it')


def run(case, mon):
    rng = rng_of(case)
    try:
        {'history': history, 'number': number, 'fail': fail}[case['how']](case, mon, rng)
    finally:
        SOURCE.stop()
