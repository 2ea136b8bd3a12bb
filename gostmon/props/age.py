"""Objects with a long past: thousands of calls of one kind on one object, every result compared."""

from gostmon import scale
from gostmon.ref import ciphers, streebog
from .common import MODES, gen, gostcipher, gosthash, gosthmac, gostpbkdf, gostrandom, gostsignature


def number(rng, most):
    """A number of calls: past a power of two, up to `most`."""
    return most + rng.randrange(40)


def many(mon, what, n, step):
    """step(i) for i < n; it gives None, or what is wrong. Calls that fail are violations."""
    for start in range(0, n, 256):
        def part(start=start):
            for i in range(start, min(n, start + 256)):
                bad = step(i)
                if bad:
                    return i, bad
            return None
        got = mon.must('%s (calls %d to %d on one object)' % (what, start, min(n, start + 256)), part)
        mon.expect(got is None, '%s, after %s calls on one object' % (what, got and got[0]), str(got and got[1]))
    mon.count('calls on one object', n)
    mon.state('past', what, n.bit_length())


def differs(got, want):
    return None if bytes(got) == want else 'observed %s, oracle %s' % (bytes(got).hex(), want.hex())


def blocks(alg, obj, key, mon, rng, n):
    ref = ciphers.cipher(alg, key)
    pool = []
    for _ in range(6):
        b = gen(rng, ref.n if hasattr(ref, 'n') else len(ref.encrypt(bytes(16 if alg == 'kuznechik' else 8))))
        pool.append((b, ref.encrypt(b)))
    ops = rng.choice((('encrypt',), ('decrypt',), ('encrypt', 'decrypt')))

    def step(i):
        a, b = pool[i % 6] if i % 5 else pool[0]
        if ops[i % len(ops)] == 'encrypt':
            return differs(obj.encrypt(a), b)
        return differs(obj.decrypt(b), a)
    many(mon, '%s %s' % (alg, '/'.join(ops)), n, step)
    a, b = pool[1]
    mon.same('%s encrypt after %d blocks' % (alg, n), mon.must('encrypt', obj.encrypt, a), b)
    mon.same('%s decrypt after %d blocks' % (alg, n), mon.must('decrypt', obj.decrypt, b), a)


def marked(i):
    """Is the call number i + 1 one at which the expensive comparison is made?"""
    i += 1
    return any((i + d) & (i + d - 1) == 0 for d in (-1, 0, 1)) or i % 1000 < 2


HASH_HOWS = ('update', 'empty', 'reset', 'used reset', 'digest', 'chain', 'copies')


def hashed(obj, model, how, mon, rng, n, what):
    """`obj` a hash or HMAC object; `model(octets)` the digest."""
    head, piece = gen(rng, rng.choice((0, 5, 64, 70)), 'rand'), gen(rng, rng.choice((1, 2, 3)), 'rand')
    box = [obj, bytearray(head)]
    if head:
        obj.update(head)
    kept = model(head)

    def step(i):
        o = box[0]
        if how == 'update':
            o.update(piece)
            box[1] += piece
        elif how == 'empty':
            o.update(b'')
        elif how == 'reset':
            o.reset()
            box[1] = bytearray()
        elif how == 'used reset':
            o.update(piece)
            o.reset()
            box[1] = bytearray()
        elif how == 'digest':
            return differs(o.digest(), kept)
        elif how == 'chain':
            box[0] = o.copy()
        else:
            o.copy()
        if marked(i):
            return differs(box[0].digest(), model(bytes(box[1])))
        return None
    many(mon, '%s: %s' % (what, how), n, step)
    for d in (piece, gen(rng, 70)):
        box[0].update(d)
        box[1] += d
        mon.same('%s after %d calls (%s)' % (what, n, how), mon.must('digest', box[0].digest), model(bytes(box[1])))
    mon.must('reset', box[0].reset)
    mon.must('update', box[0].update, head + b'z')
    mon.same('%s after %d calls (%s) and a reset' % (what, n, how), mon.must('digest', box[0].digest), model(head + b'z'))


def hash_case(bits, how, mon, rng, n):
    obj = mon.must('gosthash.new', gosthash.new, 'streebog%d' % bits)
    hashed(obj, lambda m: streebog.streebog(bits, m), how, mon, rng, n, 'streebog%d' % bits)


def hmac_case(bits, how, mon, rng, n):
    """Over the stand-in for the hash function, or fewer calls with the real one."""
    name = 'HMAC_GOSTR3411_2012_%d' % bits
    key = gen(rng, rng.choice((32, 64, rng.randrange(65))), 'rand')

    def model(m):
        k = bytes(key) + bytes(64 - len(key))
        inner = scale.cheap(bytes(x ^ 0x36 for x in k) + m)[:bits // 8]
        return scale.cheap(bytes(x ^ 0x5c for x in k) + inner)[:bits // 8]
    with scale.Hash():
        ok = True
        for m in (b'', b'abc', bytes(70)):
            out = mon.attempt('hmac over a stand-in', lambda m=m: gosthmac.new(name, key, data=m).digest())
            ok = ok and out.returned and bytes(out.value) == model(m)
        if ok:
            obj = mon.must('gosthmac.new', gosthmac.new, name, key)
            hashed(obj, model, how, mon, rng, n, name)
            return
    mon.count('stand-in does not apply')
    real = streebog.Hmac(bits, key)
    hashed(mon.must('gosthmac.new', gosthmac.new, name, key), real.mac, how, mon, rng, min(n, 1040), name)


def past(mon, label, kind, obj, rng, n, first=()):
    """n valid calls on an object of the given kind; results are not looked at."""
    seed = rng.getrandbits(32)
    for start in range(0, n, 64):
        how = mon.must('%s: valid calls %d to %d on one object' % (label, start, min(n, start + 64)),
                       calls, kind, obj, type(rng)(seed), min(64, n - start), first)
    return how


def calls(kind, obj, rng, n, first):
    if kind in ('hash', 'hmac'):
        how = rng.choice(('update', 'reset', 'digest', 'copy'))
        for _ in range(n):
            if how == 'update':
                obj.update(b'ab')
            elif how == 'reset':
                obj.update(b'c')
                obj.reset()
            elif how == 'digest':
                obj.digest()
            else:
                obj.copy()
    elif kind == 'random':
        how = rng.choice(('random', 'random', 'reset'))
        seed = gen(rng, 32, 'rand')
        for _ in range(n):
            obj.random() if how == 'random' else obj.reset(seed)
    elif kind == 'pbkdf':
        how = rng.choice(('derive', 'hexderive'))
        for _ in range(n):
            getattr(obj, how)(8)
    elif kind == 'mac':
        how = rng.choice(('update', 'digest', 'hexdigest'))
        for _ in range(n):
            if how == 'update':
                obj.update(b'a' * 16)
            else:
                getattr(obj, how)(4)
    elif kind in ('cipher', 'direct'):
        how = rng.choice(('encrypt', 'decrypt'))
        size = obj.block_size
        for _ in range(n):
            getattr(obj, how)(bytes(size))
    elif kind == 'signature':
        size = first
        small = [v.to_bytes(size, 'big') for v in range(3, 9)]
        how = rng.choice(('sign', 'public'))
        for i in range(n):
            if how == 'sign':
                try:
                    obj.sign(small[i % 5], b'\1' * size, small[i % 6])
                except gostsignature.GOSTSignatureError:
                    pass                          # the number is not usable with this set
            else:
                obj.public_key_generate(small[i % 6])
    return how


def fresh(kind, rng):
    """An object of every class for a long past: (label, object, octets of a number for signatures)."""
    key = rng.randbytes(32)
    if kind == 'hash':
        name = rng.choice(('streebog256', 'streebog512'))
        return name, gosthash.new(name), ()
    if kind == 'hmac':
        name = rng.choice(('HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512'))
        return name, gosthmac.new(name, key), ()
    if kind == 'random':
        return 'random', gostrandom.new(rng.choice((16, 64)), rand_k=key, size_s=32), ()
    if kind == 'pbkdf':
        return 'pbkdf', gostpbkdf.new(key, salt=b'salt', counter=1), ()
    alg = rng.choice(('magma', 'kuznechik'))
    if kind == 'mac':
        return alg + ' mac', gostcipher.new(alg, key, MODES['mac']), ()
    if kind == 'cipher':
        mode = rng.choice([m for m in MODES if m != 'mac'])
        return '%s %s' % (alg, mode), gostcipher.new(alg, key, MODES[mode]), ()
    if kind == 'direct':
        cls = {'magma': gostcipher.GOST34122015Magma, 'kuznechik': gostcipher.GOST34122015Kuznechik}[alg]
        return alg, cls(bytearray(key)), ()
    from . import sig
    name = rng.choice(sig.C256)
    return name, gostsignature.new(gostsignature.MODE_256, sig.SUPPLIED[name]), 32

