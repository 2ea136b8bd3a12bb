"""Independent users of the library, as generators of (label, observed, expected) steps.

Each actor owns its objects and predicts every result with the reference models, so that several
actors can be interleaved, or run in threads, in any way."""

from gostmon.ref import ciphers, streebog, oid as oidref
from . import sig
from .common import (ALGS, BS, MODES, PADS, gen, typed, gostcipher, gosthash, gosthmac, gostoid, gostpbkdf, gostrandom, gostsignature)

ANY = object()
MODES_IV = ('cbc', 'cfb', 'ofb', 'ctr')


# The default initialization vectors (pinned from the source; the documentation does not list them).
LONG = {'kuznechik': bytes.fromhex('1234567890abcef0a1b2c3d4e5f001122334455667788990' '1213141516171819'),
        'magma': bytes.fromhex('1234567890abcdef234567890abcdef1')}
DEFAULT_IV = {(alg, mode): LONG[alg] for alg in ALGS for mode in ('cbc', 'cfb', 'ofb')}
DEFAULT_IV['magma', 'cbc'] = LONG['magma'] + bytes.fromhex('34567890abcdef12')
DEFAULT_IV['kuznechik', 'ctr'] = LONG['kuznechik'][:8]
DEFAULT_IV['magma', 'ctr'] = LONG['magma'][:4]


class Rejected:
    """Expected outcome: this exception class."""

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return 'raises ' + self.cls.__name__


def rejected(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except Exception as exc:
        return exc


def cipher(rng, shared):
    alg = rng.choice(ALGS)
    mode = rng.choice(('ecb', 'cbc', 'cfb', 'ofb', 'ctr'))
    key = rng.choice(shared['keys']) if rng.random() < .6 else typed(gen(rng, 32), rng)
    bs, kw, iv = BS[alg], {}, b''
    if mode in MODES_IV:
        if rng.random() < .5:
            iv = DEFAULT_IV[alg, mode]
        else:
            iv = rng.choice(shared['ivs'])[:bs // 2] if mode == 'ctr' else rng.choice(shared['ivs'])[:bs * rng.choice((1, 2))]
            kw['init_vect'] = iv
    pad = 1
    if mode in ('ecb', 'cbc') and rng.random() < .4:
        pad = rng.choice((1, 2))
        kw['pad_mode'] = PADS[pad]
    obj = gostcipher.new(alg, key, MODES[mode], **kw)
    model = ciphers.Mode(alg, bytes(key), mode, bytes(iv))
    dec = rng.random() < .4
    yield '%s %s new' % (alg, mode), obj.block_size, bs
    for _ in range(rng.randrange(2, 7)):
        data = gen(rng, bs * rng.choice((0, 1, 1, 2, 3)))
        if mode in ('ecb', 'cbc') and not data:     # padding of nothing is not C19's subject
            data = bytes(bs)
        if mode in ('ecb', 'cbc') and not dec and pad == 2:
            out = obj.encrypt(typed(data, rng))
            yield '%s %s encrypt (padding 2)' % (alg, mode), out, model.encrypt(ciphers.pad(data, bs, 2))
        elif dec:
            yield '%s %s decrypt' % (alg, mode), obj.decrypt(typed(data, rng)), model.decrypt(data)
        else:
            yield '%s %s encrypt' % (alg, mode), obj.encrypt(typed(data, rng)), model.encrypt(data)
    if mode == 'ctr':
        yield 'ctr counter', obj.counter, model.counter()
    if rng.random() < .4:
        obj.clear()
    yield 'cipher end', None, ANY


def mac(rng, shared):
    alg = rng.choice(ALGS)
    key = rng.choice(shared['keys'])
    data = gen(rng, rng.choice((0, 0, 5, 16, 20)))
    obj = gostcipher.new(alg, key, MODES['mac'], **(dict(data=data) if data else {}))
    yield alg + ' mac new', obj.block_size, BS[alg]
    for _ in range(rng.randrange(1, 6)):
        chunk = gen(rng, rng.randrange(40))
        obj.update(typed(chunk, rng))
        data += chunk
        yield alg + ' mac update', None, ANY
        if rng.random() < .5:
            n = rng.randrange(1, BS[alg] + 1)
            yield alg + ' mac', obj.digest(n), ciphers.mac(alg, bytes(key), data)[:n]
    yield alg + ' mac', obj.digest(BS[alg]), ciphers.mac(alg, bytes(key), data)
    if rng.random() < .3:
        obj.clear()
    yield 'mac end', None, ANY


def hash_(rng, shared):
    bits = rng.choice((256, 512))
    data = gen(rng, rng.choice((0, 0, 63, 64, 65)))
    obj = gosthash.new('streebog%d' % bits, **(dict(data=data) if data else {}))
    yield 'hash new', obj.digest_size, bits // 8
    for _ in range(rng.randrange(1, 6)):
        chunk = gen(rng, rng.choice((0, 1, 63, 64, 65, rng.randrange(130))))
        obj.update(typed(chunk, rng))
        data += chunk
        yield 'hash update', None, ANY
        x = rng.random()
        if x < .4:
            yield 'digest', obj.digest(), streebog.streebog(bits, data)
        elif x < .5:
            obj.reset()
            data = b''
            yield 'hash reset', None, ANY
        elif x < .6:
            obj = obj.copy()
            yield 'hash copy', None, ANY
    yield 'digest', obj.digest(), streebog.streebog(bits, data)


def hmac(rng, shared):
    bits = rng.choice((256, 512))
    key = rng.choice(shared['keys']) if rng.random() < .6 else gen(rng, rng.choice((0, 16, 63, 64)))
    ref = streebog.Hmac(bits, bytes(key))
    obj = gosthmac.new('HMAC_GOSTR3411_2012_%d' % bits, key)
    data = b''
    yield 'hmac new', obj.digest_size, bits // 8
    for _ in range(rng.randrange(1, 5)):
        chunk = gen(rng, rng.choice((0, 1, 64, rng.randrange(130))))
        obj.update(typed(chunk, rng))
        data += chunk
        yield 'hmac update', None, ANY
        x = rng.random()
        if x < .4:
            yield 'hmac', obj.digest(), ref.mac(data)
        elif x < .5:
            obj.reset()
            data = b''
            yield 'hmac reset', None, ANY
        elif x < .6:
            old, obj = obj, obj.copy()
            if rng.random() < .5:
                old.clear()
            yield 'hmac copy', None, ANY
    yield 'hmac', obj.digest(), ref.mac(data)
    if rng.random() < .4:
        obj.clear()
    yield 'hmac end', None, ANY


def prng(rng, shared):
    seed = bytes(rng.choice(shared['seeds']))
    size = rng.choice((1, 32, 64, 65, 100))
    obj = gostrandom.new(size, rand_k=seed)
    ref = streebog.Prng(size, seed)
    for _ in range(rng.randrange(2, 6)):
        yield 'random', obj.random(), ref.random()
        if rng.random() < .25:
            seed = bytes(rng.choice(shared['seeds']))
            obj.reset(seed)
            ref = streebog.Prng(size, seed)
            yield 'random reset', None, ANY
    if rng.random() < .4:
        obj.clear()
        yield 'random after clear', rejected(obj.random), Rejected(gostrandom.GOSTRandomError)


def pbkdf(rng, shared):
    password = rng.choice(shared['keys'])
    salt = gen(rng, 8)
    count = rng.randrange(1, 5)
    obj = gostpbkdf.new(password, salt=salt, counter=count)
    for _ in range(rng.randrange(1, 3)):
        n = rng.choice((16, 64, 65, 100))
        yield 'derive', obj.derive(n), streebog.pbkdf2(bytes(password), salt, count, n)
        yield 'salt', obj.salt, salt
    if rng.random() < .4:
        obj.clear()
    yield 'pbkdf end', None, ANY


def signature(rng, shared):
    name = rng.choice(sig.C256)
    c = sig.ec.CURVES[name]
    obj = gostsignature.new(sig.mode_of(c), sig.SUPPLIED[name])
    yield 'signature new', str(obj.oid), '1.2.643.7.1.1.1.1'
    d, k = sig.scalar(rng, c)[1], sig.scalar(rng, c)[1]
    digest = sig.digest_of(rng, c)[1]
    want = c.sign(d, digest, k)
    pub = c.encode(c.public(d))
    if rng.random() < .6:
        yield name + ' public key', obj.public_key_generate(sig.enc(d, c)), pub
    if want:
        yield name + ' sign', obj.sign(sig.enc(d, c), digest, sig.enc(k, c)), want
        if rng.random() < .6:
            bad = bytearray(want)
            bad[rng.randrange(64)] ^= rng.choice((0, 1 << rng.randrange(8)))
            yield name + ' verify', obj.verify(pub, digest, bad), c.verify(pub, digest, bytes(bad))


def oid(rng, shared):
    for _ in range(rng.randrange(2, 6)):
        arcs = (rng.choice((0, 1)), rng.randrange(40)) + tuple(rng.getrandbits(rng.randrange(1, 40)) for _ in range(rng.randrange(1, 9)))
        o = gostoid.ObjectIdentifier('.'.join(map(str, arcs)))
        yield 'oid digit', o.digit, arcs
        yield 'oid octet', o.octet, oidref.der(arcs)
    o = gostoid.ObjectIdentifier('1.2.643.7.1.1.2.3')
    yield 'oid name', o.name, 'id-tc26-gost3411-12-512'


def nuisance(rng, shared):
    """Rejected calls, short-lived objects, clearing, default arguments."""
    for _ in range(rng.randrange(3, 8)):
        x = rng.randrange(9)
        if x == 0:
            yield 'bad key', rejected(gostcipher.new, 'magma', b'short', MODES['ecb']), Rejected(gostcipher.GOSTCipherError)
        elif x == 1:
            alg = rng.choice(ALGS)
            o = gostcipher.new(alg, rng.choice(shared['keys']), MODES[rng.choice(('cbc', 'cfb', 'ofb', 'ctr'))])
            o.encrypt(gen(rng, BS[alg] * 2))
            o.clear()
            yield 'short-lived cipher', None, ANY
        elif x == 2:
            yield 'bad hash data', rejected(gosthash.new, 'streebog256', data='text'), Rejected(gosthash.GOSTHashError)
        elif x == 3:
            o = gosthmac.new('HMAC_GOSTR3411_2012_256', rng.choice(shared['keys']), data=b'abc')
            o.clear()
            yield 'short-lived hmac', None, ANY
        elif x == 4:
            o = gostpbkdf.new(rng.choice(shared['keys']), counter=1)
            out = o.derive(8)
            yield 'default salt', len(out), 8
        elif x == 5:
            o = gostrandom.new(8)
            o.reset()
            yield 'default seed', len(o.random()), 8
        elif x == 6:
            yield 'bad seed', rejected(gostrandom.new, 8, rand_k=b'12'), Rejected(gostrandom.GOSTRandomError)
        elif x == 7:
            name = rng.choice(sig.NAMES)
            c = sig.ec.CURVES[name]
            yield 'wrong mode', rejected(gostsignature.new, 3 - sig.mode_of(c), sig.SUPPLIED[name]), Rejected(gostsignature.GOSTSignatureError)
        else:
            o = gostcipher.new('kuznechik', rng.choice(shared['keys']), MODES['mac'])
            yield 'bad mac data', rejected(o.update, 'text'), Rejected(gostcipher.GOSTCipherError)


KINDS = dict(cipher=cipher, mac=mac, hash=hash_, hmac=hmac, prng=prng, pbkdf=pbkdf, signature=signature, oid=oid, nuisance=nuisance)


def shared_args(rng):
    """Buffers that several actors pass in."""
    return dict(keys=[typed(gen(rng, 32, rng.choice(('rand', 'rand', 'ff', 'count'))), rng) for _ in range(3)],
                ivs=[typed(rng.randbytes(32), rng) for _ in range(3)],
                seeds=[typed(b'\x01' + rng.randbytes(47), rng) for _ in range(3)])


def matches(got, want):
    if want is ANY:
        return True
    if isinstance(want, Rejected):
        return isinstance(got, want.cls)
    if isinstance(want, (bytes, bytearray)):
        return isinstance(got, (bytes, bytearray)) and bytes(got) == bytes(want)
    return type(got) is type(want) and got == want
