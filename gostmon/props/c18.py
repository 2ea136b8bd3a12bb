"""C18: invalid arguments are rejected with the documented exception, valid ones are not."""

import array

from . import age, sig
from .common import (ALGS, BS, HINTS, MODES, gen, rng_of, typed, gostcipher, gosthash, gosthmac, gostpbkdf, gostrandom,
                     gostsignature)

FILES = ('gostcipher/gost_34_13_2015.py', 'gosthash/gost_34_11_2012.py', 'gosthmac/r_50_1_113_2016.py',
         'gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py', 'gostsignature/gost_34_10_2012.py')
RULE = ('case = one call site of the public API x one argument x one invalid value: every wrong type (None, text, list, tuple, '
        'memoryview, array, range, int, float, bool, set, dict, object, class; of the right length where it has one), every '
        'wrong length around the documented one, every wrong enumeration value or name, values out of range; the other '
        'arguments valid and random, the object fresh, used, or with some hundred valid calls behind it. Oracle: the exception class of the module and the documented '
        'message. Control cases: boundary valid arguments as bytes and bytearray must be accepted. Distinct = (call, argument, '
        'invalid value class, object state); non-trivial = the outcome was compared.')
ASSUMES = ('for sizes given as integers (mac_size, dk_len, rand_size, size_s, counter) only values, not types, are documented',
           'an empty memoryview equals the default empty argument and is not exercised')
REACH = {'rejected': 1800, 'accepted': 400}

TYPES = {
    'None': lambda n, r: None, 'str': lambda n, r: 'a' * n, 'cyr': lambda n, r: 'ы' * n, 'empty str': lambda n, r: '',
    'list': lambda n, r: [0] * n, 'list1': lambda n, r: [r.randrange(256) for _ in range(n)], 'empty list': lambda n, r: [],
    'tuple': lambda n, r: (1,) * n, 'empty tuple': lambda n, r: (), 'memoryview': lambda n, r: memoryview(r.randbytes(n or 1)),
    'array': lambda n, r: array.array('B', r.randbytes(n)), 'range': lambda n, r: range(n), 'int': lambda n, r: r.randrange(1, 1 << 30),
    'zero': lambda n, r: 0, 'bigint': lambda n, r: 1 << 8 * n, 'float': lambda n, r: 1.5, 'True': lambda n, r: True,
    'False': lambda n, r: False, 'set': lambda n, r: set(range(n)), 'dict': lambda n, r: {i: 0 for i in range(n)},
    'object': lambda n, r: object(), 'class': lambda n, r: bytes, 'generator': lambda n, r: (0 for _ in range(n)),
}


def wrong_lengths(good, top=130):
    """Lengths not in `good` (a predicate), concentrated around the accepted ones."""
    return [n for n in range(top) if not good(n)] + far(good, top)


def far(good, top=130):
    """Lengths far away: accepted ones plus 128, powers of two and literals of the code, or times small factors."""
    near = [n for n in range(top) if good(n)]
    near = sorted({*near[:2], *near[-2:]})
    steps = {128, 255, 256, 257, 512, 1024, 4096, 65535, 65536, 65537} | {h for h in HINTS if h < 1 << 20}
    return sorted(n for n in {b + s for b in near for s in steps} | {b * s for b in near for s in (4, 8, 16, 256)} if n >= top and not good(n))


class Site:
    """One argument of one call: build(rng, value) returns (op, fn, args, kw)."""

    def __init__(self, key, err, text, size, build, lengths=None, types=True, values=(), good=()):
        self.key, self.err, self.text, self.size, self.build = key, err, text, size, build
        self.lengths, self.types, self.values, self.good = lengths, types, values, good


def cipher_kw(rng, alg, mode):
    kw = {}
    bs = BS[alg]
    if mode in ('cbc', 'cfb', 'ofb') and rng.random() < .7:
        kw['init_vect'] = typed(rng.randbytes(bs * rng.choice((1, 2, 3))), rng)
    if mode == 'ctr' and rng.random() < .7:
        kw['init_vect'] = typed(rng.randbytes(bs // 2), rng)
    if mode in ('ecb', 'cbc') and rng.random() < .5:
        kw['pad_mode'] = rng.choice((gostcipher.PAD_MODE_1, gostcipher.PAD_MODE_2))
    if mode == 'mac' and rng.random() < .5:
        kw['data'] = typed(rng.randbytes(rng.randrange(40)), rng)
    return kw


def cipher_obj(rng, alg, mode, used=True):
    key = typed(gen(rng, 32), rng)
    obj = gostcipher.new(alg, key, MODES[mode], **cipher_kw(rng, alg, mode))
    if used and rng.random() < .5:
        data = rng.randbytes(BS[alg] * rng.randrange(3))
        if mode == 'mac':
            obj.update(data)
            if rng.random() < .5:
                obj.digest(BS[alg])
        elif rng.random() < .5:
            obj.encrypt(data)
        else:
            obj.decrypt(data)
    return obj


BADNAMES = ('', 'x', 'Kuznechik', 'MAGMA', 'magma ', ' kuznechik', 'kuznyechik', 'magm', None, 0, 1, b'magma', b'kuznechik',
            ('magma',), 1.5, 'streebog256 ', 'Streebog512', 'streebog', 'HMAC_GOSTR3411_2012_25', 'hmac_gostr3411_2012_256')


def sites():
    res = []
    add = res.append
    E = gostcipher.GOSTCipherError
    for alg in ALGS:
        bs = BS[alg]
        for mode in MODES:
            def new_key(rng, v, alg=alg, mode=mode):
                return 'gostcipher.new(%s,%s) key' % (alg, mode), gostcipher.new, (alg, v, MODES[mode]), cipher_kw(rng, alg, mode)
            add(Site('cipher.new key %s %s' % (alg, mode), E, 'invalid key value', 32, new_key,
                     lengths=wrong_lengths(lambda n: n == 32, 70), good=(32,)))
            if mode in ('cbc', 'cfb', 'ofb', 'ctr'):
                def new_iv(rng, v, alg=alg, mode=mode):
                    kw = cipher_kw(rng, alg, mode)
                    kw['init_vect'] = v
                    return 'gostcipher.new(%s,%s) init_vect' % (alg, mode), gostcipher.new, (alg, typed(rng.randbytes(32), rng), MODES[mode]), kw
                if mode == 'ctr':
                    ok, good = (lambda n, bs=bs: n == bs // 2), (bs // 2,)
                else:
                    ok, good = (lambda n, bs=bs: n and n % bs == 0), (bs, 2 * bs, 3 * bs, 8 * bs)
                add(Site('cipher.new init_vect %s %s' % (alg, mode), E, 'invalid initialization vector value', good[0], new_iv,
                         lengths=wrong_lengths(ok, 50), good=good))
            if mode in ('ecb', 'cbc'):
                def new_pad(rng, v, alg=alg, mode=mode):
                    kw = cipher_kw(rng, alg, mode)
                    kw['pad_mode'] = v
                    return 'gostcipher.new(%s,%s) pad_mode' % (alg, mode), gostcipher.new, (alg, typed(rng.randbytes(32), rng), MODES[mode]), kw
                pads = (gostcipher.PAD_MODE_1, gostcipher.PAD_MODE_2)
                add(Site('cipher.new pad_mode %s %s' % (alg, mode), E, 'invalid padding mode', 1, new_pad, types=False,
                         values=[v for v in list(range(-2, 40)) + [255, 256, None, '1', b'\x01', 'PAD_MODE_1', (), 10 ** 30]
                                 if v not in pads]))
            if mode == 'mac':
                def new_data(rng, v, alg=alg, mode=mode):
                    return 'gostcipher.new(%s,mac) data' % alg, gostcipher.new, (alg, typed(rng.randbytes(32), rng), MODES[mode]), dict(data=v)
                add(Site('cipher.new data %s' % alg, E, 'invalid text data', bs, new_data, good=(0, 1, bs - 1, bs, bs + 1)))

                def upd(rng, v, alg=alg):
                    return 'mac.update(%s)' % alg, cipher_obj(rng, alg, 'mac').update, (v,), {}
                add(Site('mac.update %s' % alg, E, 'invalid text data', bs, upd, good=(0, 1, bs, 3 * bs)))
                for meth in ('digest', 'hexdigest'):
                    def dig(rng, v, alg=alg, meth=meth):
                        return 'mac.%s(%s)' % (meth, alg), getattr(cipher_obj(rng, alg, 'mac'), meth), (v,), {}
                    add(Site('mac.%s %s' % (meth, alg), E, 'invalid message authentication code size', bs, dig, types=False,
                             values=[-1, -2, -bs, -bs - 1, bs + 1, bs + 2, 2 * bs, 17, 64, 1 << 64, -(1 << 64)],
                             good=tuple(('raw', n) for n in range(1, bs + 1))))
            else:
                for meth, text in (('encrypt', 'invalid plaintext data'), ('decrypt', 'invalid ciphertext data')):
                    def crypt(rng, v, alg=alg, mode=mode, meth=meth):
                        return 'cipher.%s(%s,%s)' % (meth, alg, mode), getattr(cipher_obj(rng, alg, mode), meth), (v,), {}
                    add(Site('cipher.%s %s %s' % (meth, alg, mode), E, text, bs, crypt, good=(0, bs, 2 * bs)))

    def new_mode(rng, v):
        return 'gostcipher.new mode', gostcipher.new, (rng.choice(ALGS), typed(rng.randbytes(32), rng), v), {}
    good = set(MODES.values())
    add(Site('cipher.new mode', E, 'unsupported cipher mode', 1, new_mode, types=False,
             values=[v for v in list(range(-3, 70)) + [None, 'ecb', 'MODE_ECB', b'', 1 << 70, 2.5, (1,)] if v not in good]))
    for mode in MODES:
        def new_alg(rng, v, mode=mode):
            return 'gostcipher.new(%s) algorithm' % mode, gostcipher.new, (v, typed(rng.randbytes(32), rng), MODES[mode]), {}
        add(Site('cipher.new algorithm %s' % mode, E, 'unsupported cipher algorithm', 1, new_alg, types=False, values=BADNAMES))

    E = gosthash.GOSTHashError
    add(Site('hash.new name', E, 'unsupported hash type', 1,
             lambda rng, v: ('gosthash.new name', gosthash.new, (v,), rng.choice(({}, dict(data=b'abc')))), types=False, values=BADNAMES))
    for bits in (256, 512):
        add(Site('hash.new data %d' % bits, E, 'invalid data value', 64,
                 lambda rng, v, bits=bits: ('gosthash.new data', gosthash.new, ('streebog%d' % bits,), dict(data=v)), good=(0, 1, 63, 64, 65)))

        def hupd(rng, v, bits=bits):
            o = gosthash.new('streebog%d' % bits, data=typed(rng.randbytes(rng.choice((0, 1, 63, 64))), rng))
            return 'hash.update', o.update, (v,), {}
        add(Site('hash.update %d' % bits, E, 'invalid data value', 64, hupd, good=(0, 1, 64, 200)))

    E = gosthmac.GOSTHMACError
    for bits in (256, 512):
        nm = 'HMAC_GOSTR3411_2012_%d' % bits
        add(Site('hmac.new key %d' % bits, E, 'invalid key value', 32,
                 lambda rng, v, nm=nm: ('gosthmac.new key', gosthmac.new, (nm, v), rng.choice(({}, dict(data=b'abc')))),
                 lengths=list(range(65, 80)) + [96, 127, 128, 129, 1000] + far(lambda n: n < 65), good=tuple(range(0, 65))))
        add(Site('hmac.new data %d' % bits, E, 'invalid data value', 32,
                 lambda rng, v, nm=nm: ('gosthmac.new data', gosthmac.new, (nm, typed(rng.randbytes(rng.randrange(65)), rng)), dict(data=v)),
                 good=(0, 1, 64)))

        def mupd(rng, v, nm=nm):
            o = gosthmac.new(nm, rng.randbytes(rng.randrange(65)))
            if rng.random() < .5:
                o.update(rng.randbytes(rng.randrange(70)))
            return 'hmac.update', o.update, (v,), {}
        add(Site('hmac.update %d' % bits, E, 'invalid data value', 32, mupd, good=(0, 1, 64)))
    add(Site('hmac.new name', E, 'unsupported mode', 1,
             lambda rng, v: ('gosthmac.new name', gosthmac.new, (v, rng.randbytes(32)), {}), types=False, values=BADNAMES + ('streebog256', 'streebog512')))

    E = gostpbkdf.GOSTPBKDFError
    add(Site('pbkdf.new password', E, 'invalid password value', 32,
             lambda rng, v: ('gostpbkdf.new password', gostpbkdf.new, (v,), rng.choice(({}, dict(salt=b'salt'), dict(salt=b's', counter=2)))),
             lengths=[65, 66, 67, 70, 96, 127, 128, 129, 500] + far(lambda n: n < 65), good=tuple(range(0, 65))))
    add(Site('pbkdf.new salt', E, 'invalid salt value', 32,
             lambda rng, v: ('gostpbkdf.new salt', gostpbkdf.new, (typed(rng.randbytes(rng.randrange(1, 65)), rng),), dict(salt=v)),
             good=(0, 1, 8, 32, 63, 64, 65, 200)))
    for meth in ('derive', 'hexderive'):
        def der(rng, v, meth=meth):
            o = gostpbkdf.new(rng.randbytes(8), salt=b'salt', counter=1)
            return 'pbkdf.' + meth, getattr(o, meth), (v,), {}
        top = (2 ** 32 - 1) * 64
        add(Site('pbkdf.%s' % meth, E, 'invalid size of the derived key', 1, der, types=False,
                 values=[top + 1, top + 2, top + 63, top + 64, top + 65, 2 * top, 1 << 38, 1 << 64, 1 << 200],
                 good=(('raw', 0), ('raw', 1), ('raw', 64), ('raw', 65))))

    E = gostrandom.GOSTRandomError
    for ss in (48, 40, 32, 16):
        kw = {} if ss == 48 else dict(size_s=ss)
        add(Site('random.new rand_k %d' % ss, E, 'invalid seed value', ss,
                 lambda rng, v, kw=kw: ('gostrandom.new rand_k', gostrandom.new, (rng.choice((1, 16, 64)),), dict(rand_k=v, **kw)),
                 lengths=[n for n in range(1, 70) if n != ss] + far(lambda n: n == ss, 70), good=(ss, 0)))

        def rst(rng, v, ss=ss, kw=kw):
            o = gostrandom.new(16, rand_k=b'\x01' * ss, **kw)
            if rng.random() < .5:
                o.random()
            return 'random.reset', o.reset, (v,), {}
        add(Site('random.reset %d' % ss, E, 'invalid seed value', ss, rst, lengths=[n for n in range(1, 70) if n != ss] + far(lambda n: n == ss, 70), good=(ss, 0)))

    E = gostsignature.GOSTSignatureError
    modes = (gostsignature.MODE_256, gostsignature.MODE_512)
    add(Site('signature.new mode', E, 'unsupported signature mode', 1,
             lambda rng, v: ('gostsignature.new mode', gostsignature.new, (v, sig.SUPPLIED[rng.choice(sig.NAMES)]), {}), types=False,
             values=[v for v in list(range(-3, 20)) + [256, 512, None, '256', 'MODE_256', b'\x01', 1.5, (1,)] if v not in modes]))
    for name in (sig.C256[0], sig.C256[3], sig.C512[0], sig.C512[2]):
        c = sig.ec.CURVES[name]
        n = c.size

        def obj(name=name, c=c):
            if name not in _OBJ:
                _OBJ[name] = gostsignature.new(sig.mode_of(c), sig.SUPPLIED[name])
            return _OBJ[name]

        def key(rng, c=c):
            return typed(sig.enc(sig.scalar(rng, c)[1], c), rng)

        def number(rng, c=c):
            # (some small numbers are unusable with some sets: the base point of one has abscissa 0)
            return bytes(sig.enc(rng.randrange(1 << 128, c.q - (1 << 128)), c))
        lens = wrong_lengths(lambda k, n=n: k == n, 2 * n + 4)
        lens2 = wrong_lengths(lambda k, n=n: k == 2 * n, 2 * n + 9)
        zeros = [bytes(n)] + [sig.enc(c.q * i, c) for i in (1, 2, 3) if c.q * i < 1 << 8 * n]
        zeros += [bytearray(z) for z in zeros]
        add(Site('sign key ' + name, E, 'invalid private key value', n,
                 lambda rng, v, obj=obj, number=number, n=n: ('sign private_key', obj().sign, (v, rng.randbytes(n)), rng.choice(({}, dict(rand_k=number(rng))))),
                 lengths=lens, values=zeros, good=(('int', 1), ('int', c.q - 1))))
        add(Site('sign digest ' + name, E, 'invalid digest value', n,
                 lambda rng, v, obj=obj, key=key, number=number: ('sign digest', obj().sign, (key(rng), v), rng.choice(({}, dict(rand_k=number(rng))))), lengths=lens,
                 good=(n,)))
        add(Site('sign rand_k ' + name, E, 'invalid random value', n,
                 lambda rng, v, obj=obj, key=key, n=n: ('sign rand_k', obj().sign, (key(rng), rng.randbytes(n), v), {}),
                 good=(('int', 1), ('int', c.q - 1))))
        add(Site('public_key_generate ' + name, E, 'invalid private key', n,
                 lambda rng, v, obj=obj: ('public_key_generate', obj().public_key_generate, (v,), {}), lengths=lens, values=zeros,
                 good=(('int', 1), ('int', c.q - 1))))
        good_pub = c.encode(c.public(7))
        add(Site('verify key ' + name, E, 'invalid public key value', 2 * n,
                 lambda rng, v, obj=obj, n=n: ('verify public_key', obj().verify, (v, rng.randbytes(n), rng.randbytes(2 * n)), {}),
                 lengths=lens2, good=(('bytes', good_pub),)))
        add(Site('verify signature ' + name, E, 'invalid signature value', 2 * n,
                 lambda rng, v, obj=obj, n=n, p=good_pub: ('verify signature', obj().verify, (typed(p, rng), rng.randbytes(n), v), {}),
                 lengths=lens2, good=(2 * n,)))
        add(Site('verify digest ' + name, E, 'invalid digest value', n,
                 lambda rng, v, obj=obj, n=n, p=good_pub: ('verify digest', obj().verify, (typed(p, rng), v, rng.randbytes(2 * n)), {}),
                 lengths=lens, good=(n,)))
    return res


_OBJ = {}
SITES = None


def table():
    global SITES
    if SITES is None:
        SITES = sites()
    return SITES


def cases(tier, rng):
    res = []
    for i, s in enumerate(table()):
        lens = list(s.lengths or [])
        if tier == 'quick' and len(lens) > 16:
            near = sorted(lens, key=lambda n: min(abs(n - s.size), n + 1))[:9]
            lens = near + rng.sample([x for x in lens if x not in near], 7)
        todo = [('type', t) for t in TYPES] if s.types else []
        if tier == 'quick' and s.types:
            keep = ('None', 'str', 'list', 'empty str', 'memoryview')
            todo = [('type', t) for t in keep] + [('type', t) for t in rng.sample([t for t in TYPES if t not in keep], 7)]
        todo += [('len', n) for n in lens] + [('value', k) for k in range(len(s.values))]
        goods = list(range(len(s.good)))
        if tier == 'quick' and len(goods) > 8:
            goods = goods[:2] + goods[-2:] + rng.sample(goods[2:-2], 4)
        todo += [('good', k) for k in goods]
        for rep in range(1 if tier == 'quick' else 6):
            for what, v in todo:
                res.append(dict(s=rng.getrandbits(48), site=s.key, what=what, v=v))
    for kind in ('hash', 'hmac', 'random', 'random', 'random', 'mac', 'cipher', 'pbkdf', 'signature'):
        for n in (20, 130, 260, 520, 1030) + ((2050, 4100) if tier == 'thorough' else ()):
            if n < 300 or kind != 'signature' or tier == 'thorough':
                res.append(dict(s=rng.getrandbits(48), site='', what='veteran', v=kind, n=n, w=1))
    return res


def veteran(case, mon, rng):
    """An object that has served hundreds of valid calls rejects and accepts the same arguments as a new one."""
    kind = case['v']
    label, obj, extra = age.fresh(kind, rng)
    n = age.number(rng, case['n']) // (4 if kind in ('hash', 'signature') and case['n'] > 300 else 1)
    how = age.past(mon, label, kind, obj, rng, n, extra)
    err, methods = {
        'hash': (gosthash.GOSTHashError, {'update': ('invalid data value', None)}),
        'hmac': (gosthmac.GOSTHMACError, {'update': ('invalid data value', None)}),
        'random': (gostrandom.GOSTRandomError, {'reset': ('invalid seed value', 32)}),
        'mac': (gostcipher.GOSTCipherError, {'update': ('invalid text data', None), 'digest': ('invalid message authentication code size', -1)}),
        'cipher': (gostcipher.GOSTCipherError, {'encrypt': ('invalid plaintext data', None), 'decrypt': ('invalid ciphertext data', None)}),
        'pbkdf': (gostpbkdf.GOSTPBKDFError, {'derive': ('invalid size of the derived key', -2), 'hexderive': ('invalid size of the derived key', -2)}),
        'signature': (gostsignature.GOSTSignatureError, {'public_key_generate': ('invalid private key', 32), 'sign': ('invalid private key value', 32)}),
    }[kind]
    for _ in range(1 if kind in ('mac', 'cipher') else 12):
        method = rng.choice(list(methods))
        text, size = methods[method]
        if size == -1:
            what, value = 'size', rng.choice((0x11, 64, -1, 1 << 40))
        elif size == -2:
            what, value = 'size', (2 ** 32 - 1) * 64 + rng.choice((1, 2, 64, 1 << 40))
        elif size and rng.random() < .6:
            what, m = 'length', rng.choice((size - 1, size + 1, 1, size // 2, size * 2, rng.randrange(1, 100)))
            value = bytes(gen(rng, m if m != size else 1, 'rand'))
        else:
            what = rng.choice(('None', 'str', 'list', 'tuple', 'int', 'empty str'))
            value = TYPES[what](size or 16, rng)
        args = (value, b'\1' * 32) if method == 'sign' else (value,)
        out = mon.attempt('%s.%s' % (label, method), getattr(obj, method), *args)
        mon.expect(out.kind == 'exc' and isinstance(out.exc, err) and text in str(out.exc),
                   '%s.%s (%s) after %d calls of %s on the object: expected %s "%s"' % (label, method, what, n, how, err.__name__, text), out.text())
        mon.count('rejected')
        mon.state('veteran', kind, method, what, n.bit_length(), how)


def run(case, mon):
    mon.budget = 20
    rng = rng_of(case)
    if case['what'] == 'veteran':
        return veteran(case, mon, rng)
    s = next(x for x in table() if x.key == case['site'])
    what, v = case['what'], case['v']
    good = what == 'good'
    for kind in (bytes, bytearray) if what in ('len', 'good') else (None,):
        if what == 'type':
            value = TYPES[v](s.size, rng)
        elif what == 'len':
            value = kind(gen(rng, v))
        elif what == 'value':
            value = s.values[v]
        else:
            g = s.good[v]
            if isinstance(g, int):
                value = kind(gen(rng, g, 'rand'))
            elif g[0] == 'raw':
                value = g[1]
            elif g[0] == 'int':
                value = kind(g[1].to_bytes(s.size, 'big'))
            else:
                value = kind(g[1])
        built = mon.call('prepare ' + s.key, s.build, rng, value)
        mon.expect(built.returned, s.key + ': a valid preparatory call failed', built.text())
        op, fn, args, kw = built.value
        out = mon.attempt(op, fn, *args, **kw)
        label = '%s = %s %r' % (op, what, v if what != 'value' else value)
        if good:
            if out.kind == 'exc' and s.key.startswith('sign rand_k') and isinstance(out.exc, s.err):
                continue      # r or s happened to be zero: C14
            mon.expect(out.returned, label + ' (%s): a valid argument was rejected' % (kind and kind.__name__), out.text())
            mon.count('accepted')
        else:
            mon.expect(out.kind == 'exc' and isinstance(out.exc, s.err) and s.text in str(out.exc),
                       label + ': expected %s "%s"' % (s.err.__name__, s.text), out.text())
            mon.count('rejected')
        mon.state('arg', s.key, what, v if what != 'value' else case['v'])
