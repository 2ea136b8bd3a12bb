"""Histories of API calls as data, so that one history can be executed several times under different policies
(argument types, scribbled buffers, inserted rejected calls, different secrets, destroyed relatives)."""

from . import sig
from .common import (ALGS, BS, MODES, PADS, gen, size, iv_blocks, gostcipher, gosthash, gosthmac, gostoid, gostpbkdf, gostrandom,
                     gostsignature)

NEW = {'cipher': gostcipher.new, 'hash': gosthash.new, 'hmac': gosthmac.new, 'pbkdf': gostpbkdf.new,
       'random': gostrandom.new, 'oid': gostoid.ObjectIdentifier,
       'signature': lambda name, **kw: gostsignature.new(sig.mode_of(sig.ec.CURVES[name]), sig.SUPPLIED[name], **kw),
       'direct': lambda alg, key: {'magma': gostcipher.GOST34122015Magma,
                                   'kuznechik': gostcipher.GOST34122015Kuznechik}[alg](key)}

# One step: (kind, slot, name, args, kw);  kind in new | call | get | copy | del


def new(slot, what, *args, **kw):
    return 'new', slot, what, args, kw


def call(slot, method, *args, **kw):
    return 'call', slot, method, args, kw


def get(slot, attr):
    return 'get', slot, attr, (), {}


def norm(v):
    if isinstance(v, (bytes, bytearray)):
        return 'octets', bytes(v)
    if isinstance(v, gostoid.ObjectIdentifier):
        return 'oid', str(v), v.name, v.digit, bytes(v.octet)
    if isinstance(v, (str, int, bool, tuple, type(None))):
        return type(v).__name__, v
    return 'object', type(v).__name__


class Executor:
    """Runs steps; `convert` makes the argument objects, `after` sees (step, args, raw value) once the call ended."""

    def __init__(self, mon, label='', convert=None, after=None):
        self.mon, self.label, self.convert, self.after = mon, label, convert or (lambda b: b), after
        self.objects = {}
        self.raw = None

    def arg(self, v):
        return self.convert(v) if isinstance(v, (bytes, bytearray)) else v

    def do(self, step):
        kind, slot, name, args, kw = step
        if kind == 'del':
            self.objects.pop(slot, None)
            return ('ret', ('deleted',))
        if kind == 'get':
            def fn():
                return getattr(self.objects[slot], name)
            real, rkw = (), {}
        else:
            real = tuple(self.arg(a) for a in args)
            rkw = {k: self.arg(v) for k, v in kw.items()}
            if kind == 'new':
                fn = NEW[name]
            elif kind == 'copy':
                fn = self.objects[slot].copy
            else:
                fn = getattr(self.objects[slot], name)
        out = self.mon.attempt('%s%s.%s' % (self.label, slot, name), fn, *real, **rkw)
        if out.returned:
            self.raw = out.value
            if kind == 'new':
                self.objects[slot] = out.value
                res = ('ret', ('object', type(out.value).__name__))
            elif kind == 'copy':
                self.objects[name] = out.value
                res = ('ret', ('object', type(out.value).__name__))
            else:
                res = ('ret', norm(out.value))
        else:
            self.raw = None
            res = ('exc', type(out.exc).__name__, str(out.exc))
        if self.after:
            self.after(step, real + tuple(rkw.values()), None if kind in ('new', 'copy') else self.raw)
        return res

    def run(self, steps):
        return [self.do(s) for s in steps]


def text(step):
    kind, slot, name, args, kw = step
    return '%s %s.%s(%s)' % (kind, slot, name, ', '.join(
        [x.hex() if isinstance(x, (bytes, bytearray)) else repr(x) for x in args] +
        ['%s=%s' % (k, v.hex() if isinstance(v, (bytes, bytearray)) else v) for k, v in kw.items()]))[:300]


# -- histories of one object --------------------------------------------------------------------------------------

def cipher(rng, slot='o', key=None, alg=None, mode=None, steps=None, reveal=True):
    alg = alg or rng.choice(ALGS)
    mode = mode or rng.choice(('ecb', 'cbc', 'cfb', 'ofb', 'ctr'))
    bs, kw = BS[alg], {}
    if mode in ('cbc', 'cfb', 'ofb') and rng.random() < .7:
        kw['init_vect'] = rng.randbytes(bs * (iv_blocks(rng) if rng.random() < .1 else rng.choice((1, 1, 2, 3))))
    if mode == 'ctr' and rng.random() < .7:
        kw['init_vect'] = gen(rng, bs // 2, rng.choice(('rand', 'ff')))
    if mode in ('ecb', 'cbc') and rng.random() < .5:
        kw['pad_mode'] = PADS[rng.choice((1, 2))]
    out = [new(slot, 'cipher', alg, key if key is not None else gen(rng, 32, 'rand'), MODES[mode], **kw)]
    for _ in range(steps or rng.randrange(1, 6)):
        n = bs * rng.randrange(1, 4) if rng.random() < .93 else size(rng, bs, 300) // bs * bs or bs
        if mode in ('ecb', 'cbc', 'ctr') and rng.random() < .3:
            n += rng.randrange(1, bs)
        op = rng.choice(('encrypt', 'decrypt'))
        if op == 'decrypt' and mode != 'ctr':
            n -= n % bs
        out.append(call(slot, op, gen(rng, n)))
        if reveal and rng.random() < .3:
            out.append(get(slot, 'counter' if mode == 'ctr' else 'block_size' if mode == 'ecb' else 'iv'))
    return out


def mac(rng, slot='o', key=None, alg=None):
    alg = alg or rng.choice(ALGS)
    bs = BS[alg]
    kw = dict(data=gen(rng, rng.choice((1, bs, bs + 1, 3 * bs)))) if rng.random() < .5 else {}
    out = [new(slot, 'cipher', alg, key if key is not None else gen(rng, 32, 'rand'), MODES['mac'], **kw)]
    for _ in range(rng.randrange(1, 5)):
        out.append(call(slot, 'update', gen(rng, rng.choice((0, 1, bs - 1, bs, bs + 1, 2 * bs, rng.randrange(40))) if rng.random() < .95 else size(rng, bs, 150))))
        if rng.random() < .6:
            out.append(call(slot, rng.choice(('digest', 'hexdigest')), rng.randrange(1, bs + 1)))
    out.append(call(slot, 'digest', bs))
    return out


LENS = (0, 1, 31, 32, 63, 64, 65, 127, 128, 129)


def length(rng):
    return rng.choice(LENS + (rng.randrange(200),)) if rng.random() < .95 else size(rng, 64, 40)


def hash_(rng, slot='o'):
    kw = dict(data=gen(rng, rng.choice(LENS))) if rng.random() < .5 else {}
    out = [new(slot, 'hash', 'streebog%d' % rng.choice((256, 512)), **kw)]
    n = 0
    for _ in range(rng.randrange(1, 6)):
        out.append(call(slot, 'update', gen(rng, length(rng))))
        x = rng.random()
        if x < .4:
            out.append(call(slot, rng.choice(('digest', 'hexdigest'))))
        elif x < .5:
            out.append(call(slot, 'reset'))
        elif x < .6:
            n += 1
            out.append(('copy', slot, slot + str(n), (), {}))
            out.append(call(slot + str(n), 'update', gen(rng, rng.choice(LENS))))
            out.append(call(slot + str(n), 'digest'))
    out.append(call(slot, 'digest'))
    return out


def hmac(rng, slot='o', key=None, size=None):
    kw = dict(data=gen(rng, rng.choice(LENS))) if rng.random() < .5 else {}
    if key is None:
        key = gen(rng, size if size is not None else rng.choice((0, 1, 16, 32, 32, 48, 63, 64)), 'rand')
    out = [new(slot, 'hmac', 'HMAC_GOSTR3411_2012_%d' % rng.choice((256, 512)), key, **kw)]
    n = 0
    for _ in range(rng.randrange(1, 6)):
        out.append(call(slot, 'update', gen(rng, length(rng))))
        x = rng.random()
        if x < .4:
            out.append(call(slot, rng.choice(('digest', 'hexdigest'))))
        elif x < .5:
            out.append(call(slot, 'reset'))
        elif x < .6:
            n += 1
            out.append(('copy', slot, slot + str(n), (), {}))
            out.append(call(slot + str(n), 'update', gen(rng, rng.choice(LENS))))
            out.append(call(slot + str(n), 'digest'))
    out.append(call(slot, 'digest'))
    return out


def random_(rng, slot='o', seed=None, default=False):
    ss = len(seed) if seed else rng.choice((48, 40, 32))
    seed = seed or b'\1' + rng.randbytes(ss - 1)
    kw = dict(size_s=ss) if ss != 48 or rng.random() < .5 else {}
    if not default or rng.random() < .5:
        kw['rand_k'] = seed
    out = [new(slot, 'random', rng.choice((1, 32, 64, 65, 100, 128)) if rng.random() < .9 else size(rng, 64, 40) or 1, **kw)]
    for _ in range(rng.randrange(1, 6)):
        out.append(call(slot, 'random'))
        if rng.random() < .3:
            if default and rng.random() < .5:
                out.append(call(slot, 'reset'))
            else:
                out.append(call(slot, 'reset', b'\1' + rng.randbytes(ss - 1)))
    out.append(call(slot, 'random'))
    return out


def pbkdf(rng, slot='o', password=None, default=False):
    kw = {} if default and rng.random() < .5 else dict(salt=gen(rng, rng.choice((1, 8, 16, 32, 70)) if rng.random() < .9 else size(rng, 64, 6) or 1))
    if password is None:
        password = gen(rng, rng.choice((1, 8, 8, 16, 32, 63, 64)), 'rand')
    out = [new(slot, 'pbkdf', password, counter=rng.randrange(1, 4), **kw)]
    for _ in range(rng.randrange(1, 4)):
        out.append(call(slot, rng.choice(('derive', 'derive', 'hexderive')), rng.choice((1, 16, 64, 65, 100, 129)) if rng.random() < .95 else size(rng, 64, 12) or 1))
        if rng.random() < .4:
            out.append(get(slot, 'salt'))
    return out


def signature(rng, slot='o', name=None):
    name = name or rng.choice(sig.C256 * 3 + sig.C512)
    c = sig.ec.CURVES[name]
    out = [new(slot, 'signature', name)]
    d, k = sig.scalar(rng, c)[1], sig.scalar(rng, c)[1]
    h = sig.digest_of(rng, c)[1]
    sgn = c.sign(d, h, k)
    while not sgn:              # r or s would be zero
        k = sig.scalar(rng, c, 'rand')[1]
        sgn = c.sign(d, h, k)
    for _ in range(rng.randrange(1, 3)):
        x = rng.random()
        if x < .35:
            out.append(call(slot, 'public_key_generate', sig.enc(d, c)))
        elif x < .7:
            out.append(call(slot, 'sign', sig.enc(d, c), h, sig.enc(k, c)))
        else:
            bad = bytearray(sgn)
            bad[rng.randrange(len(bad))] ^= rng.choice((0, 0, 1, 128))
            out.append(call(slot, 'verify', c.encode(c.public(d)), h, bytes(bad)))
    return out


def oid(rng, slot='o'):
    arcs = (rng.choice((0, 1)), rng.randrange(40)) + tuple(rng.getrandbits(rng.randrange(1, 40)) for _ in range(rng.randrange(1, 9) if rng.random() < .9 else rng.randrange(9, 60)))
    return [new(slot, 'oid', '.'.join(map(str, arcs))), get(slot, 'digit'), get(slot, 'octet'), get(slot, 'name')]


def direct(rng, slot='o', key=None, alg=None):
    alg = alg or rng.choice(ALGS)
    bs = BS[alg]
    out = [new(slot, 'direct', alg, key if key is not None else gen(rng, 32, 'rand'))]
    for _ in range(rng.randrange(1, 5)):
        out.append(call(slot, rng.choice(('encrypt', 'decrypt')), gen(rng, bs)))
    return out


KINDS = dict(cipher=cipher, mac=mac, hash=hash_, hmac=hmac, random=random_, pbkdf=pbkdf, signature=signature, oid=oid,
             direct=direct)

ATTRIBUTES = dict(cipher=('block_size', 'oid'), mac=('block_size', 'oid'), direct=('block_size', 'key_size', 'oid'),
                  hash=('name', 'digest_size', 'block_size', 'oid'), hmac=('name', 'digest_size', 'block_size', 'oid'),
                  signature=('oid',), pbkdf=('salt',), random=(), oid=('name', 'digit', 'octet'))


def with_attributes(rng, kind, steps, share=1.0):
    """The history with reads of the public attributes of its objects inserted: at the end (all), or some anywhere."""
    out = list(steps)
    slots = []
    for step in steps:
        slot = step[2] if step[0] == 'copy' else step[1]
        if step[0] in ('new', 'copy') and slot not in slots:
            slots.append(slot)
    if share >= 1:
        return out + [get(slot, name) for slot in slots for name in ATTRIBUTES[kind]]
    for name in ATTRIBUTES[kind]:
        if rng.random() < share:
            out.insert(rng.randrange(1, len(out) + 1), get(slots[0], name))
    return out
