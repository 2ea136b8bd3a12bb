"""Shared workload vocabulary: byte generators, API access, small helpers."""

import random

from gostmon import target
from gostmon.ref import ciphers
from gostcrypto import gostcipher, gosthash, gosthmac, gostoid, gostpbkdf, gostrandom, gostsignature  # noqa: F401

ALGS = ('kuznechik', 'magma')
BS = {'kuznechik': 16, 'magma': 8}
MODES = {'ecb': gostcipher.MODE_ECB, 'cbc': gostcipher.MODE_CBC, 'cfb': gostcipher.MODE_CFB,
         'ofb': gostcipher.MODE_OFB, 'ctr': gostcipher.MODE_CTR, 'mac': gostcipher.MODE_MAC}
PADS = {1: gostcipher.PAD_MODE_1, 2: gostcipher.PAD_MODE_2}

HINTS, HINT_OCTETS = target.hints()        # literals that are new in the tree: where to look harder
HINTED = bool(HINTS or HINT_OCTETS)

KINDS = ('rand', 'rand', 'rand', 'zero', 'ff', 'same', 'bit', 'sparse', 'count', '80', 'nul_tail', 'text', 'rep')


def gen(rng, n, kind=None):
    """n bytes of a chosen shape (hostile shapes: carries, padding look-alikes, sparse bits)."""
    kind = kind or rng.choice(KINDS)
    if n == 0:
        return b''
    if HINTED and rng.random() < .2:
        return hinted(rng, n, kind)
    if kind == 'rand':
        b = bytearray(rng.randbytes(n))
        if n > 3 and rng.random() < .08:       # extreme octets at the ends
            for pos in rng.sample((0, -1, 1, -2), rng.randrange(1, 3)):
                b[pos] = rng.choice((0, 0, 1, 127, 128, 255))
            if rng.random() < .3:
                b[-1] = b[0]
        return bytes(b)
    if kind == 'zero':
        return bytes(n)
    if kind == 'ff':
        return b'\xff' * n
    if kind == 'same':
        return bytes([rng.randrange(256)]) * n
    if kind == 'bit':
        b = bytearray(n)
        b[rng.randrange(n)] = 1 << rng.randrange(8)
        return bytes(b)
    if kind == 'sparse':
        b = bytearray(n)
        for _ in range(rng.randrange(1, 5)):
            b[rng.randrange(n)] = rng.randrange(256)
        return bytes(b)
    if kind == 'count':
        s = rng.randrange(256)
        return bytes((s + i) & 255 for i in range(n))
    if kind == '80':
        return (rng.randbytes(n)[:-1] + b'\x80') if rng.random() < .5 else b'\x80' + bytes(n - 1)
    if kind == 'nul_tail':
        t = rng.randrange(n + 1)
        return rng.randbytes(n - t) + bytes(t)
    if kind == 'text':
        return bytes(rng.choice(b'abcdefghijklmnop qrstuvwxyz0123456789') for _ in range(n))
    if kind == 'rep':
        unit = rng.randbytes(rng.choice((1, 2, 4, 8, 16)))
        return (unit * (n // len(unit) + 1))[:n]
    raise ValueError(kind)


def hinted(rng, n, kind):
    """Octets carrying literals of the code under test, alone, at the ends or anywhere."""
    pool = [v & 255 for v in HINTS] + [v - 1 & 255 for v in HINTS] + [v + 1 & 255 for v in HINTS]
    strings = list(HINT_OCTETS) + [v.to_bytes((v.bit_length() + 7) // 8, 'big') for v in HINTS if v > 255]
    strings += [s[::-1] for s in strings]
    b = bytearray(rng.randbytes(n) if kind == 'rand' or rng.random() < .5 else bytes(n) if rng.random() < .7 else b'\xff' * n)
    if kind == 'rand' or not pool and not strings:
        # keep enough entropy to tell values apart
        spots = 1
    else:
        spots = rng.choice((1, 1, 2, 3, n))
    for _ in range(spots):
        i = rng.choice((0, 0, n - 1, n - 1, rng.randrange(n), n // 2))
        if strings and rng.random() < .5:
            s = rng.choice(strings)
            b[i:i + len(s)] = s
        elif pool:
            b[i] = rng.choice(pool)
    b = b[:n]
    if kind != 'zero' and not any(b):
        b[-1] = 1
    return bytes(b)


def near(rng, lo, hi):
    """An integer of lo..hi, with a preference for literals of the code, powers of two and small values."""
    x = rng.random()
    fit = [v for h in HINTS for v in (h - 1, h, h + 1, h + 2) if lo <= v <= hi] if HINTS else []
    if fit and x < .5:
        return rng.choice(fit)
    if x < .75:
        k = rng.randrange(0, max(1, (hi - lo).bit_length()) + 1)
        return min(hi, max(lo, (1 << k) + rng.choice((-1, 0, 1, 2))))
    return min(hi, lo + int((hi - lo + 1) ** rng.random()) - 1) if x < .95 else rng.randrange(lo, hi + 1)


def size(rng, unit, hi):
    """A length in octets up to `hi` units: around literals read as octets or as units, powers of two, a partial tail or none."""
    if HINTS and rng.random() < .2:
        fit = [v for h in HINTS for v in (h - 1, h, h + 1) if 0 <= v <= hi * unit]
        if fit:
            return rng.choice(fit)
    n = near(rng, 0, hi) * unit
    return max(0, min(hi * unit, n + rng.choice((0, 0, 0, 1, -1, rng.randrange(unit)))))


def iv_blocks(rng):
    """Length of an initialization vector in blocks."""
    x = rng.random()
    return rng.choice((1, 1, 2, 2, 3, 4, 5, 8)) if x < .8 else near(rng, 1, 40) if x < .97 else near(rng, 1, 300)


def cancelling(rng, alg, key, mode, iv, n, length):
    """A message whose blocks meet the register (CBC) or the gamma so that what results is structured (through the model)."""
    m, out = ciphers.Mode(alg, key, mode, iv), b''
    while len(out) < length:
        want = gen(rng, n, rng.choice(('zero', 'ff', 'same', 'bit', 'rand', '80')))
        if mode == 'cbc':
            block = ciphers.xor(m.reg.head(), want)
            m.encrypt(block)
        elif mode == 'ecb':
            block = want
        else:
            block = m.decrypt(want)
        out += block
    return out[:length]


def typed(data, rng):
    """The same octets as bytes or as a fresh bytearray."""
    return bytes(data) if rng.random() < .5 else bytearray(data)


def cut(rng, n, style=None):
    """A partition of n into chunk sizes (zero-length chunks included)."""
    style = style or rng.choice(('one', 'bytes', 'small', 'mid', 'mixed', 'zeros', 'halves', 'big'))
    sizes, left = [], n
    while left > 0:
        if style == 'one':
            s = left
        elif style == 'bytes':
            s = 1
        elif style == 'small':
            s = rng.randrange(1, 9)
        elif style == 'mid':
            s = rng.randrange(1, 40)
        elif style == 'mixed':
            s = rng.choice((1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 0))
        elif style == 'zeros':
            s = rng.choice((0, 0, 1, 8, 16, 64, 5))
        elif style == 'halves':
            s = max(1, left // 2)
        else:
            s = rng.randrange(1, max(2, n))
        s = min(s, left)
        sizes.append(s)
        left -= s
    if style in ('zeros', 'one') and rng.random() < .4:
        sizes.append(0)
    return sizes or [0] * rng.randrange(3)


def split(data, sizes):
    out, i = [], 0
    for s in sizes:
        out.append(data[i:i + s])
        i += s
    assert i == len(data), (sizes, len(data))
    return out


def rng_of(case):
    return random.Random(case['s'])


def bucket(n):
    return n if n < 4 else 1 << (n.bit_length() - 1)


def new_cipher(mon, alg, key, mode, **kw):
    return mon.must('gostcipher.new(%s,%s)' % (alg, mode), gostcipher.new, alg, key, MODES[mode], **kw)
