"""Shared by the signature monitors: curves, objects, constructed scalars."""

import functools

from gostmon.ref import ec
from .common import HINTS, gostsignature, gen

SUPPLIED = gostsignature.CURVES_R_1323565_1_024_2019
NAMES = tuple(sorted(ec.CURVES))
C256 = tuple(n for n in NAMES if ec.CURVES[n].size == 32)
C512 = tuple(n for n in NAMES if ec.CURVES[n].size == 64)
_objects = {}


def mode_of(curve):
    return gostsignature.MODE_256 if curve.size == 32 else gostsignature.MODE_512


def obj_of(mon, name, fresh=False):
    """A signature object on the supplied parameter set (one per process unless fresh)."""
    if fresh or name not in _objects:
        mon.expect(name in SUPPLIED, 'parameter set %s is not supplied' % name)
        obj = mon.must('gostsignature.new(%s)' % name, gostsignature.new, mode_of(ec.CURVES[name]), SUPPLIED[name])
        if fresh:
            return obj
        _objects[name] = obj
    return _objects[name]


@functools.lru_cache(None)
def multiples(name, n=1200):
    """(k, kG) for k = 1..n."""
    c = ec.CURVES[name]
    res, P = [], c.g
    for k in range(1, n + 1):
        res.append((k, P))
        P = c.add(P, c.g)
    return tuple(res)


@functools.lru_cache(None)
def short_x(name):
    c = ec.CURVES[name]
    return tuple(k for k, P in multiples(name) if (P[0] % c.q) >> 8 * (c.size - 1) == 0)


@functools.lru_cache(None)
def short_xy(name):
    c = ec.CURVES[name]
    return tuple(k for k, P in multiples(name) if P[0] >> 8 * (c.size - 1) == 0 or P[1] >> 8 * (c.size - 1) == 0)


def scalar(rng, c, kind=None):
    """(kind, value in 1..q-1)."""
    kind = kind or rng.choice(('rand', 'rand', 'rand', 'tiny', 'big', 'pow2', 'mersenne', 'half', 'short', 'sparse', 'block', 'lowzero'))
    q = c.q
    if HINTS and rng.random() < .2:
        h = rng.choice(HINTS)
        v = rng.choice((h, q - h, h - 1, h + 1, q - h - 1, rng.randrange(q) >> h % q.bit_length(), 1 << h % q.bit_length(),
                        rng.randrange(q) | (1 << h % q.bit_length()) - 1, rng.randrange(q) << h % q.bit_length(),
                        int.from_bytes(gen(rng, c.size), 'big')))
        return 'hint', v % q or 1
    if kind == 'tiny':
        v = rng.randrange(1, 20)
    elif kind == 'big':
        v = q - rng.randrange(1, 20)
    elif kind == 'pow2':
        v = 1 << rng.randrange(q.bit_length())
    elif kind == 'mersenne':
        v = (1 << rng.randrange(1, q.bit_length() + 1)) - rng.choice((1, 1, 2))
    elif kind == 'half':
        v = (q + rng.choice((-3, -1, 1, 3))) // 2
    elif kind == 'short':
        v = rng.randrange(1, 1 << 8 * rng.randrange(1, c.size))
    elif kind == 'lowzero':
        v = rng.randrange(1, q) << rng.choice((8, 4 * c.size, rng.randrange(1, 8 * c.size))) & (1 << q.bit_length()) - 1
    elif kind == 'block':      # a run of zeros or ones inside
        a, b = rng.randrange(q.bit_length()), rng.randrange(q.bit_length())
        run = (1 << max(a, b) - min(a, b)) - 1 << min(a, b)
        v = rng.randrange(q)
        v = v | run if rng.random() < .5 else v & ~run
    elif kind == 'sparse':
        v = int.from_bytes(gen(rng, c.size, 'sparse'), 'big')
    else:
        v = rng.randrange(1, q)
    v %= q
    return kind, v or 1


def relative(rng, v, q):
    """A scalar related to `v`: equal, sharing its low or high bits, negated, doubled, halved, neighbouring."""
    how = rng.choice(('same', 'low', 'low', 'high', 'high', 'neg', 'double', 'half', 'inc', 'inv', 'bit', 'swap', 'trunc', 'trunc', 'shift'))
    v = v % q or 1
    bits = q.bit_length()
    k = rng.choice((8, 16, 32, 64, 128, 192, rng.randrange(1, bits)))
    if how == 'low':
        v = rng.randrange(q) >> k << k | v & (1 << k) - 1
    elif how == 'high':
        k = bits - k if k < bits else 1
        v = v >> k << k | rng.getrandbits(k)
    elif how == 'trunc':
        v &= (1 << k) - 1
    elif how == 'shift':
        v >>= k
    elif how == 'neg':
        v = q - v
    elif how == 'double':
        v = 2 * v
    elif how == 'half':
        v = v * ((q + 1) // 2)
    elif how == 'inc':
        v += rng.choice((1, -1, 2, 256))
    elif how == 'inv':
        v = pow(v, -1, q)
    elif how == 'bit':
        v ^= 1 << rng.randrange(bits)
    elif how == 'swap':
        v = int.from_bytes(v.to_bytes((bits + 7) // 8, 'big')[::-1], 'big')
    return how, v % q or 1


def sqrt(v, p):
    """A square root of v modulo p, or None."""
    if v == 0:
        return 0
    if pow(v, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(v, (p + 1) // 4, p)
    s, t = p - 1, 0
    while s % 2 == 0:
        s, t = s // 2, t + 1
    z = next(z for z in range(2, 200) if pow(z, (p - 1) // 2, p) == p - 1)
    m, c, t_, r = t, pow(z, s, p), pow(v, s, p), pow(v, (s + 1) // 2, p)
    while t_ != 1:
        i, u = 0, t_
        while u != 1:
            u, i = u * u % p, i + 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t_, r = i, b * b % p, t_ * b * b % p, r * b % p
    return r


def point_at(c, x, rng=None):
    """A point of the subgroup of order q with abscissa x, or None."""
    if not 0 <= x < c.p:
        return None
    y = sqrt((x ** 3 + c.a * x + c.b) % c.p, c.p)
    if y is None or (c.m != c.q and c.mul(c.q, (x, y)) is not ec.INF) or (c.m == c.q and y == 0):
        return None
    return (x, c.p - y if y and rng and rng.random() < .5 else y)


def shaped_point(rng, c):
    """A point of the subgroup whose abscissa has a chosen shape."""
    for _ in range(60):
        x = rng.choice((0, 1, 2, c.p - 1, c.q, c.q + 1, c.q - 1, rng.randrange(200))) if rng.random() < .3 else scalar(rng, c)[1]
        P = point_at(c, x, rng)
        if P:
            return P
    return c.g


def enc(v, c):
    return v.to_bytes(c.size, 'big')


def digest_of(rng, c, kind=None):
    kind = kind or rng.choice(('rand', 'rand', 'zero', 'q', 'one', 'q-1', 'q+1', 'ff', 'sparse', '2q'))
    top = 1 << 8 * c.size
    v = {'zero': 0, 'q': c.q, 'one': 1, 'q-1': c.q - 1, 'q+1': c.q + 1, 'ff': top - 1, '2q': 2 * c.q}.get(kind)
    if v is None:
        return kind, gen(rng, c.size, kind)
    if v >= top:
        return 'rand', gen(rng, c.size, 'rand')
    return kind, enc(v, c)


def digest_for(c, e):
    return enc(e % c.q, c)
