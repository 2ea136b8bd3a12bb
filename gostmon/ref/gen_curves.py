"""Generates curves.json: real curves (complex multiplication, class number one) with prime order at the
ends of the order ranges, and parameter sets of a chosen embedding degree.  Run by hand; selftest.py verifies."""

import json
import os
import random

from .ec import Curve, INF, is_prime

J = {11: -32768, 19: -884736, 43: -884736000, 67: -147197952000, 163: -262537412640768000}
SMALL = [p for p in range(3, 4000) if all(p % k for k in range(2, int(p ** .5) + 1))]


def maybe_prime(n):
    return n > 1 and all(n % p for p in SMALL) and pow(2, n - 1, n) == 1 and is_prime(n)


def isqrt(n):
    import math
    return math.isqrt(n)


def cm_curve(lo, hi, rng):
    """Prime field curve whose prime order lies in (lo, hi)."""
    while True:
        D = rng.choice(list(J))
        n0 = rng.randrange(lo, hi)
        # 4p = t^2 + D v^2, t and v odd
        v = rng.randrange(isqrt(4 * n0 // D)) | 1
        rest = 4 * n0 - D * v * v
        if rest < 0:
            continue
        t0 = isqrt(rest) | 1
        for step in range(400):
            t = t0 - 2 * step
            if t <= 0:
                break
            s = t * t + D * v * v
            if s % 4:
                break
            p = s // 4
            for n in (p + 1 - t, p + 1 + t):
                if lo < n < hi and n != p and maybe_prime(p) and maybe_prime(n):
                    c = build(p, n, D, rng)
                    if c:
                        return c


def build(p, n, D, rng):
    j = J[D] % p
    k = j * pow(1728 - j, -1, p) % p
    for _ in range(20):
        u = rng.randrange(1, p)
        a, b = 3 * k * u * u % p, 2 * k * u * u * u % p
        for _ in range(40):
            x = rng.randrange(p)
            rhs = (x ** 3 + a * x + b) % p
            if pow(rhs, (p - 1) // 2, p) == 1 and p % 4 == 3:
                y = pow(rhs, (p + 1) // 4, p)
                c = Curve('cm', p, a, b, n, x, y, n)
                if c.mul(n) is INF:
                    return dict(p=p, a=a, b=b, m=n, q=n, x=x, y=y)
                break
    return None


def degree(p, q, limit):
    v = 1
    for t in range(1, limit + 1):
        v = v * p % q
        if v == 1:
            return t
    return None


def mov(t, bits, rng):
    """Prime order q of the size, prime p of multiplicative order t modulo q, and a point on a curve over F_p."""
    while True:
        q = rng.randrange(1 << bits - 2, (1 << bits) // 3) // t * t + 1
        if not maybe_prime(q):
            continue
        for _ in range(20):
            g = pow(rng.randrange(2, q), (q - 1) // t, q)
            if degree(g, q, t) != t:
                continue
            for k in range(4):
                p = g + q * k
                if (1 << bits - 3) < p < (1 << bits) and p != q and maybe_prime(p):
                    a, x, y = (rng.randrange(1, p) for _ in 'axy')
                    return dict(p=p, a=a, b=(y * y - x ** 3 - a * x) % p, m=q * 5, q=q, x=x, y=y)


def main():
    rng = random.Random(20240601)
    res = dict(accept=[], range=[], mov=[])
    for mode, low, high in ((256, 1 << 254, 1 << 256), (512, 1 << 508, 1 << 512)):
        w = 1 << (mode - 40)
        for lo, hi in ((low, low + w), (high - w, high), (low, 2 * low), (2 * low, 2 * low + w), (high // 2, high)):
            res['accept'].append(dict(mode=mode, why='order in %x..%x' % (lo >> mode - 48, hi >> mode - 48),
                                      curve=cm_curve(lo, hi, rng)))
        for lo, hi in ((low - w, low), (high, high + w), (low // 4, low // 2), (high * 2, high * 4)):
            res['range'].append(dict(mode=mode, why='order in %x..%x' % (lo >> mode - 48, hi >> mode - 48),
                                     curve=cm_curve(lo, hi, rng)))
        bound = 31 if mode == 256 else 131
        for t in list(range(1, bound + 1)) + [bound + 1, bound + 2, bound + 3]:
            res['mov'].append(dict(mode=mode, t=t, curve=mov(t, mode, rng)))
        print(mode, flush=True)
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'curves.json')
    for part in res.values():
        for e in part:
            e['curve'] = {k: hex(v) for k, v in e['curve'].items()}
    with open(path, 'w', encoding='utf-8') as fh:
        json.dump(res, fh, indent=0)
        fh.write('\n')


if __name__ == '__main__':
    main()
