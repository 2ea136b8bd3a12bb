"""Reference model of GOST R 34.10-2012 over integers (RFC 7091) and its curves.

Curve constants are the TC26 sets of R 1323565.1.024-2019 / RFC 7836 / RFC 4357,
pinned here and cross-checked against libgcrypt and by number theory in selftest.py."""

import random

INF = None


def is_prime(n, rounds=24):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    rnd = random.Random(n)
    for _ in range(rounds):
        a = rnd.randrange(2, n - 1)
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class Curve:
    """y^2 = x^3 + ax + b over F_p, generator (x, y) of prime order q."""

    def __init__(self, name, p, a, b, q, x, y, m=None, edwards=None):
        self.name, self.p, self.a, self.b, self.q = name, p, a % p, b % p, q
        self.g = (x % p, y % p)
        self.m, self.edwards = m, edwards
        self.size = 32 if q < 1 << 256 else 64

    def on_curve(self, pt):
        x, y = pt
        return (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0

    def neg(self, pt):
        return INF if pt is INF else (pt[0], -pt[1] % self.p)

    def add(self, P, Q):
        if P is INF:
            return Q
        if Q is INF:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return INF
            lam = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            lam = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (lam * lam - P[0] - Q[0]) % p
        return (x, (lam * (P[0] - x) - P[1]) % p)

    # Jacobian arithmetic for speed; checked against add() in selftest.
    def _jdbl(self, P):
        X, Y, Z = P
        p = self.p
        if not Y or not Z:
            return (1, 1, 0)
        YY = Y * Y % p
        S = 4 * X * YY % p
        ZZ = Z * Z % p
        M = (3 * X * X + self.a * ZZ * ZZ) % p
        X3 = (M * M - 2 * S) % p
        return (X3, (M * (S - X3) - 8 * YY * YY) % p, 2 * Y * Z % p)

    def _jadd(self, P, Q):
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        p = self.p
        if not Z1:
            return Q
        if not Z2:
            return P
        Z1Z1, Z2Z2 = Z1 * Z1 % p, Z2 * Z2 % p
        U1, U2 = X1 * Z2Z2 % p, X2 * Z1Z1 % p
        S1, S2 = Y1 * Z2 * Z2Z2 % p, Y2 * Z1 * Z1Z1 % p
        H, R = (U2 - U1) % p, (S2 - S1) % p
        if not H:
            return self._jdbl(P) if not R else (1, 1, 0)
        HH = H * H % p
        HHH = H * HH % p
        V = U1 * HH % p
        X3 = (R * R - HHH - 2 * V) % p
        return (X3, (R * (V - X3) - S1 * HHH) % p, Z1 * Z2 * H % p)

    def mul(self, k, P=None):
        P = self.g if P is None else P
        if P is INF or not k:
            return INF
        if k < 0:
            return self.mul(-k, self.neg(P))
        acc, base = (1, 1, 0), (P[0], P[1], 1)
        for bit in bin(k)[2:]:
            acc = self._jdbl(acc)
            if bit == '1':
                acc = self._jadd(acc, base)
        X, Y, Z = acc
        if not Z:
            return INF
        zi = pow(Z, -1, self.p)
        return (X * zi * zi % self.p, Y * zi * zi * zi % self.p)

    # --- GOST R 34.10-2012 ---
    def e_of(self, digest):
        return int.from_bytes(digest, 'big') % self.q or 1

    def public(self, d):
        return self.mul(d % self.q)

    def rs(self, d, e, k):
        C = self.mul(k)
        r = C[0] % self.q
        return r, (r * d + k * e) % self.q

    def sign(self, d, digest, k):
        """The signature bytes, or None when this k must not be used."""
        if not 0 < k < self.q:
            return None
        r, s = self.rs(d, self.e_of(digest), k)
        if not r or not s:
            return None
        return r.to_bytes(self.size, 'big') + s.to_bytes(self.size, 'big')

    def verify_point(self, Q, digest, r, s):
        q = self.q
        if not (0 < r < q and 0 < s < q):
            return False
        v = pow(self.e_of(digest), -1, q)
        C = self.add(self.mul(s * v % q), self.mul(-r * v % q, Q))
        return C is not INF and C[0] % q == r

    def verify(self, pub, digest, sig):
        n = self.size
        Q = (int.from_bytes(pub[:n], 'big'), int.from_bytes(pub[n:], 'big'))
        if Q[0] >= self.p or Q[1] >= self.p or not self.on_curve(Q):
            return False
        return self.verify_point(Q, digest, int.from_bytes(sig[:n], 'big'),
                                 int.from_bytes(sig[n:], 'big'))

    def encode(self, P):
        return P[0].to_bytes(self.size, 'big') + P[1].to_bytes(self.size, 'big')


def from_edwards(name, p, e, d, u, v, q, m):
    """Edwards e*u^2 + v^2 = 1 + d*u^2*v^2 to canonical form (R 1323565.1.024-2019, annex)."""
    s = (e - d) * pow(4, -1, p) % p
    t = (e + d) * pow(6, -1, p) % p
    a = (s * s - 3 * t * t) % p
    b = (2 * t ** 3 - t * s * s) % p
    x = (s * (1 + v) * pow(1 - v, -1, p) + t) % p
    y = s * (1 + v) * pow((1 - v) * u, -1, p) % p
    return Curve(name, p, a, b, q, x, y, m, dict(e=e, d=d, u=u, v=v))

_RAW = {
    'id-tc26-gost-3410-12-512-paramSetA': dict(
        p=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
        a=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc4,
        b=0xe8c2505dedfc86ddc1bd0b2b6667f1da34b82574761cb0e879bd081cfd0b6265ee3cb090f30d27614cb4574010da90dd862ef9d4ebee4761503190785a71c760,
        q=0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff27e69532f48d89116ff22b8d4e0560609b4b38abfad2b85dcacdb1411f10b275,
        x=0x3,
        y=0x7503cfe87a836ae3a61b8816e25450e6ce5e1c93acf1abc1778064fdcbefa921df1626be4fd036e93d75e6a50e3a41e98028fe5fc235f5b889a589cb5215f2a4,
        h=1,
    ),
    'id-tc26-gost-3410-12-512-paramSetB': dict(
        p=0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006f,
        a=0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006c,
        b=0x687d1b459dc841457e3e06cf6f5e2517b97c7d614af138bcbf85dc806c4b289f3e965d2db1416d217f8b276fad1ab69c50f78bee1fa3106efb8ccbc7c5140116,
        q=0x800000000000000000000000000000000000000000000000000000000000000149a1ec142565a545acfdb77bd9d40cfa8b996712101bea0ec6346c54374f25bd,
        x=0x2,
        y=0x1a8f7eda389b094c2c071e3647a8940f3c123b697578c213be6dd9e6c8ec7335dcb228fd1edf4a39152cbcaaf8c0398828041055f94ceeec7e21340780fe41bd,
        h=1,
    ),
    'id-tc26-gost-3410-2012-256-paramSetA': dict(
        p=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
        a=0xc2173f1513981673af4892c23035a27ce25e2013bf95aa33b22c656f277e7335,
        b=0x295f9bae7428ed9ccc20e7c359a9d41a22fccd9108e17bf7ba9337a6f8ae9513,
        q=0x400000000000000000000000000000000fd8cddfc87b6635c115af556c360c67,
        x=0x91e38443a5e82c0d880923425712b2bb658b9196932e02c78b2582fe742daa28,
        y=0x32879423ab1a0375895786c4bb46e9565fde0b5344766740af268adb32322e5c,
        h=4,
        edwards=dict(e=1, d=0x605f6b7c183fa81578bc39cfad518132b9df62897009af7e522c32d6dc7bffb,
                     u=0xd, v=0x60ca1e32aa475b348488c38fab07649ce7ef8dbe87f22e81f92b2592dba300e7),
    ),
    'id-tc26-gost-3410-2012-256-paramSetB': dict(
        p=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
        a=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd94,
        b=0xa6,
        q=0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893,
        x=0x1,
        y=0x8d91e471e0989cda27df505a453f2b7635294f2ddf23e3b122acc99c9e9f1e14,
        h=1,
    ),
    'id-tc26-gost-3410-2012-256-paramSetC': dict(
        p=0x8000000000000000000000000000000000000000000000000000000000000c99,
        a=0x8000000000000000000000000000000000000000000000000000000000000c96,
        b=0x3e1af419a269a5f866a7d3c25c3df80ae979259373ff2b182f49d4ce7e1bbc8b,
        q=0x800000000000000000000000000000015f700cfff1a624e5e497161bcc8a198f,
        x=0x1,
        y=0x3fa8124359f96680b83d1c3eb2c070e5c545c9858d03ecfb744bf8d717717efc,
        h=1,
    ),
    'id-tc26-gost-3410-2012-256-paramSetD': dict(
        p=0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d759b,
        a=0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d7598,
        b=0x805a,
        q=0x9b9f605f5a858107ab1ec85e6b41c8aa582ca3511eddfb74f02f3a6598980bb9,
        x=0x0,
        y=0x41ece55743711a8c3cbf3783cd08c0ee4d4dc440d4641a8f366e550dfdb3bb67,
        h=1,
    ),
    'id-tc26-gost-3410-2012-512-paramSetC': dict(
        p=0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
        a=0xdc9203e514a721875485a529d2c722fb187bc8980eb866644de41c68e143064546e861c0e2c9edd92ade71f46fcf50ff2ad97f951fda9f2a2eb6546f39689bd3,
        b=0xb4c4ee28cebc6c2c8ac12952cf37f16ac7efb6a9f69f4b57ffda2e4f0de5ade038cbc2fff719d2c18de0284b8bfef3b52b8cc7a5f5bf0a3c8d2319a5312557e1,
        q=0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc98cdba46506ab004c33a9ff5147502cc8eda9e7a769a12694623cef47f023ed,
        x=0xe2e31edfc23de7bdebe241ce593ef5de2295b7a9cbaef021d385f7074cea043aa27272a7ae602bf2a7b9033db9ed3610c6fb85487eae97aac5bc7928c1950148,
        y=0xf5ce40d95b5eb899abbccff5911cb8577939804d6527378b8c108c3d2090ff9be18e2d33e3021ed2ef32d85822423b6304f726aa854bae07d0396e9a9addc40f,
        h=4,
        edwards=dict(e=1, d=0x9e4f5d8c017d8d9f13a5cf3cdf5bfe4dab402d54198e31ebde28a0621050439ca6b39e0a515c06b304e2ce43e79e369e91a0cfc2bc2a22b4ca302dbb33ee7550,
                     u=0x12, v=0x469af79d1fb1f5e16b99592b77a01e2a0fdfb0d01794368d9a56117f7b38669522dd4b650cf789eebf068c5d139732f0905622c04b2baae7600303ee73001a3d),
    ),
}


def _build():
    res = {}
    for name, c in _RAW.items():
        res[name] = Curve(name, c['p'], c['a'], c['b'], c['q'], c['x'], c['y'],
                          c['q'] * c['h'], c.get('edwards'))
    return res


CURVES = _build()
