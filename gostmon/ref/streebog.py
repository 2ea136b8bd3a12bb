"""Reference models: Streebog (GOST R 34.11-2012 / RFC 6986), HMAC and PBKDF2
(R 50.1.113-2016, R 50.1.111-2016 / RFC 7836, RFC 9337) and the R 1323565.1.006-2017 generator."""

import struct

from .tables import PI, LINEAR, ITER_C


def _tables():
    tabs = []
    for j in range(8):
        row = []
        for x in range(256):
            acc = 0
            y = PI[x]
            for b in range(8):
                if y >> b & 1:
                    acc ^= LINEAR[j][b]
            row.append(acc)
        tabs.append(row)
    return tabs


_T = _tables()
_C = [int.from_bytes(c, 'little') for c in ITER_C]
_MASK = (1 << 512) - 1
_PACK = struct.Struct('<8Q')


def _lps(v):
    b = v.to_bytes(64, 'little')
    t0, t1, t2, t3, t4, t5, t6, t7 = _T
    return int.from_bytes(_PACK.pack(*[
        t0[b[i]] ^ t1[b[8 + i]] ^ t2[b[16 + i]] ^ t3[b[24 + i]]
        ^ t4[b[32 + i]] ^ t5[b[40 + i]] ^ t6[b[48 + i]] ^ t7[b[56 + i]]
        for i in range(8)]), 'little')


def _g(h, n, m):
    k = _lps(h ^ n)
    t = m
    for c in _C:
        t = _lps(t ^ k)
        k = _lps(k ^ c)
    return t ^ k ^ h ^ m


IV = {512: 0, 256: int.from_bytes(b'\x01' * 64, 'little')}


class Streebog:
    """Incremental model over integers."""

    def __init__(self, bits, data=b''):
        self.bits = bits
        self.h, self.n, self.s, self.buf = IV[bits], 0, 0, b''
        self.update(data)

    def update(self, data):
        self.buf += bytes(data)
        while len(self.buf) >= 64:
            m = int.from_bytes(self.buf[:64], 'little')
            self.h = _g(self.h, self.n, m)
            self.n = (self.n + 512) & _MASK
            self.s = (self.s + m) & _MASK
            self.buf = self.buf[64:]
        return self

    def copy(self):
        o = Streebog(self.bits)
        o.h, o.n, o.s, o.buf = self.h, self.n, self.s, self.buf
        return o

    def digest(self):
        m = int.from_bytes(self.buf + b'\x01' + bytes(63 - len(self.buf)), 'little')
        h = _g(self.h, self.n, m)
        n = (self.n + 8 * len(self.buf)) & _MASK
        s = (self.s + m) & _MASK
        h = _g(_g(h, 0, n), 0, s)
        return h.to_bytes(64, 'little')[64 - self.bits // 8:]


def streebog(bits, data):
    if len(data) > 1 << 14:  # linear-time path for big inputs
        st = Streebog(bits)
        for i in range(0, len(data), 4096):
            st.update(data[i:i + 4096])
        return st.digest()
    return Streebog(bits, data).digest()


class Hmac:
    def __init__(self, bits, key):
        key = bytes(key)
        assert len(key) <= 64
        key += bytes(64 - len(key))
        self.inner = Streebog(bits, bytes(x ^ 0x36 for x in key))
        self.outer = Streebog(bits, bytes(x ^ 0x5c for x in key))

    def mac(self, data):
        return self.outer.copy().update(self.inner.copy().update(data).digest()).digest()


def hmac(bits, key, data):
    return Hmac(bits, key).mac(data)


def pbkdf2(password, salt, count, dk_len):
    h = Hmac(512, password)
    out, i = b'', 0
    while len(out) < dk_len:
        i += 1
        u = h.mac(bytes(salt) + i.to_bytes(4, 'big'))
        acc = int.from_bytes(u, 'big')
        for _ in range(count - 1):
            u = h.mac(u)
            acc ^= int.from_bytes(u, 'big')
        out += acc.to_bytes(64, 'big')
    return out[:dk_len]


class Prng:
    """R 1323565.1.006-2017: state U = S || counter (63 bytes), C_i = H512(U + i).

    Output: whole digests in order, then the trailing r bytes of the next one."""

    def __init__(self, rand_size, seed):
        self.size, self.seed, self.count = rand_size, bytes(seed), 0
        self.limit = (1 << 8 * (63 - len(self.seed))) - 1

    def _next(self):
        if self.count >= self.limit:
            return None
        self.count += 1
        return streebog(512, self.seed + self.count.to_bytes(63 - len(self.seed), 'big'))

    def random(self):
        """bytes, or 'zero' / 'limit' for the documented errors."""
        if not any(self.seed):
            return 'zero'
        out = b''
        need = self.size
        while need > 0:
            d = self._next()
            if d is None:
                return 'limit'
            out += d if need >= 64 else d[64 - need:]
            need -= 64
        return out


# --- choosing messages by the state they produce inside the compression function ---

def _inverse_linear():
    """Rows of the inverse of the 64x64 matrix of L: inverse image of every single bit."""
    rows = [(LINEAR[j][b], 1 << (8 * j + b)) for j in range(8) for b in range(8)]
    inv = []
    for bit in range(64):
        pivot = next(i for i in range(bit, 64) if rows[i][0] >> bit & 1)
        rows[bit], rows[pivot] = rows[pivot], rows[bit]
        for i in range(64):
            if i != bit and rows[i][0] >> bit & 1:
                rows[i] = (rows[i][0] ^ rows[bit][0], rows[i][1] ^ rows[bit][1])
    return [r[1] for r in rows]


_L_INV = _inverse_linear()
_PI_INV = [PI.index(i) for i in range(256)]


def lps_inverse(v):
    words = _PACK.unpack(v.to_bytes(64, 'little'))
    b = bytearray(64)
    for i, w in enumerate(words):
        acc, k = 0, 0
        while w:
            if w & 1:
                acc ^= _L_INV[k]
            w >>= 1
            k += 1
        for j in range(8):
            b[8 * j + i] = _PI_INV[acc >> 8 * j & 255]
    return int.from_bytes(b, 'little')


def message_for(h, n, rnd, where, value):
    """The block that makes the data state of round `rnd` (1..12) equal `value` before LPS ('in') or after it ('out')."""
    keys = [_lps(h ^ n)]
    for c in _C:
        keys.append(_lps(keys[-1] ^ c))
    t = lps_inverse(value) if where == 'out' else value
    for r in range(rnd - 1, 0, -1):
        t = lps_inverse(t ^ keys[r])
    return t ^ keys[0]
