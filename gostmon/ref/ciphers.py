"""Reference models of the block ciphers (GOST R 34.12-2015) and modes (GOST R 34.13-2015).

Written from the standards (RFC 7801, RFC 8891, GOST R 34.13-2015) over integers;
nothing here is shared with the code under test."""

from .tables import PI, MAGMA_SBOX

_L_COEF = (148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1)


def gf_mul(x, y):
    """Product in GF(2)[x]/(x^8+x^7+x^6+x+1)."""
    r = 0
    while y:
        if y & 1:
            r ^= x
        x <<= 1
        if x & 0x100:
            x ^= 0x1c3
        y >>= 1
    return r


def _l_transform(block):
    b = list(block)
    for _ in range(16):
        t = 0
        for c, v in zip(_L_COEF, b):
            t ^= gf_mul(c, v)
        b = [t] + b[:15]
    return bytes(b)


def _l_inverse(block):
    b = list(block)
    for _ in range(16):
        first, rest = b[0], b[1:]
        # R(a15..a0) = l(a15..a0) || a15..a1 ; invert: recover a0.
        t = first
        for c, v in zip(_L_COEF[:15], rest):
            t ^= gf_mul(c, v)
        b = rest + [t]  # coefficient of a0 is 1
    return bytes(b)


_PI_INV = bytes(PI.index(i) for i in range(256))


def _byte_tables(lin, sbox):
    tabs = []
    for pos in range(16):
        basis = []
        for bit in range(8):
            v = bytearray(16)
            v[pos] = 1 << bit
            basis.append(int.from_bytes(lin(v), 'big'))
        row = []
        for x in range(256):
            y = sbox[x]
            acc = 0
            for bit in range(8):
                if y >> bit & 1:
                    acc ^= basis[bit]
            row.append(acc)
        tabs.append(row)
    return tabs


_IDENT = bytes(range(256))
_LS = _byte_tables(_l_transform, PI)           # L(S(x))
_LINV = _byte_tables(_l_inverse, _IDENT)       # L^-1(x)


def _apply(tabs, value):
    r = 0
    for tab, v in zip(tabs, value.to_bytes(16, 'big')):
        r ^= tab[v]
    return r


_KUZ_C = [int.from_bytes(_l_transform(bytes(15) + bytes([i])), 'big') for i in range(1, 33)]


class Kuznechik:
    block_size = 16

    def __init__(self, key):
        key = bytes(key)
        assert len(key) == 32
        a, b = int.from_bytes(key[:16], 'big'), int.from_bytes(key[16:], 'big')
        ks = [a, b]
        for i in range(4):
            for j in range(8):
                a, b = _apply(_LS, a ^ _KUZ_C[8 * i + j]) ^ b, a
            ks += [a, b]
        self.keys = ks

    def encrypt(self, block):
        x = int.from_bytes(block, 'big')
        for k in self.keys[:9]:
            x = _apply(_LS, x ^ k)
        return (x ^ self.keys[9]).to_bytes(16, 'big')

    def decrypt(self, block):
        x = int.from_bytes(block, 'big') ^ self.keys[9]
        for k in reversed(self.keys[:9]):
            x = _apply(_LINV, x).to_bytes(16, 'big').translate(_PI_INV)
            x = int.from_bytes(x, 'big') ^ k
        return x.to_bytes(16, 'big')

    def secrets(self):
        return [k.to_bytes(16, 'big') for k in self.keys]

    def plaintext_for(self, rnd, where, value):
        """The block whose state in round `rnd` (0..8) is `value`: before S, after S ('L input') or after L."""
        x = int.from_bytes(value, 'big')
        if where == 'L output':
            x = int.from_bytes(_apply(_LINV, x).to_bytes(16, 'big').translate(_PI_INV), 'big')
        elif where == 'L input':
            x = int.from_bytes(value.translate(_PI_INV), 'big')
        x ^= self.keys[rnd]
        for k in reversed(self.keys[:rnd]):
            x = int.from_bytes(_apply(_LINV, x).to_bytes(16, 'big').translate(_PI_INV), 'big') ^ k
        return x.to_bytes(16, 'big')

    @staticmethod
    def key_for(step, where, left, right):
        """The key whose schedule is in state (left, right) after `step` (0..32) of its Feistel steps."""
        a, b = int.from_bytes(left, 'big'), int.from_bytes(right, 'big')
        if where == 'xored' and step < 32:
            a ^= _KUZ_C[step]
        for c in reversed(_KUZ_C[:step]):
            a, b = b, a ^ _apply(_LS, b ^ c)
        return a.to_bytes(16, 'big') + b.to_bytes(16, 'big')


def _magma_tables():
    tabs = []
    for byte in range(4):           # byte 0 least significant
        lo, hi = MAGMA_SBOX[2 * byte], MAGMA_SBOX[2 * byte + 1]
        row = []
        for x in range(256):
            v = (lo[x & 15] | hi[x >> 4] << 4) << (8 * byte)
            row.append((v << 11 | v >> 21) & 0xffffffff)
        tabs.append(row)
    return tabs


_MT0, _MT1, _MT2, _MT3 = _magma_tables()


class Magma:
    block_size = 8

    def __init__(self, key):
        key = bytes(key)
        assert len(key) == 32
        w = [int.from_bytes(key[4 * i:4 * i + 4], 'big') for i in range(8)]
        self.keys = w * 3 + w[::-1]

    @staticmethod
    def _run(block, keys):
        a1, a0 = int.from_bytes(block[:4], 'big'), int.from_bytes(block[4:], 'big')
        for k in keys:
            s = (a0 + k) & 0xffffffff
            a1, a0 = a0, a1 ^ _MT0[s & 255] ^ _MT1[s >> 8 & 255] ^ _MT2[s >> 16 & 255] ^ _MT3[s >> 24]
        return a0.to_bytes(4, 'big') + a1.to_bytes(4, 'big')

    def encrypt(self, block):
        return self._run(block, self.keys)

    def decrypt(self, block):
        return self._run(block, self.keys[::-1])

    def secrets(self):
        return [b''.join(k.to_bytes(4, 'big') for k in self.keys[:8])]

    def plaintext_for(self, rnd, where, value):
        """The block whose round `rnd` (0..31) adds the key to value[4:] (or gets the sum value[4:])."""
        a1, a0 = int.from_bytes(value[:4], 'big'), int.from_bytes(value[4:], 'big')
        if where == 'sum':
            a0 = a0 - self.keys[rnd] & 0xffffffff
        for k in reversed(self.keys[:rnd]):
            s = (a1 + k) & 0xffffffff
            a1, a0 = a0 ^ _MT0[s & 255] ^ _MT1[s >> 8 & 255] ^ _MT2[s >> 16 & 255] ^ _MT3[s >> 24], a1
        return a1.to_bytes(4, 'big') + a0.to_bytes(4, 'big')


def cipher(name, key):
    return {'kuznechik': Kuznechik, 'magma': Magma}[name](key)


BLOCK = {'kuznechik': 16, 'magma': 8}


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def blocks(data, n):
    return [bytes(data[i:i + n]) for i in range(0, len(data), n)]


def pad(data, n, mode):
    """Padding procedures 1 (4.1.1) and 2 (4.1.2) of GOST R 34.13-2015."""
    data = bytes(data)
    r = len(data) % n
    if mode == 1:
        return data + bytes(n - r) if r else data
    return data + b'\x80' + bytes(n - r - 1)


def ecb_encrypt(c, data):
    return b''.join(c.encrypt(b) for b in blocks(data, c.block_size))


def ecb_decrypt(c, data):
    return b''.join(c.decrypt(b) for b in blocks(data, c.block_size))


class Register:
    """The m-bit shift register R of GOST R 34.13-2015 (m a multiple of n)."""

    def __init__(self, iv, n):
        self.value, self.n = bytes(iv), n

    def head(self):
        return self.value[:self.n]

    def shift(self, block):
        self.value = self.value[self.n:] + bytes(block)


class Mode:
    """Stateful model of one cipher object: whole blocks advance the state,
    a trailing partial block is masked with the next gamma block."""

    def __init__(self, name, key, mode, iv):
        self.c = cipher(name, key)
        self.n = self.c.block_size
        self.mode = mode
        if mode == 'ctr':
            self.ctr = int.from_bytes(bytes(iv) + bytes(self.n // 2), 'big')
        elif mode != 'ecb':
            self.reg = Register(iv, self.n)

    def counter(self):
        return self.ctr.to_bytes(self.n, 'big')

    def encrypt(self, data):
        return self._crypt(data, False)

    def decrypt(self, data):
        return self._crypt(data, True)

    def _crypt(self, data, dec):
        out = []
        c, n = self.c, self.n
        for b in blocks(data, n):
            if self.mode == 'ecb':
                out.append(c.decrypt(b) if dec else c.encrypt(b))
            elif self.mode == 'cbc':
                if dec:
                    out.append(xor(self.reg.head(), c.decrypt(b)))
                    self.reg.shift(b)
                else:
                    out.append(c.encrypt(xor(self.reg.head(), b)))
                    self.reg.shift(out[-1])
            elif self.mode == 'cfb':
                g = c.encrypt(self.reg.head())
                out.append(xor(g, b))
                if len(b) == n:
                    self.reg.shift(b if dec else out[-1])
            elif self.mode == 'ofb':
                g = c.encrypt(self.reg.head())
                out.append(xor(g, b))
                if len(b) == n:
                    self.reg.shift(g)
            elif self.mode == 'ctr':
                out.append(xor(c.encrypt(self.ctr.to_bytes(n, 'big')), b))
                self.ctr = (self.ctr + 1) % (1 << 8 * n)
            else:
                raise ValueError(self.mode)
        return b''.join(out)


def mac_keys(c):
    n = c.block_size
    top, mask = 1 << (8 * n - 1), (1 << 8 * n) - 1
    poly = {8: 0x1b, 16: 0x87}[n]
    ks, x = [], int.from_bytes(c.encrypt(bytes(n)), 'big')
    for _ in range(2):
        x = (x << 1 & mask) ^ (poly if x & top else 0)
        ks.append(x.to_bytes(n, 'big'))
    return ks


def mac(name, key, data, c=None):
    """Full-length MAC (section 5.6): truncation is a prefix."""
    c = c or cipher(name, key)
    n = c.block_size
    k1, k2 = mac_keys(c)
    bs = blocks(data, n) or [b'']
    last = bs.pop()
    if len(last) == n:
        last = xor(last, k1)
    else:
        last = xor(last + b'\x80' + bytes(n - len(last) - 1), k2)
    z = bytes(n)
    for b in bs:
        z = c.encrypt(xor(z, b))
    return c.encrypt(xor(z, last))
