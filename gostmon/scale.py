"""Stand-ins for the expensive primitives, so that everything built on them runs to depths that
the real primitives put out of reach (tens of thousands of iterations, counters of three octets).

Inside `Hash()` the hash objects of the library keep what they are fed and answer with a cheap
digest (BLAKE2b); inside `Blocks()` the block ciphers apply a cheap permutation.  The HMAC,
key-derivation, generator and mode code that runs on top is the real one.  Only public methods of
public classes are replaced.  A workload asks `fits()` first: small histories are compared with the
model on the stand-in; where they differ the code under test does not reach its primitive through
the public methods, the stand-in does not apply and the workload falls back to the real primitive.
"""

import hashlib

from gostcrypto import gostcipher, gosthash


def cheap(data):
    return hashlib.blake2b(data, digest_size=64).digest()


def hmac(key, data):
    key = bytes(key) + bytes(64 - len(key))
    inner = cheap(bytes(x ^ 0x36 for x in key) + data)
    return cheap(bytes(x ^ 0x5c for x in key) + inner)


def pbkdf2(password, salt, count, dk_len):
    key = bytes(password) + bytes(64 - len(password))
    inner = hashlib.blake2b(bytes(x ^ 0x36 for x in key), digest_size=64)
    outer = hashlib.blake2b(bytes(x ^ 0x5c for x in key), digest_size=64)

    def mac(data):
        a, b = inner.copy(), outer.copy()
        a.update(data)
        b.update(a.digest())
        return b.digest()

    out, i, size = [], 0, 0
    while size < dk_len:
        i += 1
        u = mac(bytes(salt) + i.to_bytes(4, 'big'))
        acc = int.from_bytes(u, 'big')
        for _ in range(count - 1):
            u = mac(u)
            acc ^= int.from_bytes(u, 'big')
        out.append(acc.to_bytes(64, 'big'))
        size += 64
    return b''.join(out)[:dk_len]


class _Patched:
    def __init__(self):
        self.saved = []

    def put(self, cls, name, fn):
        self.saved.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, fn)

    def __exit__(self, *_):
        for cls, name, old in reversed(self.saved):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
        self.saved = []


class Hash(_Patched):
    def __enter__(self):
        cls = type(gosthash.new('streebog512'))

        def update(self, data):
            self.gostmon_fed = self.__dict__.get('gostmon_fed', b'') + data

        def digest(self):
            return bytearray(cheap(self.__dict__.get('gostmon_fed', b''))[:self.digest_size])

        def hexdigest(self):
            return self.digest().hex()

        def reset(self):
            self.gostmon_fed = b''

        for fn in (update, digest, hexdigest, reset):
            self.put(cls, fn.__name__, fn)
        return self


class Permutation:
    """A cheap keyless permutation of n octets (a counter keeps all blocks distinct)."""

    def __init__(self, n):
        self.n = self.block_size = n
        self.bits = 8 * n
        self.mask = (1 << self.bits) - 1
        self.odd = (0x9e3779b97f4a7c15f39cc0605cedc835 & self.mask) | 1
        self.inv = pow(self.odd, -1, 1 << self.bits)
        self.add = 0x243f6a8885a308d313198a2e03707344 & self.mask
        self.rot = self.bits // 2 + 3

    def encrypt(self, block):
        x = (int.from_bytes(block, 'big') ^ self.add) * self.odd & self.mask
        x = (x << self.rot | x >> self.bits - self.rot) & self.mask
        return (x * self.odd & self.mask).to_bytes(self.n, 'big')

    def decrypt(self, block):
        x = int.from_bytes(block, 'big') * self.inv & self.mask
        x = (x >> self.rot | x << self.bits - self.rot) & self.mask
        return (x * self.inv & self.mask ^ self.add).to_bytes(self.n, 'big')


PERMUTATION = {'kuznechik': Permutation(16), 'magma': Permutation(8)}


class Blocks(_Patched):
    def __enter__(self):
        for alg, cls in (('kuznechik', gostcipher.GOST34122015Kuznechik), ('magma', gostcipher.GOST34122015Magma)):
            perm = PERMUTATION[alg]
            self.put(cls, 'encrypt', lambda self, block, enc=perm.encrypt: bytearray(enc(block)))
            self.put(cls, 'decrypt', lambda self, block, dec=perm.decrypt: bytearray(dec(block)))
        return self


def on_stand_in(alg, mode):
    """The model of a cipher object (gostmon.ref.ciphers.Mode) over the stand-in."""
    mode.c = PERMUTATION[alg]
    return mode
