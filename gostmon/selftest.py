"""Validation of the reference models: published vectors, number theory, and libgcrypt when installed.

Run by setup_cmd.  A model that fails here makes every check that uses it worthless, so any failure is fatal."""

import ctypes
import random
import sys

from .ref import ciphers, ec, oid, streebog as sb

KEY = bytes.fromhex('8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef')
PT = bytes.fromhex('1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a'
                   '112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011')
MKEY = bytes.fromhex('ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff')
MPT = bytes.fromhex('92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41')
IV = bytes.fromhex('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819')
MIV = bytes.fromhex('1234567890abcdef234567890abcdef1')
MIV3 = MIV + bytes.fromhex('34567890abcdef12')


def eq(what, got, want):
    if isinstance(got, (bytes, bytearray)):
        got = bytes(got).hex()
    if got != want:
        raise SystemExit('selftest: %s: got %s want %s' % (what, got, want))


def kat_ciphers():
    k, m = ciphers.Kuznechik(KEY), ciphers.Magma(MKEY)
    eq('kuz', k.encrypt(PT[:16]), '7f679d90bebc24305a468d42b9d4edcd')
    eq('kuz-1', k.decrypt(bytes.fromhex('7f679d90bebc24305a468d42b9d4edcd')), PT[:16].hex())
    eq('magma', m.encrypt(bytes.fromhex('fedcba9876543210')), '4ee901e5c2d8ca3d')
    eq('magma-1', m.decrypt(bytes.fromhex('4ee901e5c2d8ca3d')), 'fedcba9876543210')
    M = ciphers.Mode
    # GOST R 34.13-2015 annex A
    eq('k-ecb', M('kuznechik', KEY, 'ecb', b'').encrypt(PT)[16:32], 'b429912c6e0032f9285452d76718d08b')
    eq('k-ctr', M('kuznechik', KEY, 'ctr', IV[:8]).encrypt(PT),
       'f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4'
       'a5eae88be6356ed3d5e877f13564a3a5cb91fab1f20cbab6d1c6d15820bdba73')
    eq('k-ofb', M('kuznechik', KEY, 'ofb', IV).encrypt(PT),
       '81800a59b1842b24ff1f795e897abd95ed5b47a7048cfab48fb521369d9326bf'
       '66a257ac3ca0b8b1c80fe7fc10288a13203ebbc066138660a0292243f6903150')
    eq('k-cbc', M('kuznechik', KEY, 'cbc', IV).encrypt(PT),
       '689972d4a085fa4d90e52e3d6d7dcc272826e661b478eca6af1e8e448d5ea5ac'
       'fe7babf1e91999e85640e8b0f49d90d0167688065a895c631a2d9a1560b63970')
    eq('k-cfb', M('kuznechik', KEY, 'cfb', IV).encrypt(PT),
       '81800a59b1842b24ff1f795e897abd95ed5b47a7048cfab48fb521369d9326bf'
       '79f2a8eb5cc68d38842d264e97a238b54ffebecd4e922de6c75bd9dd44fbf4d1')
    eq('k-mac', ciphers.mac('kuznechik', KEY, PT)[:8], '336f4d296059fbe3')
    eq('m-ecb', M('magma', MKEY, 'ecb', b'').encrypt(MPT),
       '2b073f0494f372a0de70e715d3556e4811d8d9e9eacfbc1e7c68260996c67efb')
    eq('m-ctr', M('magma', MKEY, 'ctr', bytes.fromhex('12345678')).encrypt(MPT),
       '4e98110c97b7b93c3e250d93d6e85d69136d868807b2dbef568eb680ab52a12d')
    eq('m-ofb', M('magma', MKEY, 'ofb', MIV).encrypt(MPT),
       'db37e0e266903c830d46644c1f9a089ca0f83062430e327ec824efb8bd4fdb05')
    eq('m-cbc', M('magma', MKEY, 'cbc', MIV3).encrypt(MPT),
       '96d1b05eea683919aff76129abb937b95058b4a1c4bc001920b78b1a7cd7e667')
    eq('m-cfb', M('magma', MKEY, 'cfb', MIV).encrypt(MPT),
       'db37e0e266903c830d46644c1f9a089c24bdd2035315d38bbcc0321421075505')
    eq('m-mac', ciphers.mac('magma', MKEY, MPT)[:4], '154e7210')


def kat_hash():
    m1 = b'012345678901234567890123456789012345678901234567890123456789012'
    m2 = bytes.fromhex('d1e520e2e5f2f0e82c20d1f2f0e8e1eee6e820e2edf3f6e82c20e2e5fef2fa20f120ece'
                       'ef0ff20f1f2f0e5ebe0ece820ede020f5f0e0e1f0fbff20efebfaeafb20c8e3eef0e5e2fb')
    eq('m1-512', sb.streebog(512, m1),
       '1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa'
       '00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48')
    eq('m1-256', sb.streebog(256, m1), '9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500')
    eq('m2-512', sb.streebog(512, m2),
       '1e88e62226bfca6f9994f1f2d51569e0daf8475a3b0fe61a5300eee46d961376'
       '035fe83549ada2b8620fcd7c496ce5b33f0cb9dddc2b6460143b03dabac9fb28')
    eq('m2-256', sb.streebog(256, m2), '9dd2fe4e90409e5da87f53976d7405b0c0cac628fc669a741d50063c557e8f50')
    # R 50.1.113-2016 (RFC 7836)
    k = bytes(range(32))
    t = bytes.fromhex('0126bdb87800af214341456563780100')
    eq('hmac256', sb.hmac(256, k, t), 'a1aa5f7de402d7b3d323f2991c8d4534013137010a83754fd0af6d7cd4922ed9')
    eq('hmac512', sb.hmac(512, k, t),
       'a59bab22ecae19c65fbde6e5f4e9f5d8549d31f037f9df9b905500e171923a77'
       '3d5f1530f2ed7e964cb2eedc29e9ad2f3afe93b2814f79f5000ffc0366c251e6')
    # R 50.1.111-2016 (RFC 9337)
    eq('pbkdf-1', sb.pbkdf2(b'password', b'salt', 1, 64),
       '64770af7f748c3b1c9ac831dbcfd85c26111b30a8a657ddc3056b80ca73e040d'
       '2854fd36811f6d825cc4ab66ec0a68a490a9e5cf5156b3a2b7eecddbf9a16b47')
    eq('pbkdf-2', sb.pbkdf2(b'password', b'salt', 2, 64),
       '5a585bafdfbb6e8830d6d68aa3b43ac00d2e4aebce01c9b31c2caed56f0236d4'
       'd34b2b8fbd2c4e89d54d46f50e47d45bbac301571743119e8d3c42ba66d348de')


def kat_ec():
    # RFC 7091 section 7.1 (256-bit test curve)
    c = ec.Curve('test', 0x8000000000000000000000000000000000000000000000000000000000000431, 7,
                 0x5FBFF498AA938CE739B8E022FBAFEF40563F6E6A3472FC2A514C0CE9DAE23B7E,
                 0x8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3, 2,
                 0x8E2A8A0E65147D4BD6316030E16D19C85C97F0A9CA267122B96ABBCEA7E8FC8)
    d = 0x7A929ADE789BB9BE10ED359DD39A72C11B60961F49397EEE1D19CE9891EC3B28
    e = (0x2DFBC1B372D89A1188C09C52E0EEC61FCE52032AB1022E8E67ECE6672B043EE5).to_bytes(32, 'big')
    k = 0x77105C9B20BCD3122823C8CF6FCC7B956DE33814E95B7FE64FED924594DCEAB3
    eq('gost sign', c.sign(d, e, k),
       '41aa28d2f1ab148280cd9ed56feda41974053554a42767b83ad043fd39dc0493'
       '01456c64ba4642a1653c235a98a60249bcd6d3f746b631df928014f6c5bf9c40')
    eq('gost verify', c.verify(c.encode(c.public(d)), e, c.sign(d, e, k)), True)
    rnd = random.Random(7)
    for name, cv in ec.CURVES.items():
        assert ec.is_prime(cv.p) and ec.is_prime(cv.q), name
        assert cv.on_curve(cv.g) and cv.mul(cv.q) is None, name
        assert (4 * cv.a ** 3 + 27 * cv.b ** 2) % cv.p, name
        assert abs(cv.m - cv.p - 1) ** 2 <= 4 * cv.p and cv.m % cv.q == 0, name
        lim = 31 if cv.size == 32 else 131
        assert all(pow(cv.p, t, cv.q) != 1 for t in range(1, lim + 1)), name
        if cv.edwards:
            w = cv.edwards
            f = ec.from_edwards(name, cv.p, w['e'], w['d'], w['u'], w['v'], cv.q, cv.m)
            assert (f.a, f.b, f.g) == (cv.a, cv.b, cv.g), name
            u, v = w['u'], w['v']
            assert (w['e'] * u * u + v * v - 1 - w['d'] * u * u * v * v) % cv.p == 0
        k, d = rnd.randrange(cv.q), rnd.randrange(1, cv.q)
        acc = None
        for i in range(20):
            assert acc == cv.mul(i), name
            acc = cv.add(acc, cv.g)
        assert cv.add(cv.mul(k), cv.mul(d)) == cv.mul((k + d) % cv.q), name
        dig = rnd.randbytes(cv.size)
        sig = cv.sign(d, dig, k)
        assert cv.verify(cv.encode(cv.public(d)), dig, sig)
        bad = bytearray(sig)
        bad[5] ^= 1
        assert not cv.verify(cv.encode(cv.public(d)), dig, bad)


def kat_oid():
    eq('oid', oid.der((1, 2, 840, 113549)), '06062a864886f70d')
    eq('oid2', oid.der((1, 2, 643, 7, 1, 1, 5, 1)), '06082a85030701010501')
    rnd = random.Random(3)
    for _ in range(500):
        a = (rnd.choice((0, 1)), rnd.randrange(40)) if rnd.random() < .6 else (2, rnd.randrange(1 << 40))
        a += tuple(rnd.getrandbits(rnd.randrange(1, 80)) for _ in range(rnd.randrange(40)))
        assert oid.decode(oid.der(a)) == a
        assert oid.parse('.'.join(map(str, a))) == a


def libgcrypt():
    try:
        g = ctypes.CDLL('libgcrypt.so.20')
    except OSError:
        return 'libgcrypt not installed: cross-check skipped'
    g.gcry_check_version.restype = ctypes.c_char_p
    g.gcry_check_version(None)
    rnd = random.Random(11)
    n = 0
    for bits, algo in ((256, 309), (512, 310)):
        for _ in range(300):
            data = rnd.choice((rnd.randbytes(rnd.randrange(300)), b'\xff' * rnd.randrange(700),
                               bytes(rnd.randrange(200))))
            out = ctypes.create_string_buffer(bits // 8)
            g.gcry_md_hash_buffer(algo, out, data, len(data))
            eq('gcrypt streebog', sb.streebog(bits, data), out.raw.hex())
            n += 1
    # Streebog-HMAC through the MAC interface
    g.gcry_mac_open.argtypes = [ctypes.POINTER(ctypes.c_void_p), ctypes.c_int, ctypes.c_uint, ctypes.c_void_p]
    for bits in (256, 512):
        h = ctypes.c_void_p()
        algo = g.gcry_mac_map_name(b'HMAC_STRIBOG%d' % bits)
        if not algo or g.gcry_mac_open(ctypes.byref(h), algo, 0, None):
            continue
        g.gcry_mac_setkey.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t]
        g.gcry_mac_write.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t]
        g.gcry_mac_read.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        key, data = rnd.randbytes(40), rnd.randbytes(150)
        g.gcry_mac_setkey(h, key, len(key))
        g.gcry_mac_write(h, data, len(data))
        out = ctypes.create_string_buffer(64)
        ln = ctypes.c_size_t(64)
        if not g.gcry_mac_read(h, out, ctypes.byref(ln)):
            eq('gcrypt hmac', sb.hmac(bits, key, data), out.raw[:ln.value].hex())
            n += 1
    # GOST 28147-89 with the TC26-Z S-box (MESH) is Magma with reversed byte orders.
    GCRY_CIPHER_GOST28147_MESH = 317
    h = ctypes.c_void_p()
    g.gcry_cipher_open.argtypes = [ctypes.POINTER(ctypes.c_void_p), ctypes.c_int, ctypes.c_int, ctypes.c_uint]
    if not g.gcry_cipher_open(ctypes.byref(h), GCRY_CIPHER_GOST28147_MESH, 1, 0):
        g.gcry_cipher_setkey.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t]
        g.gcry_cipher_encrypt.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t,
                                          ctypes.c_char_p, ctypes.c_size_t]
        g.gcry_cipher_ctl.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_size_t]
        for _ in range(200):
            key, blk = rnd.randbytes(32), rnd.randbytes(8)
            swapped = b''.join(key[i:i + 4][::-1] for i in range(0, 32, 4))
            g.gcry_cipher_setkey(h, swapped, 32)
            g.gcry_cipher_ctl(h, 73, b'1.2.643.7.1.2.5.1.1', 0)  # GCRYCTL_SET_SBOX: param-Z
            out = ctypes.create_string_buffer(8)
            g.gcry_cipher_encrypt(h, out, 8, blk[::-1], 8)
            eq('gcrypt magma', ciphers.Magma(key).encrypt(blk), out.raw[::-1].hex())
            n += 1
    return '%d libgcrypt cross-checks' % n


def main():
    kat_ciphers()
    kat_hash()
    kat_ec()
    kat_oid()
    note = libgcrypt()
    print('selftest: reference models agree with the published vectors;', note)


if __name__ == '__main__':
    sys.exit(main())
