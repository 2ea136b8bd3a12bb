"""C01/C02: the block transforms against the reference model, over histories of one object."""

from gostmon.ref import ciphers
from . import age
from .common import BS, gen, near, typed, rng_of, new_cipher, gostcipher

CLASSES = {'kuznechik': gostcipher.GOST34122015Kuznechik, 'magma': gostcipher.GOST34122015Magma}

RULE = ('case = one key (structured: zero/ff/single bit/repeated/low weight, or random; bytes or bytearray) and a '
        'history of block encryptions/decryptions on one object (direct cipher class or ECB mode), blocks structured, '
        'random, related to earlier ones, or chosen through the model so that the state inside a given round (or inside the '
        'key schedule) is structured, with calls that get no block (wrong length or type) in between, or some thousand blocks on one object; every block is compared with the reference model and inverted. Distinct = distinct '
        '(interface, key shape, block shape, operation, type) classes plus distinct input octet values per block position; '
        'non-trivial = the oracle compared a returned block.')
ASSUMES = ('the reference model implements GOST R 34.12-2015 (checked by gostmon.selftest against RFC 7801/RFC 8891 '
           'vectors and, for Magma, libgcrypt)',)


def cases(alg, tier, rng):
    n = {'quick': 360, 'thorough': 9000}[tier]
    res = []
    for bit in range(256):          # every single-bit key once
        res.append(dict(s=rng.getrandbits(48), key='1bit', bit=bit, n=6, via='class' if bit % 2 else 'ecb'))
    for i in range(16 if tier == 'quick' else 128):
        res.append(dict(s=rng.getrandbits(48), key='sweep', pos=i % BS[alg], n=256, via=('class', 'ecb')[i & 1]))
    for i in range(n):
        res.append(dict(s=rng.getrandbits(48), key='gen', n=rng.choice((4, 12, 40)), via=('class', 'ecb')[i & 1]))
    for i in range(n):          # states inside the cipher or inside the key schedule chosen through the model
        res.append(dict(s=rng.getrandbits(48), key=('state', 'schedule')[i % 3 == 2], n=30, via=('class', 'ecb')[i & 1]))
    for i in range({'quick': 6, 'thorough': 60}[tier]):
        res.append(dict(s=rng.getrandbits(48), key='gen', n=near(rng, 300, 1500), via=('class', 'ecb')[i & 1], twins=1, w=1))
    # one object, thousands of blocks
    res.append(dict(s=rng.getrandbits(48), key='gen', age=4096, via='class', w=20))
    res.append(dict(s=rng.getrandbits(48), key='gen', age=4096, via='class', w=20))
    if alg == 'magma' or tier == 'thorough':
        res.append(dict(s=rng.getrandbits(48), key='gen', age=65536, via='class', w=90))
    return res


SHAPES = ('zero', 'ff', 'same', 'bit', 'sparse', 'count', '80', 'rep', 'nul_tail', 'halves', 'edge', 'edge')


def shaped(rng, n):
    """(shape, n octets) with hostile structure."""
    shape = rng.choice(SHAPES)
    if shape == 'halves':
        h = rng.randbytes(n // 2)
        return shape, h + rng.choice((h, h[::-1], bytes(x ^ 255 for x in h)))
    if shape == 'edge':          # all octets 00 or ff (or one of them random) with one extreme octet somewhere
        b = bytearray(rng.choice((b'\0', b'\xff')) * n)
        b[rng.choice((0, n - 1, rng.randrange(n)))] = rng.choice((0, 1, 127, 128, 254, 255, rng.randrange(256)))
        if rng.random() < .3:
            b[rng.randrange(n)] = rng.randrange(256)
        return shape, bytes(b)
    return shape, gen(rng, n, shape)


def words(rng):
    """A Magma key whose words are extreme, equal or random."""
    pool = [shaped(rng, 4)[1] for _ in range(3)] + [rng.randbytes(4)]
    return b''.join(rng.choice(pool) for _ in range(8))


def run(alg, case, mon):
    rng = rng_of(case)
    n = BS[alg]
    if case['key'] == '1bit':
        key = bytearray(32)
        key[case['bit'] // 8] = 0x80 >> case['bit'] % 8
        kshape = 'bit%d' % case['bit']
    else:
        kshape = rng.choice(('rand', 'rand', 'halves', 'words', 'zero', 'ff', 'same', 'sparse', 'count', 'rep'))
        if kshape == 'halves':
            h = rng.randbytes(16)
            key = h + rng.choice((h, h, h[::-1], bytes(x ^ 255 for x in h)))
        elif kshape == 'words':
            key = words(rng)
        elif case['key'] == 'schedule' and alg == 'kuznechik':
            step, where = rng.randrange(33), rng.choice(('plain', 'xored'))
            left, right = shaped(rng, 16)[1], rng.choice((shaped(rng, 16)[1], rng.randbytes(16)))
            if rng.random() < .5:
                left, right = right, left
            key, kshape = ciphers.Kuznechik.key_for(step, where, left, right), 'schedule %d %s' % (step, where)
        elif case['key'] == 'schedule':
            key, kshape = words(rng), 'words'
        else:
            key = gen(rng, 32, kshape)
    key = typed(key, rng)
    ref = ciphers.cipher(alg, key)
    arg = typed(key, rng)
    if case['via'] == 'class':
        obj = mon.must('%s(key)' % CLASSES[alg].__name__, CLASSES[alg], arg)
    else:
        obj = new_cipher(mon, alg, arg, 'ecb')
    if 'age' in case:
        return age.blocks(alg, obj, bytes(key), mon, rng, age.number(rng, case['age']))
    seen = []
    for i in range(case['n']):
        if case['key'] == 'sweep':
            blk = bytearray(gen(rng, n, 'rand'))
            blk[case['pos']] = i
            blk, shape = bytes(blk), 'sweep%d' % case['pos']
        elif case['key'] == 'state':
            shape, value = shaped(rng, n)
            if alg == 'magma' and rng.random() < .5:
                value = rng.randbytes(4) + shaped(rng, 4)[1]
            rnd = rng.randrange(9 if alg == 'kuznechik' else 32)
            where = rng.choice(('S input', 'L input', 'L output') if alg == 'kuznechik' else ('operand', 'sum'))
            blk = ref.plaintext_for(rnd, where, value)
            shape = 'round %d %s %s' % (rnd, where, shape)
            mon.count('chosen states')
        else:
            shape = rng.choice(('rand', 'rand', 'zero', 'ff', 'same', 'bit', 'sparse', 'count', '80'))
            blk = gen(rng, n, shape)
        if case.get('twins') and seen and rng.random() < .7:
            # blocks related to earlier ones: equal, sharing a part with them, or their own output
            _, old, res = seen[-1] if rng.random() < .7 else rng.choice(seen)
            blk = bytearray(rng.choice((old, res)))
            for _ in range(rng.choice((0, 0, 1, n // 2, n - 1))):
                blk[rng.randrange(n)] = rng.randrange(256)
            if rng.random() < .2:
                blk = blk[::-1]
            blk, shape = bytes(blk), 'related'
        a = typed(blk, rng)
        op = rng.choice(('encrypt', 'decrypt'))
        if case['key'] == 'state' and rng.random() < .7:
            if rng.random() < .5:
                blk = ref.encrypt(blk)       # the same states from the other side
                op = 'decrypt'
            else:
                op = 'encrypt'
            a = typed(blk, rng)
        if case['via'] == 'class' and rng.random() < .04:
            # not a block: whatever happens, later blocks are not to notice
            mon.attempt('%s %s of no block' % (alg, op), getattr(obj, rng.choice(('encrypt', 'decrypt'))),
                        rng.choice((b'', bytes(n - 1), rng.randbytes(rng.randrange(n)), bytes(n + 1), bytes(3 * n), 'x' * n, None, 7)))
            mon.count('calls without a block')
        got = mon.must('%s %s' % (alg, op), getattr(obj, op), a)
        mon.same('%s %s of %s under key %s' % (alg, op, blk.hex(), bytes(key).hex()), got, getattr(ref, op)(blk))
        inv = 'decrypt' if op == 'encrypt' else 'encrypt'
        back = mon.must('%s %s' % (alg, inv), getattr(obj, inv), typed(got, rng))
        mon.same('%s %s after %s' % (alg, inv, op), back, blk)
        mon.state('block', case['via'], kshape, shape, op, type(a).__name__, type(arg).__name__)
        mon.count('blocks', 2)
        seen.append((op, blk, bytes(got)))
    # history independence: early blocks again after everything else
    for op, blk, out in (seen[0], seen[len(seen) // 2]):
        got = mon.must('%s %s' % (alg, op), getattr(obj, op), bytearray(blk))
        mon.same('%s %s repeated after %d blocks on one object' % (alg, op, len(seen)), got, out)
    mon.expect(obj.block_size == n, 'block_size')
