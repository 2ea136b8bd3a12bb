"""C07: Streebog of any message."""

from gostmon.ref import streebog as ref
from .blockcipher import shaped
from .common import HINTS, bucket, gen, gosthash, rng_of, size, typed

FILES = ('gosthash/gost_34_11_2012.py',)
RULE = ('case = digest size x message: every length 0..200 with several contents, block-boundary lengths, random lengths to '
        '4 KiB, lengths past 8192 octets and past 2 MiB (carries in the length counter), messages built block by block so that '
        'the running 512-bit checksum carries through chosen octet ranges, and messages chosen through the model so that the '
        'state inside a given round of the compression function is structured, and every length of the last piece (0..63 '
        'octets) after 0, 1, 2, 3, 4, 127..129, 255..257, 512, 1024 and other numbers of blocks. Oracle: reference '
        'Streebog. Distinct = (size, length or bucket and residue, content shape, carry run length); non-trivial = digest '
        'compared.')
ASSUMES = ('the reference Streebog is checked by gostmon.selftest against the vectors of GOST R 34.11-2012 and libgcrypt',)
REACH = {'digests': 800, 'checksum carry runs': 60, 'past 8192 octets': 4, 'multiple of 64': 40, 'chosen states': 100, 'past 2 MiB': 1,
         'last pieces': 1200}


def cases(tier, rng):
    res = []
    for bits in (256, 512):
        for ln in range(0, 201):
            for _ in range(1 if tier == 'quick' else 6):
                res.append(dict(s=rng.getrandbits(48), bits=bits, len=ln))
        for nb in range(1, 24):
            for d in (-1, 0, 1):
                res.append(dict(s=rng.getrandbits(48), bits=bits, len=64 * nb + d))
        for _ in range({'quick': 260, 'thorough': 9000}[tier]):
            res.append(dict(s=rng.getrandbits(48), bits=bits, len=rng.choice((rng.randrange(700), rng.randrange(4096)))))
        for _ in range({'quick': 90, 'thorough': 3000}[tier]):
            res.append(dict(s=rng.getrandbits(48), bits=bits, carry=1))
            res.append(dict(s=rng.getrandbits(48), bits=bits, state=1))
            res.append(dict(s=rng.getrandbits(48), bits=bits, size=1))
        for ln in (8128, 8191, 8192, 8193, 8192 + 64, 16384, 24576 + 33) + ((40000, 65536, 131072 + 5) if tier == 'thorough'
                                                                          else ()):
            res.append(dict(s=rng.getrandbits(48), bits=bits, len=ln, w=ln / 8192))
        counts = {0, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257} | {rng.randrange(6, 120) for _ in range(3)}
        if tier == 'thorough':
            counts |= {n + d for n in (8, 16, 32, 64, 512, 1024, 2048, 4096) for d in (-1, 0, 1)}
            counts |= {n // 64 + d for n in HINTS if 64 <= n < 1 << 19 for d in (0, 1)}
        else:
            counts |= {rng.choice((511, 512, 513)), rng.choice((1023, 1024, 1025))}
        for n in sorted(counts):
            res.append(dict(s=rng.getrandbits(48), bits=bits, tails=n, w=(n + 140) / 300))
    for bits in (256, 512):
        res.append(dict(s=rng.getrandbits(48), bits=bits, len=(1 << 21) + 64 + rng.randrange(64), w=900))
    return res


def carrying(rng):
    """Blocks whose running sum carries through an octet range [lo, hi) at some step (little-endian sums)."""
    blocks, total = [], 0
    for _ in range(rng.randrange(1, 4)):
        b = gen(rng, 64)
        blocks.append(b)
        total += int.from_bytes(b, 'little')
    lo = rng.randrange(64)
    hi = rng.choice((64, rng.randrange(lo, 65)))
    # bring octets lo..hi-1 of the sum to 0xff without carries, then add one at lo
    cur = total.__mod__(1 << 512)
    add = 0
    for i in range(lo, hi):
        add |= (0xff - (cur >> 8 * i & 0xff)) << 8 * i
    blocks.append(add.to_bytes(64, 'little'))
    blocks.append((1 << 8 * lo).to_bytes(64, 'little'))
    tail = gen(rng, rng.choice((0, 0, 1, 31, 63)))
    return b''.join(blocks) + tail, hi - lo


def inside(rng, bits):
    """A message one or more of whose blocks give a structured state inside the compression function."""
    model = ref.Streebog(bits)
    for _ in range(rng.randrange(1, 4)):
        shape, value = shaped(rng, 64)
        if rng.random() < .2:
            block = gen(rng, 64)
        else:
            block = ref.message_for(model.h, model.n, rng.randrange(1, 13), rng.choice(('in', 'out')),
                                    int.from_bytes(value, 'little')).to_bytes(64, 'little')
        model.update(block)
        yield block
    yield gen(rng, rng.choice((0, 0, 1, 63)))


def tails(case, mon):
    """Every length of the last piece after a given number of blocks."""
    rng, bits, n = rng_of(case), case['bits'], case['tails']
    shape = rng.choice(('rand', 'rand', 'ff', 'count', 'zero'))
    head, rest = gen(rng, 64 * n, shape), gen(rng, 63, rng.choice(('rand', 'zero', 'ff', 'nul_tail')))
    model = ref.Streebog(bits, head)
    base = mon.must('gosthash.new', gosthash.new, 'streebog%d' % bits)
    mon.must('update', base.update, typed(head, rng))
    for k in range(64):
        obj, want = mon.must('copy', base.copy), model.copy()
        want.update(rest[:k])
        mon.must('update', obj.update, typed(rest[:k], rng))
        mon.same('streebog%d of %d blocks (%s) and %d octets' % (bits, n, shape, k), mon.must('digest', obj.digest),
                 want.digest())
        mon.count('last pieces')
    mon.state('tails', bits, n, shape)


def run(case, mon):
    if 'tails' in case:
        tails(case, mon)
        return
    rng = rng_of(case)
    bits, run_len = case['bits'], None
    name = 'streebog%d' % bits
    if case.get('carry'):
        data, run_len = carrying(rng)
        shape = 'carry'
        mon.count('checksum carry runs')
    elif case.get('state'):
        data, shape = b''.join(inside(rng, bits)), 'state'
        mon.count('chosen states')
    else:
        shape = rng.choice(('rand', 'rand', 'zero', 'ff', 'same', 'bit', 'sparse', 'count', 'nul_tail', 'text', 'rep'))
        data = gen(rng, size(rng, 64, 40) if case.get('size') else case['len'], shape)
    where = '%s of %d octets (%s)' % (name, len(data), shape)
    want = ref.streebog(bits, data)
    if rng.random() < .5:
        obj = mon.must('gosthash.new(%s)' % name, gosthash.new, name, data=typed(data, rng))
    else:
        obj = mon.must('gosthash.new(%s)' % name, gosthash.new, name)
        mon.must('update', obj.update, typed(data, rng))
    mon.same(where, mon.must('digest', obj.digest), want)
    h = mon.must('hexdigest', obj.hexdigest)
    mon.expect(h == want.hex(), where + ': hexdigest', 'observed %r' % (h,))
    mon.count('digests')
    if data and len(data) % 64 == 0:
        mon.count('multiple of 64')
    if len(data) >= 8192:
        mon.count('past 8192 octets')
    if len(data) > 1 << 21:
        mon.count('past 2 MiB')
    mon.state('hash', bits, len(data) if len(data) <= 200 else (bucket(len(data)), len(data) % 64), shape, run_len)
