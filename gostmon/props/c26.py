"""C26: CTR never uses a counter block twice (keystream reuse monitor)."""

from gostmon import scale
from .common import ALGS, BS, gen, near, typed, rng_of, new_cipher, bucket

FILES = ('gostcipher/gost_34_13_2015.py',)
RULE = ('case = algorithm x key x 1..3 CTR objects (or up to 19, with IVs related by carries, rotations, swaps, zeroed ends) with different IVs under one key x a history of calls of arbitrary '
        'lengths (partial blocks included), total past 256 blocks in most cases, and streams of 400000 blocks (2^24 in depth) over a stand-in for the block cipher. Keystream is read off by encrypting known '
        'data; the monitor keeps every keystream block (or tail of >= 6 octets) ever produced under the key and raises when '
        'one recurs. Shorter tails (1..5 octets) that coincide with another block are suspects: the identical history is '
        're-run under further keys, and a pair of positions that coincides under all of them (>= 12 octets of evidence in '
        'total) is reuse. Distinct = (alg, objects, chunk class, total bucket); non-trivial = more than one block observed.')
ASSUMES = ('reuse of a counter block does not depend on the key (for tails shorter than 6 octets)',)
REACH = {'keystream blocks': 20000, 'past 256': 20, 'short tails': 500}


def cases(tier, rng):
    res = []
    for _ in range({'quick': 90, 'thorough': 1500}[tier]):
        for alg in ALGS:
            res.append(dict(s=rng.getrandbits(48), alg=alg,
                            style=rng.choice(('aligned', 'partial', 'bytes', 'big', 'tiny', 'near'))))
    for _ in range({'quick': 500, 'thorough': 9000}[tier]):
        res.append(dict(s=rng.getrandbits(48), alg=rng.choice(ALGS), style='ivs'))
    for alg in ALGS:
        res.append(dict(s=rng.getrandbits(48), alg=alg, style='huge', w=9))
        res.insert(0, dict(s=rng.getrandbits(48), alg=alg, style='deep', n={'quick': 400000, 'thorough': (1 << 24) + 70000}[tier], w=100))
    return res


def relative(rng, iv):
    """An initialization vector related to `iv`."""
    h, v = len(iv), int.from_bytes(iv, 'big')
    how = rng.randrange(9)
    if how == 0:
        return ((v + rng.choice((1, -1, 256, -256, near(rng, 1, (1 << 8 * h) - 1)))) % (1 << 8 * h)).to_bytes(h, 'big')
    if how == 1:
        return (v ^ 1 << rng.randrange(8 * h)).to_bytes(h, 'big')
    if how == 2:
        k = rng.randrange(h)
        return iv[k:] + iv[:k]
    if how == 3:
        return iv[::-1]
    b = bytearray(iv)
    if how == 4:
        i, j = rng.randrange(h), rng.randrange(h)
        b[i], b[j] = b[j], b[i]
    elif how == 5:
        i = rng.randrange(h)
        b[i:] = bytes(h - i)
    elif how == 6:
        i = rng.randrange(h + 1)
        b[:i] = bytes(i)
    elif how == 7:
        b = bytearray(255 - x for x in b)
    else:
        b[rng.randrange(h)] = rng.choice((0, 255, 128, rng.randrange(256)))
    return bytes(b)


def make_plan(rng, alg, style):
    """IVs and calls [(object, op, data)]."""
    n = BS[alg]
    ivs = []
    count = 1 if style == 'huge' else rng.randrange(2, 20) if style == 'ivs' else rng.randrange(1, 4)
    while len(ivs) < count:
        iv = gen(rng, n // 2)
        if ivs and rng.random() < .6:         # neighbouring IVs: an overflowing counter would collide
            v = (int.from_bytes(ivs[-1], 'big') + rng.choice((1, -1))) % (1 << 4 * n)
            iv = v.to_bytes(n // 2, 'big')
        if ivs and style == 'ivs' and rng.random() < .9:
            iv = relative(rng, rng.choice(ivs))
        if iv not in ivs:
            ivs.append(iv)
    if style == 'ivs':
        return ivs, [(i, rng.choice(('encrypt', 'decrypt')), gen(rng, n * rng.choice((1, 1, 2, 3)), 'rand')) for i in range(len(ivs))]
    goal = {'aligned': 600, 'partial': 300, 'bytes': 90, 'big': 900, 'huge': 66000, 'tiny': 60, 'near': 300}[style]
    if style in ('bytes', 'tiny') and rng.random() < .1:
        goal = 300
    total, plan = 0, []
    while total < goal:
        which = rng.randrange(len(ivs))
        if style == 'aligned':
            ln = n * rng.randrange(1, 40)
        elif style == 'partial':
            ln = rng.randrange(1, 12 * n)
        elif style == 'bytes':
            ln = rng.choice((n - 1, n - 2, n, 1, n + n - 1))
        elif style == 'tiny':
            ln = rng.choice((1, 1, 2, 3, 4, 5, 7, n, n + 1, 0))
        elif style == 'near':
            ln = near(rng, 0, 130 * n)
        else:
            ln = n * (1000 if style == 'huge' else 290)
        plan.append((which, rng.choice(('encrypt', 'decrypt')), gen(rng, ln, rng.choice(('zero', 'ff', 'rand')))))
        total += (ln + n - 1) // n
    return ivs, plan


def play(mon, alg, key, ivs, plan, rng):
    """Yields (keystream octets, object, call, block) in order."""
    n = BS[alg]
    objs = [new_cipher(mon, alg, typed(key, rng), 'ctr', init_vect=typed(iv, rng)) for iv in ivs]
    for call, (which, op, data) in enumerate(plan):
        out = mon.must('%s-ctr %s' % (alg, op), getattr(objs[which], op), typed(data, rng))
        mon.expect(len(out) == len(data), 'CTR output length')
        ks = bytes(a ^ b for a, b in zip(out, data))
        for i in range(0, len(data), n):
            yield ks[i:i + n], which, call, i // n


def suspects(blocks):
    """Pairs of positions one of which is a tail of 1..5 octets that the other starts with (or conversely)."""
    res = set()
    for k in range(1, 6):
        short = {}
        for i, b in enumerate(blocks):
            if len(b) == k:
                short.setdefault(b, []).append(i)
        if not short:
            continue
        for j, b in enumerate(blocks):
            if len(b) >= k:
                for i in short.get(b[:k], ()):
                    if i != j:
                        res.add((min(i, j), max(i, j), k))
    return res


def deep(case, mon, rng):
    """One long stream over a stand-in for the block cipher (a permutation): which counter block was used is read off
    every keystream block, and none may recur."""
    alg, n = case['alg'], BS[case['alg']]
    perm = scale.PERMUTATION[alg]
    with scale.Blocks():
        iv = gen(rng, n // 2)
        obj = new_cipher(mon, alg, gen(rng, 32), 'ctr', init_vect=typed(iv, rng))
        out = mon.attempt('encrypt', obj.encrypt, bytes(3 * n))
        first = int.from_bytes(iv + bytes(n // 2), 'big')
        want = b''.join(perm.encrypt((first + i).to_bytes(n, 'big')) for i in range(3))
        if not out.returned or bytes(out.value) != want:
            mon.count('stand-in does not apply')
            return
        obj = new_cipher(mon, alg, gen(rng, 32), 'ctr', init_vect=typed(iv, rng))
        low, high, used, done, tail_before = 0, 0, set(), 0, False
        zeros = bytes(1024 * n)
        while done < case['n']:
            nb = rng.choice((1024, 1024, 1000, 255, 257, rng.randrange(1, 1024)))
            tail = rng.choice((0, 0, 1, n - 1))
            data = zeros[:nb * n] + bytes(tail)
            ks = mon.must('%s-ctr' % alg, getattr(obj, rng.choice(('encrypt', 'decrypt'))), data)
            mon.expect(len(ks) == len(data), 'CTR output length')
            for i in range(0, nb * n, n):
                v = int.from_bytes(perm.decrypt(ks[i:i + n]), 'big') - first
                # counter values are usually consecutive: kept as an interval, others in a set
                mon.evaluations += 1
                if low <= v < high or v in used:
                    mon.expect(False, '%s CTR keystream block used twice' % alg, 'block %d uses counter value IV||0 + %d again' % (done, v))
                if v == high or v == high + 1 and tail_before:
                    high = v + 1
                else:
                    used.add(v)
                tail_before = False
                done += 1
            tail_before = bool(tail)
            done += tail_before
    mon.count('deep keystream blocks', done)
    mon.state('deep', alg, bucket(done))


def run(case, mon):
    rng = rng_of(case)
    alg, n, style = case['alg'], BS[case['alg']], case['style']
    if style == 'deep':
        return deep(case, mon, rng)
    ivs, plan = make_plan(rng, alg, style)
    seen, blocks, where = {}, [], []
    for blk, which, call, index in play(mon, alg, gen(rng, 32), ivs, plan, rng):
        if style != 'huge':
            blocks.append(blk)
            where.append((which, call, index))
        if len(blk) < 6:
            mon.count('short tails')
            continue
        mon.evaluations += 1
        # full blocks and tails are compared on their first 6 octets first
        prev = seen.get(blk[:6])
        if prev is not None and (prev[0] == blk or min(len(prev[0]), len(blk)) < n):
            mon.expect(False, '%s CTR keystream block used twice' % alg,
                       'object %d call %d block %d repeats object %d call %d block %d' %
                       ((which, call, index) + prev[1:]))
        if prev is None or len(blk) == n:
            seen[blk[:6]] = (blk, which, call, index)
    total = len(blocks) if style != 'huge' else 66000
    mon.count('keystream blocks', total)
    left, keys = suspects(blocks), 1
    while left and not any(k * keys >= 12 for _, _, k in left):
        again = [b for b, *_ in play(mon, alg, rng.randbytes(32), ivs, plan, rng)]
        keys += 1
        left = {(i, j, k) for i, j, k in left if again[i][:k] == again[j][:k]}
        mon.evaluations += 1
        mon.count('suspect histories re-run')
    for i, j, k in sorted(left)[:1]:
        mon.expect(False, '%s CTR keystream block used twice (under each of %d keys)' % (alg, keys),
                   'object %d call %d block %d and object %d call %d block %d agree on %d octets' %
                   (where[i] + where[j] + (k,)))
    if total > 256:
        mon.count('past 256')
    mon.state('ctr', alg, len(ivs), style, bucket(total), bucket(len(plan)))
