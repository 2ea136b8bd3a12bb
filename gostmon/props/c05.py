"""C05: block-aligned calls on one cipher object continue one message."""

from gostmon.ref import ciphers
from . import deepmodes
from .common import ALGS, BS, gen, near, typed, rng_of, bucket, new_cipher

FILES = ('gostcipher/gost_34_13_2015.py',)
RULE = ('case = algorithm x mode x direction x IV x a history of 1..30 calls with whole-block chunks (the last may be '
        'partial for CFB/OFB/CTR), objects with other keys/modes used in between. The recorded call history is checked '
        'offline: each output against the stateful model, the concatenation against a one-shot call on a fresh object, and '
        'the iv/counter reported between calls against the model state. Distinct = (alg, mode, direction, IV blocks, chunk '
        'pattern class, partial tail); non-trivial = at least two calls that moved the state.')
ASSUMES = ('chunks are whole blocks except the last, as the documentation requires; ECB/CBC use padding procedure 1',)
REACH = {'histories': 300, 'iv observed': 300, 'counter observed': 50}


def cases(tier, rng):
    res = []
    for alg in ALGS:
        for mode in ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'):
            for direction in ('encrypt', 'decrypt'):
                for _ in range({'quick': 40, 'thorough': 900}[tier]):
                    res.append(dict(s=rng.getrandbits(48), alg=alg, mode=mode, op=direction))
    res += deepmodes.cases(rng, tier, ('ecb', 'cbc', 'cfb', 'ofb', 'ctr'), 'calls')
    return res


def run(case, mon):
    rng = rng_of(case)
    if case.get('deep'):
        return deepmodes.run(case, mon, rng)
    alg, mode, op, n = case['alg'], case['mode'], case['op'], BS[case['alg']]
    key = gen(rng, 32)
    m = rng.choice((1, 2, 2, 3, 4, 6)) if rng.random() < .8 else near(rng, 1, 30)
    iv = gen(rng, n // 2) if mode == 'ctr' else gen(rng, m * n)
    kw = {} if mode == 'ecb' else dict(init_vect=iv)
    style = rng.choice(('ones', 'small', 'mixed', 'long'))
    calls = rng.randrange(2, {'ones': 30, 'small': 16, 'mixed': 10, 'long': 4}[style])
    sizes = []
    for _ in range(calls):
        nb = {'ones': 1, 'small': rng.randrange(1, 4), 'mixed': rng.randrange(1, 12),
              'long': rng.choice((100, 130, 260))}[style]
        if mode in ('cfb', 'ofb', 'ctr') and rng.random() < .1:
            nb = 0
        if rng.random() < .1:
            nb = near(rng, 1, 140)
        sizes.append(nb * n)
        if mode in ('cfb', 'ofb', 'ctr') and sum(sizes) // n % 64 == 0 and rng.random() < .5:
            sizes.append(0)      # nothing, right at a round number of blocks
        if style == 'long' and rng.random() < .6:
            # up to a multiple of 64, 128 or 256 blocks, perhaps followed by an empty call
            unit = rng.choice((64, 128, 256))
            gap = -(sum(sizes) // n) % unit
            if gap and sum(sizes) // n + gap <= 520:
                sizes.append(gap * n)
                if mode in ('cfb', 'ofb', 'ctr') and rng.random() < .6:
                    sizes.append(0)
                sizes.append(n)
    partial = mode in ('cfb', 'ofb', 'ctr') and rng.random() < .5
    if partial:
        sizes[-1] = rng.randrange(1, 3) * n + rng.randrange(1, n)
    elif mode in ('ecb', 'cbc') and op == 'encrypt' and rng.random() < .3:
        sizes[-1] += rng.randrange(1, n)
    chunks = [gen(rng, s) for s in sizes]
    obj = new_cipher(mon, alg, typed(key, rng), mode, **{k: typed(v, rng) for k, v in kw.items()})
    noise = new_cipher(mon, rng.choice(ALGS), gen(rng, 32), 'ecb')
    history = []
    for i, ch in enumerate(chunks):
        out = mon.must('%s-%s %s' % (alg, mode, op), getattr(obj, op), typed(ch, rng))
        seen = None
        if mode == 'ctr':
            seen = mon.must('.counter', lambda: obj.counter)
        elif mode != 'ecb':
            seen = mon.must('.iv', lambda: obj.iv)
        history.append((bytes(ch), bytes(out), None if seen is None else bytes(seen)))
        if rng.random() < .2:
            mon.must('ecb encrypt (unrelated object)', noise.encrypt, bytes(16))
    # offline oracle over the recorded history
    ref = ciphers.Mode(alg, key, mode, iv)
    for i, (ch, out, seen) in enumerate(history):
        data = ciphers.pad(ch, n, 1) if mode in ('ecb', 'cbc') and op == 'encrypt' else ch
        where = '%s %s %s call %d of chunks %s' % (alg, mode, op, i, sizes)
        mon.same(where, out, getattr(ref, op)(data))
        if mode == 'ctr':
            mon.same(where + ': counter', seen, ref.counter())
            mon.count('counter observed')
        elif mode != 'ecb':
            mon.same(where + ': iv', seen, ref.reg.value[-n:])
            mon.count('iv observed')
    fresh = new_cipher(mon, alg, key, mode, **kw)
    whole = mon.must('%s-%s %s (one call)' % (alg, mode, op), getattr(fresh, op), b''.join(h[0] for h in history))
    mon.same('%s %s %s: one call against chunks %s' % (alg, mode, op, sizes), whole, b''.join(h[1] for h in history))
    mon.count('histories')
    mon.state('history', alg, mode, op, m, style, bucket(calls), partial, bucket(sum(sizes) // n))
