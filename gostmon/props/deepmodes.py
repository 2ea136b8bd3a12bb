"""Messages and histories past 65536 blocks, for the modes of operation over a stand-in for the block cipher."""

from gostmon import scale
from gostmon.ref import ciphers
from .common import ALGS, BS, HINTS, gen, near, new_cipher, typed


def cases(rng, tier, modes, how):
    n = {'quick': 1, 'thorough': 5}[tier]
    return [dict(s=rng.getrandbits(48), alg=alg, mode=mode, deep=how, w=2) for _ in range(n) for mode in modes
            for alg in (ALGS if mode != 'ecb' or n > 1 else (rng.choice(ALGS),))] + \
        [dict(s=rng.getrandbits(48), alg=alg, mode=mode, deep='wide') for _ in range(n) for mode in modes for alg in ALGS if how == 'one']


def wide(rng, n, tails):
    """Lengths of single calls: powers of two of blocks (so of octets), one to either side, literals of the code, with a tail and without."""
    blocks = [1 << k for k in range(8, 13)] + [1 << rng.choice((13, 14, 15))] + [(1 << rng.randrange(8, 13)) + rng.choice((-1, 1)) for _ in range(2)]
    octets = [b * n for b in blocks] + [h * u for h in HINTS for u in (1, n) if n <= h * u <= 1 << 19][:20]
    out = []
    for size in octets:
        out.append(size - size % n)
        if tails:
            out.append(size - size % n + rng.randrange(1, n))
            if size % n:
                out.append(size)
    return out


def applies(mon, make, model, op, n):
    """Whether the objects reach their block cipher through its public methods."""
    data = bytes(range(3 * n))
    out = mon.attempt('calibration', getattr(make(), op), data)
    if out.returned and bytes(out.value) == getattr(model(), op)(data):
        return True
    mon.count('stand-in does not apply')
    return False


def run(case, mon, rng):
    alg, mode, n = case['alg'], case['mode'], BS[case['alg']]
    if mode == 'mac':
        return run_mac(mon, rng, alg, n, case['deep'])
    key = gen(rng, 32)
    iv = gen(rng, n // 2) if mode == 'ctr' else gen(rng, n * rng.choice((1, 2, 3, near(rng, 1, 60))))
    kw = {} if mode == 'ecb' else dict(init_vect=iv)
    with scale.Blocks():
        def make():
            return new_cipher(mon, alg, typed(key, rng), mode, **{k: typed(v, rng) for k, v in kw.items()})

        def model():
            return scale.on_stand_in(alg, ciphers.Mode(alg, key, mode, iv))
        for op in ('encrypt', 'decrypt'):
            if not applies(mon, make, model, op, n):
                return
        if case['deep'] == 'wide':
            for op in ('encrypt', 'decrypt'):
                for size in wide(rng, n, mode not in ('ecb', 'cbc')):
                    data = rng.randbytes(size)
                    obj, ref = make(), model()
                    out = mon.must('%s-%s %s' % (alg, mode, op), getattr(obj, op), typed(data, rng))
                    mon.same('%s %s %s of %d octets' % (alg, mode, op, size), out, getattr(ref, op)(data))
                    mon.count('wide calls')
                mon.state('wide', alg, mode, op)
            return
        total = 65536 + rng.choice((1, 2, 200, 5000))
        for op in ('encrypt', 'decrypt') if case['deep'] == 'one' else (rng.choice(('encrypt', 'decrypt')),):
            obj, ref, done = make(), model(), 0
            while done < total:
                nb = total if case['deep'] == 'one' else rng.choice((1, 7, 255, 256, 257, 512, 1024, 2048, 4096, 8192, rng.randrange(1, 4096)) + tuple(h for h in HINTS if 0 < h <= 8192)[:4])
                tail = rng.randrange(n) if case['deep'] == 'one' and mode not in ('ecb', 'cbc') else 0
                data = rng.randbytes(nb * n + tail)
                out = mon.must('%s-%s %s' % (alg, mode, op), getattr(obj, op), typed(data, rng))
                done += nb
                mon.same('%s %s %s of %d octets (blocks to %d)' % (alg, mode, op, len(data), done), out, getattr(ref, op)(data))
                if tail:
                    break       # what follows a partial block is not specified
                if mode == 'ctr':
                    mon.same('%s counter after %d blocks' % (alg, done), mon.must('.counter', lambda: obj.counter), ref.counter())
                elif mode != 'ecb':
                    mon.same('%s %s iv after %d blocks' % (alg, mode, done), mon.must('.iv', lambda: obj.iv), ref.reg.value[-n:])
            mon.count('deep blocks', done)
            mon.state('deep', alg, mode, op, case['deep'])


def run_mac(mon, rng, alg, n, how):
    key = gen(rng, 32)
    perm = scale.PERMUTATION[alg]
    with scale.Blocks():
        obj = new_cipher(mon, alg, typed(key, rng), 'mac', data=b'calibration of a MAC')
        out = mon.attempt('calibration', obj.digest, n)
        if not out.returned or bytes(out.value) != ciphers.mac(alg, key, b'calibration of a MAC', perm):
            mon.count('stand-in does not apply')
            return
        if how == 'wide':
            for size in wide(rng, n, True):
                before, after = rng.choice(((0, 0), (0, 1), (0, n), (1, n - 1), (n, 1), (rng.randrange(n), rng.randrange(3 * n))))
                parts = [rng.randbytes(k) for k in (before, size, after)]
                obj = new_cipher(mon, alg, typed(key, rng), 'mac')
                for part in parts:
                    mon.must('%s mac update' % alg, obj.update, typed(part, rng))
                mon.same('%s MAC of updates with %d, %d and %d octets' % (alg, before, size, after),
                         mon.must('%s mac digest' % alg, obj.digest, n), ciphers.mac(alg, key, b''.join(parts), perm))
                mon.count('wide calls')
            mon.state('wide', alg, 'mac')
            return
        for big in (False, True):
            obj, fed = new_cipher(mon, alg, typed(key, rng), 'mac'), []
            total = 65536 + rng.choice((1, 2, 100))
            while sum(map(len, fed)) // n <= total:
                size = total * n + rng.randrange(n) if big else rng.choice((n, n + 1, 255 * n, 256 * n, 3000 * n, rng.randrange(5000 * n)))
                fed.append(rng.randbytes(size))
                mon.must('%s mac update' % alg, obj.update, typed(fed[-1], rng))
                if rng.random() < .02:
                    mon.same('%s MAC of %d octets, before more updates' % (alg, sum(map(len, fed))), mon.must('%s mac digest' % alg, obj.digest, n),
                             ciphers.mac(alg, key, b''.join(fed), perm))
                if big:
                    break
            data = b''.join(fed)
            mon.same('%s MAC of %d octets in %d updates' % (alg, len(data), len(fed)), mon.must('%s mac digest' % alg, obj.digest, n),
                     ciphers.mac(alg, key, data, perm))
            mon.count('deep blocks', len(data) // n)
            mon.state('deep', alg, 'mac', big)
