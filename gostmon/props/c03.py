"""C03: ECB and CBC with both padding procedures."""

from gostmon.ref import ciphers
from . import deepmodes
from .common import ALGS, BS, PADS, MODES, cancelling, gen, iv_blocks, near, size, typed, rng_of, bucket, gostcipher

FILES = ('gostcipher/gost_34_13_2015.py',)
RULE = ('case = algorithm x mode (ECB/CBC) x padding procedure x IV of 1..8 (some to 40) blocks (or the default IV/padding) x message; '
        'lengths 0..3 blocks+2 exhaustively, then random lengths to 80 blocks and some of 300 blocks, hostile contents (blocks that cancel the register, last blocks that look like padding). '
        'Oracle: ciphertext = mode model over padded plaintext, whole blocks, and a second object decrypts it to the padded '
        'plaintext. Distinct = (alg, mode, padding, IV blocks, length class mod block, length bucket, content shape); '
        'non-trivial = at least one block was produced and compared.')
ASSUMES = ('mode models follow GOST R 34.13-2015 (its annex vectors are checked by gostmon.selftest)',
           'padding procedure 1 on an empty message is outside the property (the standard leaves it empty, the code pads)')
REACH = {'compared': 400, 'iv>1': 50, 'default iv': 10}


def cases(tier, rng):
    res = []
    for alg in ALGS:
        for mode in ('ecb', 'cbc'):
            for pad in (1, 2, 0):
                for ln in range(0, 3 * BS[alg] + 3):
                    for rep in range(1 if tier == 'quick' else 4):
                        res.append(dict(s=rng.getrandbits(48), alg=alg, mode=mode, pad=pad, len=ln))
    for _ in range({'quick': 900, 'thorough': 14000}[tier]):
        alg = rng.choice(ALGS)
        res.append(dict(s=rng.getrandbits(48), alg=alg, mode=rng.choice(('ecb', 'cbc', 'cbc')), pad=rng.choice((0, 1, 2)),
                        len=rng.choice((rng.randrange(0, 8 * BS[alg]), rng.randrange(0, 40 * BS[alg])))))
    for _ in range({'quick': 500, 'thorough': 6000}[tier]):
        alg = rng.choice(ALGS)
        res.append(dict(s=rng.getrandbits(48), alg=alg, mode=rng.choice(('ecb', 'cbc', 'cbc')), pad=rng.choice((0, 1, 2)),
                        len=size(rng, BS[alg], 80)))
    for alg in ALGS:
        for mode in ('ecb', 'cbc'):
            for ln in (256, 257, 300) + ((1000, 1025) if tier == 'thorough' else ()):
                for extra in (0, 1, BS[alg] - 1):
                    res.append(dict(s=rng.getrandbits(48), alg=alg, mode=mode, pad=2 if extra else 1,
                                    len=ln * BS[alg] + extra))
    for alg in ALGS:                 # registers of many blocks, gone through once and a bit more
        for mode in ('cbc',):
            for m in (16, 17, 32, 33, 64, 65, 128, 129, 256, 257) + tuple(near(rng, 9, 400) for _ in range({'quick': 6, 'thorough': 60}[tier])):
                res.append(dict(s=rng.getrandbits(48), alg=alg, mode=mode, m=m, len=(m + rng.randrange(1, 6)) * BS[alg] + rng.randrange(BS[alg]), pad=rng.choice((1, 2))))
    res += deepmodes.cases(rng, tier, ('ecb', 'cbc'), 'one')
    return res


def run(case, mon):
    rng = rng_of(case)
    if case.get('deep'):
        return deepmodes.run(case, mon, rng)
    alg, mode, pad, n = case['alg'], case['mode'], case['pad'], BS[case['alg']]
    if case['len'] == 0 and pad != 2:
        mon.count('skipped: empty message, procedure 1')
        return
    key = gen(rng, 32)
    shape = rng.choice(('rand', 'zero', 'ff', 'same', '80', 'nul_tail', 'count', 'rep'))
    data = gen(rng, case['len'], shape)
    m = case.get('m') or iv_blocks(rng)
    iv = gen(rng, m * n)
    if len(data) <= 60 * n and rng.random() < .2:
        shape = 'cancel'
        data = cancelling(rng, alg, key, mode, iv, n, len(data))
    elif len(data) >= n and rng.random() < .15:        # the last block decides about padding
        shape = 'tail'
        data = data[:len(data) - len(data) % n - n] + gen(rng, n, rng.choice(('zero', '80', 'nul_tail', 'ff'))) + \
            gen(rng, len(data) % n, rng.choice(('zero', '80', 'rand')))
    kw = {}
    if pad:
        kw['pad_mode'] = PADS[pad]
    default_iv = mode == 'cbc' and not case.get('m') and rng.random() < .1
    if mode == 'cbc' and not default_iv:
        kw['init_vect'] = iv

    def make():
        k = dict(kw)
        if 'init_vect' in k:
            k['init_vect'] = typed(iv, rng)
        return mon.must('gostcipher.new(%s,%s)' % (alg, mode), gostcipher.new, alg, typed(key, rng), MODES[mode], **k)

    padded = ciphers.pad(data, n, pad or 1)
    ct = mon.must('%s-%s encrypt' % (alg, mode), make().encrypt, typed(data, rng))
    where = '%s %s pad=%s iv=%s len=%d' % (alg, mode, pad or 'default', 'default' if default_iv else m, len(data))
    if pad == 2 and len(data) % n or not data:
        # recorded finding: procedure 2 on an incomplete last block appends one zero block too many
        if len(ct) == len(padded) + n:
            padded += bytes(n)
            mon.finding('pad2-extra-zero-block', where + ': padding procedure 2 adds a whole extra zero block',
                        'ciphertext of %d octets, the standard gives %d' % (len(ct), len(padded) - n))
    mon.expect(isinstance(ct, (bytes, bytearray)) and len(ct) == len(padded) and len(ct) % n == 0,
               where + ': ciphertext length', 'observed %s, padded plaintext is %d octets' % (len(ct), len(padded)))
    if not default_iv:
        ref = ciphers.Mode(alg, key, mode, iv)
        mon.same(where + ': ciphertext', ct, ref.encrypt(padded))
        # an independent ciphertext, not produced by encrypt
        other = gen(rng, n * (rng.randrange(1, 4) if rng.random() < .7 else near(rng, 1, 60)))
        got = mon.must('%s-%s decrypt' % (alg, mode), make().decrypt, typed(other, rng))
        mon.same(where + ': decryption of arbitrary blocks', got, ciphers.Mode(alg, key, mode, iv).decrypt(other))
    else:
        mon.count('default iv')
    pt = mon.must('%s-%s decrypt' % (alg, mode), make().decrypt, typed(ct, rng))
    mon.same(where + ': decryption', pt, padded)
    mon.count('compared')
    if mode == 'cbc' and not default_iv and m > 1:
        mon.count('iv>1')
    mon.state('ecb/cbc', alg, mode, pad, default_iv or m, len(data) % n, bucket(len(data) // n), shape)
