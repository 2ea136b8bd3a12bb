"""C04: CFB, OFB and CTR as length-preserving ciphers."""

from gostmon.ref import ciphers
from . import deepmodes
from .common import ALGS, BS, MODES, cancelling, gen, iv_blocks, near, size, typed, rng_of, bucket, gostcipher

FILES = ('gostcipher/gost_34_13_2015.py',)
RULE = ('case = algorithm x mode (CFB/OFB/CTR) x IV (1..8, some to 40 blocks; half a block for CTR; or default) x message; lengths '
        '0..3 blocks+2 exhaustively, random to 60 blocks, 250..800 blocks, and CTR messages past 65536 blocks. Oracle: mode '
        'model, output length = input length, decryption by a second object restores the message. Distinct = (alg, mode, '
        'IV blocks, length mod block, block-count bucket, content shape); non-trivial = output compared octet by octet.')
ASSUMES = ('mode models follow GOST R 34.13-2015 (its annex vectors are checked by gostmon.selftest)',)
REACH = {'compared': 500, 'ctr past 256 blocks': 4, 'ctr past 65536 blocks': 1, 'iv>1': 50}


def cases(tier, rng):
    res = []
    for alg in ALGS:
        for mode in ('cfb', 'ofb', 'ctr'):
            for ln in range(0, 3 * BS[alg] + 3):
                for _ in range(2 if tier == 'quick' else 6):
                    res.append(dict(s=rng.getrandbits(48), alg=alg, mode=mode, len=ln))
            for nb in (250, 256, 257, 300, 511, 513, 800):
                for _ in range(1 if tier == 'quick' else 4):
                    res.append(dict(s=rng.getrandbits(48), alg=alg, mode=mode,
                                    len=nb * BS[alg] + rng.randrange(BS[alg])))
    for _ in range({'quick': 900, 'thorough': 14000}[tier]):
        alg = rng.choice(ALGS)
        res.append(dict(s=rng.getrandbits(48), alg=alg, mode=rng.choice(('cfb', 'ofb', 'ctr')),
                        len=rng.choice((rng.randrange(0, 8 * BS[alg]), rng.randrange(0, 60 * BS[alg])))))
    for _ in range({'quick': 600, 'thorough': 6000}[tier]):
        alg = rng.choice(ALGS)
        res.append(dict(s=rng.getrandbits(48), alg=alg, mode=rng.choice(('cfb', 'ofb', 'ctr')), len=size(rng, BS[alg], 90)))
    res.append(dict(s=rng.getrandbits(48), alg='magma', mode='ctr', long=65536 + 40, w=3))
    res.append(dict(s=rng.getrandbits(48), alg='kuznechik', mode='ctr', long=65536 + 40, w=3))
    if tier == 'thorough':
        for alg in ALGS:
            res.append(dict(s=rng.getrandbits(48), alg=alg, mode='ctr', long=3 * 65536 + 40, w=9))
    for alg in ALGS:                 # registers of many blocks, gone through once and a bit more
        for mode in ('cfb', 'ofb'):
            for m in (16, 17, 32, 33, 64, 65, 128, 129, 256, 257) + tuple(near(rng, 9, 400) for _ in range({'quick': 6, 'thorough': 60}[tier])):
                res.append(dict(s=rng.getrandbits(48), alg=alg, mode=mode, m=m, len=(m + rng.randrange(1, 6)) * BS[alg] + rng.randrange(BS[alg])))
    res += deepmodes.cases(rng, tier, ('cfb', 'ofb', 'ctr'), 'one')
    return res


def run(case, mon):
    rng = rng_of(case)
    if case.get('deep'):
        return deepmodes.run(case, mon, rng)
    alg, mode, n = case['alg'], case['mode'], BS[case['alg']]
    key = gen(rng, 32)
    m = case.get('m') or iv_blocks(rng)
    iv = gen(rng, n // 2) if mode == 'ctr' else gen(rng, m * n)
    default_iv = not case.get('long') and not case.get('m') and rng.random() < .06

    def make():
        kw = {} if default_iv else dict(init_vect=typed(iv, rng))
        return mon.must('gostcipher.new(%s,%s)' % (alg, mode), gostcipher.new, alg, typed(key, rng), MODES[mode], **kw)

    if case.get('long'):
        # one object, 1024-block calls, so that only the counter is long
        obj, ref, unit = make(), ciphers.Mode(alg, key, mode, iv), bytes(1024 * n)
        left = case['long']
        done = 0
        while left:
            nb = min(1024, left)
            got = mon.must('%s-%s encrypt' % (alg, mode), obj.encrypt, bytearray(unit[:nb * n]))
            mon.same('%s %s blocks %d..%d' % (alg, mode, done, done + nb), got, ref.encrypt(unit[:nb * n]))
            left, done = left - nb, done + nb
            mon.state('long', alg, done)
        mon.count('ctr past 65536 blocks')
        return
    shape = rng.choice(('rand', 'zero', 'ff', 'same', 'count', 'rep'))
    data = gen(rng, case['len'], shape)
    if len(data) <= 60 * n and not default_iv and rng.random() < .15:
        shape = 'cancel'
        data = cancelling(rng, alg, key, mode, iv, n, len(data))
    where = '%s %s iv=%s len=%d' % (alg, mode, 'default' if default_iv else len(iv), len(data))
    ct = mon.must('%s-%s encrypt' % (alg, mode), make().encrypt, typed(data, rng))
    mon.expect(isinstance(ct, (bytes, bytearray)) and len(ct) == len(data), where + ': ciphertext length',
               'observed %d' % len(ct))
    if not default_iv:
        mon.same(where + ': ciphertext', ct, ciphers.Mode(alg, key, mode, iv).encrypt(data))
        other = gen(rng, case['len'] or n)
        got = mon.must('%s-%s decrypt' % (alg, mode), make().decrypt, typed(other, rng))
        mon.same(where + ': decryption of arbitrary octets', got, ciphers.Mode(alg, key, mode, iv).decrypt(other))
        if m > 1 and mode != 'ctr':
            mon.count('iv>1')
    pt = mon.must('%s-%s decrypt' % (alg, mode), make().decrypt, typed(ct, rng))
    mon.same(where + ': decryption', pt, data)
    mon.count('compared')
    if mode == 'ctr' and len(data) > 256 * n:
        mon.count('ctr past 256 blocks')
    mon.state('stream', alg, mode, default_iv or m, len(data) % n, bucket(len(data) // n), shape)
