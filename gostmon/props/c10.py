"""C10: password-based key derivation."""

from gostmon import scale
from gostmon.ref import streebog as ref
from . import age
from .common import HINTS, gen, near, size, typed, rng_of, bucket, gostpbkdf

FILES = ('gostpbkdf/r_50_1_111_2016.py',)
RULE = ('case = password (0..64 octets) x salt (1..100 octets, or generated by the library and read back) x iteration count '
        '(1..40, sometimes the default 1000) x a sequence of 1..5 derive/hexderive calls of lengths 0..400 octets, plus '
        'derivations of more than 255 blocks with one iteration, and, with a cheap stand-in for the hash function, more than '
        '65536 iterations, some thousand blocks and some thousand calls on one object. Oracle: reference PBKDF2; shorter results are prefixes of '
        'longer ones by comparison with the one reference string. Distinct = (password length, salt bucket, count bucket, '
        'length, call index, form); non-trivial = a non-empty derived key was compared.')
ASSUMES = ('the reference PBKDF2 is checked by gostmon.selftest against the vectors of R 50.1.111-2016 and libgcrypt',)
REACH = {'keys': 400, 'several blocks': 100, 'past 255 blocks': 1, 'default count': 1, 'generated salt': 10, 'repeated': 100}


def cases(tier, rng):
    res = []
    for pl in range(65):
        for _ in range(1 if tier == 'quick' else 8):
            res.append(dict(s=rng.getrandbits(48), pl=pl, calls=rng.randrange(1, 5)))
    for _ in range({'quick': 160, 'thorough': 3600}[tier]):
        res.append(dict(s=rng.getrandbits(48), pl=rng.choice((8, 64, 63, rng.randrange(65))), calls=rng.randrange(1, 6)))
    for _ in range({'quick': 1, 'thorough': 6}[tier]):
        res.append(dict(s=rng.getrandbits(48), pl=rng.randrange(65), calls=1, default=1, w=5))
    for _ in range({'quick': 2, 'thorough': 10}[tier]):
        res.append(dict(s=rng.getrandbits(48), pl=rng.randrange(65), calls=1, long=rng.choice((256, 257, 300)), w=2))
    if tier == 'thorough':
        res.append(dict(s=rng.getrandbits(48), pl=9, calls=1, long=4100, w=90))
        res.append(dict(s=rng.getrandbits(48), pl=9, calls=1, count=4099, w=90))
        res.append(dict(s=rng.getrandbits(48), pl=11, calls=1, count=10001, w=90))
    for deep in ('count', 'count', 'blocks') + (('count',) * 6 + ('blocks16',) if tier == 'thorough' else ()):
        res.append(dict(s=rng.getrandbits(48), deep=deep, w={'blocks16': 400}.get(deep, 20)))
    res.append(dict(s=rng.getrandbits(48), deep='calls', n=4100, w=20))
    if tier == 'thorough':
        res.append(dict(s=rng.getrandbits(48), deep='calls', n=65600, w=100))
    for h in [h for h in HINTS if 1000 <= h <= 20000][:4]:
        res.append(dict(s=rng.getrandbits(48), pl=rng.randrange(65), calls=1, count=h + 1, w=h / 100))
    return res


def deep(case, mon, rng):
    """Counts and block numbers out of reach of the real hash function, over a stand-in."""
    how = case['deep']
    password, salt = gen(rng, rng.choice((0, 8, 64, rng.randrange(65)))), gen(rng, rng.choice((8, 32, rng.randrange(1, 70))))
    with scale.Hash():
        for count, dk in ((1, 130), (3, 64), (7, 200)):
            obj = mon.must('gostpbkdf.new', gostpbkdf.new, typed(password, rng), salt=typed(salt, rng), counter=count)
            out = mon.attempt('derive', obj.derive, dk)
            if not out.returned or bytes(out.value) != scale.pbkdf2(password, salt, count, dk):
                mon.count('stand-in does not apply')
                return
        if how == 'calls':
            want, n = scale.pbkdf2(password, salt, 2, 300), near(rng, case['n'], case['n'] + 60)
            obj = mon.must('gostpbkdf.new', gostpbkdf.new, typed(password, rng), salt=typed(salt, rng), counter=2)

            def step(i):
                dk = (40, 8, 64, 100, 0)[i % 5]
                if i % 3:
                    return age.differs(obj.derive(dk), want[:dk])
                return None if obj.hexderive(dk) == want[:dk].hex() else 'hexderive(%d) differs' % dk
            age.many(mon, 'pbkdf derivations', n, step)
            mon.same('derived key after %d calls' % n, mon.must('derive', obj.derive, 300), want)
            mon.count('deep derivations')
            return
        count, dk = {'count': (rng.choice((65535, 65536, 65537, near(rng, 20000, 140000), rng.randrange(60000, 100000))),
                               rng.choice((32, 64))),
                     'blocks': (1, 64 * rng.choice((4095, 4096, 4097, rng.randrange(3000, 5000)))),
                     'blocks16': (1, 64 * 65537)}[how]
        obj = mon.must('gostpbkdf.new', gostpbkdf.new, typed(password, rng), salt=typed(salt, rng), counter=count)
        want = scale.pbkdf2(password, salt, count, max(dk, 40))
        mon.same('derived key of %d octets after %d iterations' % (dk, count), mon.must('derive', obj.derive, dk), want[:dk])
        mon.same('derived key of 40 octets after %d iterations, again' % count,
                 mon.must('derive', obj.derive, 40), want[:40])
    mon.count('deep derivations')
    mon.state('deep', how, bucket(count), bucket(dk))


def run(case, mon):
    rng = rng_of(case)
    if 'deep' in case:
        return deep(case, mon, rng)
    password = gen(rng, case['pl'])
    salt = gen(rng, rng.choice((1, 4, 8, 16, 32, 60, 64, rng.randrange(1, 100), max(1, size(rng, 64, 5)))))
    count = 1 if case.get('long') else rng.choice((1, 1, 2, 2, 3, 5, rng.randrange(1, 40), near(rng, 1, 130)))
    count = case.get('count', count)
    kw = dict(salt=typed(salt, rng), counter=count)
    if case.get('default'):
        del kw['counter']
        count = 1000
        mon.count('default count')
    generated = not case.get('long') and rng.random() < .15
    if generated:
        del kw['salt']
    obj = mon.must('gostpbkdf.new', gostpbkdf.new, typed(password, rng), **kw)
    shown = mon.must('.salt', lambda: obj.salt)
    if generated:
        salt = bytes(shown)
        mon.count('generated salt')
    mon.same('salt attribute', shown, salt)
    if case.get('long'):
        lens = [case['long'] * 64 - rng.randrange(64)]
        mon.count('past 255 blocks')
    elif case.get('default') or case.get('count'):
        lens = [rng.choice((32, 64, 80) if count <= 1000 else (32, 64))]
    else:
        lens = [rng.choice((0, 1, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, rng.randrange(1, 400), size(rng, 64, 12)))
                for _ in range(case['calls'])]
        if count > 10:
            lens = [min(x, 140 if count < 60 else 70) for x in lens]
    whole = ref.pbkdf2(password, salt, count, max(lens))
    for i, dk in enumerate(lens):
        what = 'derived key of %d octets (password %d, salt %d, %d iterations, calls %s)' % (dk, len(password), len(salt),
                                                                                       count, lens[:i + 1])
        if rng.random() < .7:
            mon.same(what, mon.must('derive', obj.derive, dk), whole[:dk])
            form = 'bin'
        else:
            h = mon.must('hexderive', obj.hexderive, dk)
            mon.expect(h == whole[:dk].hex(), what + ': hexderive', repr(h)[:90])
            form = 'hex'
        mon.count('keys')
        if dk > 64:
            mon.count('several blocks')
        if i:
            mon.count('repeated')
        mon.state('pbkdf', len(password), bucket(len(salt)), bucket(count), min(dk, 400), min(i, 3), form)
