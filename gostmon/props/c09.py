"""C09: HMAC for every key, message and history."""

from gostmon.ref import streebog as ref
from . import age
from .common import gen, near, size, typed, rng_of, bucket, gosthmac, cut, split

FILES = ('gosthmac/r_50_1_113_2016.py',)
RULE = ('case = digest size x key (every length 0..64) x message given to new() and/or by updates with random partitions, or '
        'a history of new/update/digest/hexdigest/copy/reset/drop over several live objects, or thousands of calls of one kind on one object (over a stand-in for the hash function). The monitor keeps the octets '
        'fed to each object; every code is compared with the reference HMAC, the empty message and a repeated digest '
        'included. Distinct = (size, key length, octets fed bucket and residue mod 64, operation, previous operation); '
        'non-trivial = a code was compared.')
ASSUMES = ('the reference HMAC is checked by gostmon.selftest against RFC 7836 vectors and libgcrypt',
           'keys longer than 64 octets are outside the property (rejected by the library, see C18)')
REACH = {'codes': 1200, 'empty message': 60, 'key of 64': 60, 'copies': 60, 'resets': 60}
NAMES = {256: 'HMAC_GOSTR3411_2012_256', 512: 'HMAC_GOSTR3411_2012_512'}
SIZES = (0, 0, 1, 7, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200)


def cases(tier, rng):
    res = []
    for bits in (256, 512):
        for kl in range(65):
            for _ in range(2 if tier == 'quick' else 20):
                res.append(dict(s=rng.getrandbits(48), bits=bits, kl=kl, how='msg'))
        for _ in range({'quick': 130, 'thorough': 3500}[tier]):
            res.append(dict(s=rng.getrandbits(48), bits=bits, kl=rng.choice((32, 64, 64, rng.randrange(65))), how='ops'))
        for _ in range({'quick': 12, 'thorough': 300}[tier]):
            res.append(dict(s=rng.getrandbits(48), bits=bits, kl=near(rng, 0, 64), how='ops', steps=near(rng, 40, 300)))
    for bits in (256, 512):
        for how in age.HASH_HOWS:
            n = {'digest': 4096, 'chain': 4096, 'copies': 4096, 'update': 16384}.get(how, 65536)
            res.append(dict(s=rng.getrandbits(48), bits=bits, kl=0, how='age', call=how, n=n, w=3))
    return res


def run(case, mon):
    rng = rng_of(case)
    bits, name = case['bits'], NAMES[case['bits']]
    if case['how'] == 'age':
        return age.hmac_case(bits, case['call'], mon, rng, age.number(rng, case['n']))
    key = gen(rng, case['kl'])
    model = ref.Hmac(bits, key)
    if case['kl'] == 64:
        mon.count('key of 64')

    def compare(obj, fed, hist):
        want = model.mac(fed)
        what = '%s with a %d-octet key over %d octets (%s)' % (name, len(key), len(fed), hist[-8:])
        if rng.random() < .75:
            mon.same(what, mon.must('digest', obj.digest), want)
        else:
            h = mon.must('hexdigest', obj.hexdigest)
            mon.expect(h == want.hex(), what + ': hexdigest', repr(h))
        mon.count('codes')
        if not fed:
            mon.count('empty message')
        mon.state('hmac', bits, len(key), bucket(len(fed)), len(fed) % 64, hist[-1].rstrip('0123456789'))

    def make(data):
        kw = {} if data is None else dict(data=typed(data, rng))
        return mon.must('gosthmac.new', gosthmac.new, name, typed(key, rng), **kw)

    if case['how'] == 'msg':
        ln = rng.choice((0, 1, 63, 64, 65, rng.randrange(200), rng.randrange(600), size(rng, 64, 30)))
        data = gen(rng, ln)
        first = rng.choice((None, None, 0, ln, rng.randrange(ln + 1)))
        obj = make(None if first is None else data[:first])
        hist = ['new%s' % first]
        rest = data[first or 0:]
        for p in split(rest, cut(rng, len(rest))):
            mon.must('update', obj.update, typed(p, rng))
            hist.append('u%d' % len(p))
        compare(obj, data, hist)
        compare(obj, data, hist)
        mon.must('reset', obj.reset)
        other = gen(rng, rng.choice(SIZES))
        if other:
            mon.must('update', obj.update, typed(other, rng))
        compare(obj, other, hist + ['reset'])
        mon.count('resets')
        return
    objs, serial = {}, 0
    for _ in range(case.get('steps') or rng.randrange(10, 30)):
        op = 'new' if not objs else rng.choice(['update'] * 6 + ['digest'] * 4 + ['copy'] * 2 + ['reset', 'new', 'drop'])
        if op == 'new' and len(objs) < 4:
            data = gen(rng, rng.choice(SIZES)) if rng.random() < .5 else None
            objs[serial] = [make(data), bytes(data or b''), ['new%s' % (None if data is None else len(data))]]
            serial += 1
            continue
        i = rng.choice(list(objs))
        o = objs[i]
        if op == 'update':
            d = gen(rng, rng.choice(SIZES) if rng.random() < .9 else size(rng, 64, 20))
            mon.must('update', o[0].update, typed(d, rng))
            o[1] += bytes(d)
            o[2].append('u%d' % len(d))
        elif op == 'digest':
            compare(o[0], o[1], o[2])
            o[2].append('digest')
        elif op == 'copy' and len(objs) < 4:
            objs[serial] = [mon.must('copy', o[0].copy), o[1], o[2] + ['copy']]
            serial += 1
            mon.count('copies')
        elif op == 'reset':
            mon.must('reset', o[0].reset)
            o[1] = b''
            o[2].append('reset')
            mon.count('resets')
        elif op == 'drop' and len(objs) > 1:
            del objs[i], o
    for o in objs.values():
        compare(*o)
