"""C08: histories of hash objects."""

from gostmon.ref import streebog as ref
from . import age
from .common import gen, near, size, typed, rng_of, bucket, gosthash, cut, split

FILES = ('gosthash/gost_34_11_2012.py',)
RULE = ('case = a history of 12..45 operations (new with or without data, update, digest, hexdigest, copy, reset, drop, '
        'caller mutating a returned digest) over up to 5 live objects of both sizes, chunk sizes concentrated around block '
        'boundaries, one message with a random partition, or thousands of calls of one kind (updates, resets, digests, copies) on one object. The monitor keeps the octets fed to each object and checks '
        'every digest against the reference; at the end every live object is digested. Distinct = (operation, size, '
        'buffered octets before, chunk class, previous operation on the object); non-trivial = the step was followed by a '
        'compared digest.')
ASSUMES = ('the reference Streebog is checked by gostmon.selftest',)
REACH = {'digests': 1500, 'aligned by update': 300, 'copies': 150, 'resets': 100, 'update after digest': 200}
SIZES = (0, 0, 1, 1, 2, 7, 31, 32, 33, 60, 62, 63, 64, 64, 65, 66, 96, 127, 128, 129, 192, 200)


def cases(tier, rng):
    res = []
    for _ in range({'quick': 420, 'thorough': 9000}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='ops'))
    for _ in range({'quick': 260, 'thorough': 5000}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='cut', bits=rng.choice((256, 512)), len=rng.randrange(0, 700)))
    for _ in range({'quick': 40, 'thorough': 600}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='ops', steps=near(rng, 60, 400)))
    for _ in range({'quick': 60, 'thorough': 1500}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='cut', bits=rng.choice((256, 512)), len=size(rng, 64, 60)))
    for k, how in enumerate(age.HASH_HOWS):
        n = {'digest': 1024, 'chain': 2048, 'copies': 4096, 'update': 4096}.get(how, 65536)
        for bits in (256, 512)[k & 1:] if tier == 'quick' else (256, 512):
            res.append(dict(s=rng.getrandbits(48), how='age', bits=bits, call=how, n=n, w=5))
            if tier == 'quick':
                break
    # all two-part splits around the block boundary: (a, b) with a in 0..130 step, complement to the boundary included
    for a in range(0, 131):
        for b in ((64 - a % 64) % 64, 64, rng.randrange(130)):
            if tier == 'thorough' or (a + b) % 3 == 0 or a in (0, 1, 63, 64, 65):
                res.append(dict(s=rng.getrandbits(48), how='two', a=a, b=b, bits=rng.choice((256, 512))))
    return res


def one_message(case, mon, rng):
    bits = case['bits']
    if case['how'] == 'two':
        parts = [gen(rng, case['a']), gen(rng, case['b']), gen(rng, rng.choice((0, 1, 63, 64)))]
    else:
        data = gen(rng, case['len'])
        parts = split(data, cut(rng, len(data)))
    obj = mon.must('gosthash.new', gosthash.new, 'streebog%d' % bits)
    model = ref.Streebog(bits)
    for i, p in enumerate(parts):
        mon.must('update', obj.update, typed(p, rng))
        before = len(model.buf)
        model.update(p)
        if p and not model.buf:
            mon.count('aligned by update')
        if case['how'] == 'two' or rng.random() < .1:
            mon.same('digest after chunks %s' % [len(x) for x in parts[:i + 1]], mon.must('digest', obj.digest), model.digest())
            mon.count('digests')
            if i + 1 < len(parts):
                mon.count('update after digest')
        mon.state('split', bits, before, min(len(p), 200))
    mon.same('digest after chunks %s' % [len(x) for x in parts], mon.must('digest', obj.digest), model.digest())
    mon.count('digests')


def run(case, mon):
    rng = rng_of(case)
    if case['how'] == 'age':
        return age.hash_case(case['bits'], case['call'], mon, rng, age.number(rng, case['n']))
    if case['how'] != 'ops':
        return one_message(case, mon, rng)
    objs = {}
    serial = 0

    def check(i):
        o = objs[i]
        if rng.random() < .75:
            d = mon.must('digest', o['obj'].digest)
            mon.same('digest of object %d (%s)' % (i, o['hist'][-8:]), d, o['model'].digest())
            if rng.random() < .3 and isinstance(d, bytearray):
                for k in range(len(d)):
                    d[k] ^= 0xff
                mon.same('digest of object %d after the caller changed the previous result' % i,
                         mon.must('digest', o['obj'].digest), o['model'].digest())
        else:
            h = mon.must('hexdigest', o['obj'].hexdigest)
            mon.expect(h == o['model'].digest().hex(), 'hexdigest of object %d (%s)' % (i, o['hist'][-8:]), repr(h))
        mon.count('digests')

    for _ in range(case.get('steps') or rng.randrange(12, 45)):
        ops = ['new'] if not objs else ['update'] * 8 + ['digest'] * 4 + ['copy'] * 2 + ['reset', 'new', 'drop']
        op = rng.choice(ops)
        if op == 'new' and len(objs) < 5:
            bits = rng.choice((256, 512))
            data = gen(rng, rng.choice(SIZES)) if rng.random() < .5 else None
            kw = {} if data is None else dict(data=typed(data, rng))
            objs[serial] = dict(obj=mon.must('gosthash.new', gosthash.new, 'streebog%d' % bits, **kw),
                                model=ref.Streebog(bits, data or b''), hist=['new%d' % len(data or b'')])
            serial += 1
            continue
        if not objs:
            continue
        i = rng.choice(list(objs))
        o = objs[i]
        before, prev = len(o['model'].buf), o['hist'][-1].rstrip('0123456789')
        if op == 'update':
            ln = rng.choice(SIZES) if rng.random() < .9 else size(rng, 64, 20)
            if rng.random() < .25:
                ln = 64 - before
            data = gen(rng, ln)
            mon.must('update', o['obj'].update, typed(data, rng))
            o['model'].update(data)
            o['hist'].append('u%d' % ln)
            if ln and not o['model'].buf:
                mon.count('aligned by update')
            if prev == 'digest':
                mon.count('update after digest')
            mon.state('op', op, o['model'].bits, before, ln, prev)
        elif op == 'digest':
            check(i)
            o['hist'].append('digest')
            mon.state('op', op, o['model'].bits, before, prev)
        elif op == 'copy' and len(objs) < 5:
            objs[serial] = dict(obj=mon.must('copy', o['obj'].copy), model=o['model'].copy(), hist=o['hist'] + ['copy'])
            serial += 1
            mon.count('copies')
            mon.state('op', op, o['model'].bits, before, prev)
        elif op == 'reset':
            mon.must('reset', o['obj'].reset)
            o['model'] = ref.Streebog(o['model'].bits)
            o['hist'].append('reset')
            mon.count('resets')
            mon.state('op', op, o['model'].bits, before, prev)
        elif op == 'drop' and len(objs) > 1:
            del objs[i]
            del o
    for i in list(objs):
        check(i)
    mon.state('final', len(objs), bucket(sum(len(o['hist']) for o in objs.values())))
