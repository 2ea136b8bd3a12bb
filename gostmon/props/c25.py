"""C25: objects describe themselves consistently."""

from gostmon.ref import oid as oidref
from . import age, script, sig
from .common import BS, gosthash, gosthmac, rng_of

FILES = ('gostcipher/gost_34_12_2015.py', 'gostcipher/gost_34_13_2015.py', 'gosthash/gost_34_11_2012.py',
         'gosthmac/r_50_1_113_2016.py', 'gostpbkdf/r_50_1_111_2016.py', 'gostsignature/gost_34_10_2012.py', 'gostoid/oid.py')
RULE = ('case = one object (every class, algorithm and mode) and a history of its calls (hundreds of calls and megabytes of data for some); after every call the reported block size, '
        'digest size, key size, name and identifier (dotted, named, numeric, encoded) are compared with the pinned ones of the '
        'algorithm given at creation (for copies too), the length of every result with the reported size, every hexadecimal '
        'result with the lower-case form of the binary result of the same state, and every returned binary value is a byte '
        'string. Distinct = (kind, configuration, attribute, position in the history); non-trivial = an attribute or form compared.')
ASSUMES = ('pinned: sizes of the standards, identifiers of the technical committee (id-tc26)',)
REACH = {'attributes': 20000, 'hexadecimal': 1000, 'lengths': 1500}

OID = {'streebog256': ('1.2.643.7.1.1.2.2', 'id-tc26-gost3411-12-256'),
       'streebog512': ('1.2.643.7.1.1.2.3', 'id-tc26-gost3411-12-512'),
       'HMAC_GOSTR3411_2012_256': ('1.2.643.7.1.1.4.1', 'id-tc26-hmac-gost-3411-12-256'),
       'HMAC_GOSTR3411_2012_512': ('1.2.643.7.1.1.4.2', 'id-tc26-hmac-gost-3411-12-512'),
       'sign256': ('1.2.643.7.1.1.1.1', 'id-tc26-gost3410-12-256'),
       'sign512': ('1.2.643.7.1.1.1.2', 'id-tc26-gost3410-12-512'),
       'magma': ('1.2.643.7.1.1.5.1', 'id-tc26-cipher-gostr3412-2015-magma'),
       'kuznechik': ('1.2.643.7.1.1.5.2', 'id-tc26-cipher-gostr3412-2015-kuznyechik')}


def cases(tier, rng):
    kinds = ['cipher', 'cipher', 'mac', 'hash', 'hmac', 'pbkdf', 'signature', 'direct', 'random']
    res = [dict(s=rng.getrandbits(48), kind=k) for _ in range({'quick': 150, 'thorough': 4500}[tier]) for k in kinds]
    for kind in ('hash', 'hmac', 'mac', 'cipher', 'direct', 'pbkdf', 'signature'):
        for n in (130, 260, 520, 1030) + ((2050, 4100) if tier == 'thorough' else ()):
            if n < 300 or kind != 'signature' or tier == 'thorough':
                res.append(dict(s=rng.getrandbits(48), kind='age', of=kind, n=n, w=1))
    for what in ('streebog256', 'streebog512', 'HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512'):
        if tier == 'thorough' or what[0] == 's':
            res.append(dict(s=rng.getrandbits(48), kind='much', of=what, n=34000, w=90))
    return res


def aged(case, mon, rng):
    """The attributes of an object with hundreds of calls behind it."""
    label, obj, extra = age.fresh(case['of'], rng)
    n = age.number(rng, case['n']) // (4 if case['of'] in ('hash', 'signature') and case['n'] > 300 else 1)
    if case['of'] in ('hash', 'hmac'):
        want, oid = dict(name=label, digest_size=32 if label.endswith('256') else 64, block_size=64), OID[label]
    elif case['of'] in ('cipher', 'direct', 'mac'):
        alg = label.split()[0]
        want, oid = dict(block_size=BS[alg]), OID[alg]
        if case['of'] == 'direct':
            want['key_size'] = 32
    else:
        want, oid = {}, OID['sign256'] if case['of'] == 'signature' else None
    for i in range(4):
        age.past(mon, label, case['of'], obj, rng, n // 4, extra)
        inspect(mon, obj, want, oid, label, 100 + i)
    for k in range(n):              # and the attributes themselves, read again and again
        for name, v in want.items():
            if getattr(obj, name) != v:
                inspect(mon, obj, want, oid, label, 200)
        if oid and str(obj.oid) != oid[0]:
            inspect(mon, obj, want, oid, label, 200)
    mon.count('attributes', n)


def much(case, mon, rng):
    """The attributes of an object that has been fed more than two megabytes."""
    name = case['of']
    obj = mon.must('new', gosthash.new, name) if name[0] == 's' else mon.must('new', gosthmac.new, name, rng.randbytes(32))
    want, oid = dict(name=name, digest_size=32 if name.endswith('256') else 64, block_size=64), OID[name]
    for part in range(4):
        for _ in range(case['n'] // 400):
            mon.must('%s: 6400 octets more' % name, lambda: [obj.update(bytes(640)) for _ in range(10)])
        inspect(mon, obj, want, oid, name, 300 + part)
        d = mon.must('digest', obj.digest)
        mon.expect(len(d) == want['digest_size'], '%s: digest has %d octets' % (name, len(d)), 'after %d octets' % ((part + 1) * case['n'] // 400 * 6400))
        mon.expect(mon.must('hexdigest', obj.hexdigest) == bytes(d).hex(), '%s: hexdigest differs from digest' % name)
        mon.count('lengths')
        z = mon.must('copy', obj.copy)
        inspect(mon, z, want, oid, name + ' copy', 300 + part)


def pinned(steps):
    """{attribute: value} and the identifier for the object a history creates."""
    _, _, what, args, kw = steps[0]
    if what == 'hash':
        n = 32 if args[0].endswith('256') else 64
        return dict(name=args[0], digest_size=n, block_size=64), OID[args[0]]
    if what == 'hmac':
        n = 32 if args[0].endswith('256') else 64
        return dict(name=args[0], digest_size=n, block_size=64), OID[args[0]]
    if what == 'cipher':
        return dict(block_size=BS[args[0]]), OID[args[0]]
    if what == 'direct':
        return dict(block_size=BS[args[0]], key_size=32), OID[args[0]]
    if what == 'signature':
        return {}, OID['sign256' if sig.ec.CURVES[args[0]].size == 32 else 'sign512']
    return {}, None


def inspect(mon, obj, want, oid, label, i):
    for k, v in want.items():
        got = mon.must('%s.%s' % (label, k), getattr, obj, k)
        mon.expect(type(got) is type(v) and got == v, '%s: %s is reported as %r' % (label, k, got), 'pinned %r' % (v,))
        mon.count('attributes')
        mon.state('attribute', label, k, i)
    if oid:
        o = mon.must(label + '.oid', getattr, obj, 'oid')
        arcs = tuple(int(x) for x in oid[0].split('.'))
        mon.expect(str(o) == oid[0] and tuple(o.digit) == arcs and bytes(o.octet) == oidref.der(arcs) and
                   o.name == oid[1], '%s: the identifier is reported as %s %s %s %s' % (label, o, o.name, o.digit, bytes(o.octet).hex()),
                   'pinned %s %s' % oid)
        mon.count('attributes', 4)
        mon.state('oid', label, i)


def run(case, mon):
    rng = rng_of(case)
    kind = case['kind']
    if kind in ('age', 'much'):
        return (aged if kind == 'age' else much)(case, mon, rng)
    steps = script.KINDS[kind](rng)
    want, oid = pinned(steps)
    ex = script.Executor(mon)
    label = '%s %s' % (kind, ' '.join(str(a) for a in steps[0][3] if not isinstance(a, bytes)))
    for i, step in enumerate(steps):
        # the binary and the hexadecimal form of one state (mac, hash and hmac digests and derivations repeat)
        method = step[2]
        if step[0] == 'call' and method in ('digest', 'hexdigest', 'derive', 'hexderive'):
            obj = ex.objects[step[1]]
            base = method.replace('hex', '')
            pair = [(base, False), ('hex' + base, True)]
            rng.shuffle(pair)
            got = {hexa: mon.must(m, getattr(obj, m), *step[3]) for m, hexa in pair}
            mon.expect(isinstance(got[False], (bytes, bytearray)), '%s: %s returns %s' % (label, base, type(got[False]).__name__))
            mon.expect(isinstance(got[True], str) and got[True] == bytes(got[False]).hex(), '%s: hex%s differs from %s' % (label, base, base),
                       '%r and %s' % (got[True], bytes(got[False]).hex()))
            mon.count('hexadecimal')
            n = want['digest_size'] if kind in ('hash', 'hmac') else step[3][0]
            mon.expect(len(got[False]) == n, '%s: %s has %d octets' % (label, base, len(got[False])), 'announced %d' % n)
            mon.count('lengths')
            mon.state('hex', label, base, n)
        res = ex.do(step)
        mon.expect(res[0] == 'ret', '%s: %s failed' % (label, script.text(step)), str(res))
        if step[0] == 'call' and method in ('encrypt', 'decrypt', 'random', 'sign', 'public_key_generate'):
            mon.expect(res[1][0] == 'octets', '%s: %s returns %s' % (label, method, res[1]))
            if method == 'random':
                n = steps[0][3][0]
            elif method in ('sign', 'public_key_generate'):
                n = 2 * sig.ec.CURVES[steps[0][3][0]].size
            elif kind == 'direct':
                n = want['block_size']
            else:
                n = None
            if n is not None:
                mon.expect(len(res[1][1]) == n, '%s: %s returns %d octets' % (label, method, len(res[1][1])), 'announced %d' % n)
                mon.count('lengths')
        for slot in sorted(ex.objects):
            inspect(mon, ex.objects[slot], want, oid, label, i)
    if rng.random() < .3 and hasattr(ex.objects['o'], 'clear'):
        mon.must('clear', ex.objects['o'].clear)
        inspect(mon, ex.objects['o'], want, oid, label + ' cleared', 0)
