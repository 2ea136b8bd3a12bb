"""C16: the supplied parameter sets."""

import copy

from . import sig
from .sig import ec, enc, scalar
from .common import typed, rng_of, gostsignature

FILES = ('gostsignature/gost_34_10_2012.py',)
RULE = ('case = supplied parameter set x (a) the set as exported: every parameter compared with the pinned standard values, and '
        'number-theoretic facts computed on the exported values themselves (p and q prime, m multiple of q within the Hasse '
        'bound, base point on the curve and of order q, discriminant, embedding degree), or (b) a session that creates objects '
        'on several sets and generates keys, signs and verifies (valid, altered, rejected calls), after every step of which '
        'all exported sets are compared with their values at import. Distinct = (set, operation kind); non-trivial = a '
        'comparison of the exported sets or of a produced key or signature with the reference.')
ASSUMES = ('the pinned values are those of R 1323565.1.024-2019 (cross-checked by number theory in gostmon.selftest)',)
REACH = {'sets compared': 7, 'sets proved consistent': 7, 'sessions': 10, 'snapshots compared': 100, 'verified': 20}
_PRISTINE = copy.deepcopy(gostsignature.CURVES_R_1323565_1_024_2019)


def cases(tier, rng):
    res = [dict(s=rng.getrandbits(48), how='values', curve=n) for n in sig.NAMES]
    res += [dict(s=rng.getrandbits(48), how='numbers', curve=n, w=2) for n in sig.NAMES]
    for i in range({'quick': 24, 'thorough': 400}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='session', first=sig.NAMES[i % len(sig.NAMES)]))
    return res


def canonical(mon, name, s):
    """Reference curve built from the exported values alone."""
    p = s.get('p', 0)
    mon.expect(isinstance(p, int) and p > 3 and isinstance(s.get('q'), int) and isinstance(s.get('m'), int),
               '%s: p, q or m missing' % name)
    if any(s.get(k, 0) for k in 'abxy'):
        return ec.Curve(name, p, s['a'], s['b'], s['q'], s['x'], s['y'], s['m'])
    mon.expect(all(k in s for k in 'eduv'), '%s: neither canonical nor Edwards parameters' % name)
    e, d, u, v = (s[k] for k in 'eduv')
    mon.expect((e * u * u + v * v - 1 - d * u * u * v * v) % p == 0 and u % p and (1 - v) % p,
               '%s: base point off the Edwards curve' % name)
    return ec.from_edwards(name, p, e, d, u, v, s['q'], s['m'])


def unchanged(mon, where):
    mon.expect(gostsignature.CURVES_R_1323565_1_024_2019 == _PRISTINE, 'exported parameter sets changed by ' + where)
    mon.count('snapshots compared')


def run(case, mon):
    mon.budget = 25
    rng = rng_of(case)
    if case['how'] != 'session':
        name = case['curve']
        ref = ec.CURVES[name]
        mon.expect(name in sig.SUPPLIED, '%s is not supplied' % name)
        s = dict(sig.SUPPLIED[name])
        if case['how'] == 'values':
            c = canonical(mon, name, s)
            got = dict(p=c.p, a=c.a, b=c.b, q=c.q, m=c.m, G=c.g)
            want = dict(p=ref.p, a=ref.a, b=ref.b, q=ref.q, m=ref.m, G=ref.g)
            for k in want:
                mon.expect(got[k] == want[k], '%s: parameter %s' % (name, k), '%r' % (got[k],), 'standard %r' % (want[k],))
            if ref.edwards and 'u' in s:
                for k in 'eduv':
                    mon.expect((s[k] - ref.edwards[k]) % ref.p == 0, '%s: Edwards parameter %s' % (name, k), hex(s[k]))
            for k in s:
                mon.expect(isinstance(s[k], int) and 0 <= s[k] < 1 << 8 * ref.size + 2, '%s: %s is not reduced' % (name, k))
            mon.count('sets compared')
        else:
            c = canonical(mon, name, s)
            size = ref.size
            mon.expect(ec.is_prime(c.p) and ec.is_prime(c.q), name + ': p or q composite')
            mon.expect(c.m % c.q == 0 and (c.m - c.p - 1) ** 2 <= 4 * c.p, name + ': m')
            mon.expect(c.on_curve(c.g) and c.mul(c.q) is ec.INF, name + ': base point not of order q')
            mon.expect((4 * c.a ** 3 + 27 * c.b ** 2) % c.p != 0, name + ': singular')
            low = {32: 1 << 254, 64: 1 << 508}[size]
            mon.expect(low < c.q < 1 << 8 * size and c.m != c.p, name + ': order out of range')
            mon.expect(all(pow(c.p, t, c.q) != 1 for t in range(1, (31 if size == 32 else 131) + 1)), name + ': embedding degree')
            mon.expect(c.a and c.b, name + ': J(E) is 0 or 1728')
            mon.count('sets proved consistent')
        mon.state(case['how'], name)
        return
    mon.expect(set(sig.NAMES) <= set(sig.SUPPLIED), 'supplied sets missing')
    objs = {}
    names = [case['first']] + rng.sample(sig.NAMES, 2)
    for step in range(7):
        name = rng.choice(names) if step else case['first']
        c = ec.CURVES[name]
        if name not in objs:
            objs[name] = sig.obj_of(mon, name, fresh=True)
            unchanged(mon, 'creating an object on ' + name)
            out = mon.attempt('gostsignature.new (wrong mode)', gostsignature.new, 3 - sig.mode_of(c), sig.SUPPLIED[name])
            mon.expect(not out.returned, name + ': accepted in the wrong mode')
            unchanged(mon, 'a rejected constructor on ' + name)
        obj = objs[name]
        d, k = scalar(rng, c)[1], scalar(rng, c)[1]
        digest = sig.digest_of(rng, c)[1]
        pub = mon.must('public_key_generate', obj.public_key_generate, typed(enc(d, c), rng))
        mon.same(name + ': public key', pub, c.encode(c.public(d)))
        unchanged(mon, 'generating a key on ' + name)
        if rng.random() < .7:
            want = c.sign(d, digest, k)
            out = mon.attempt('sign', obj.sign, enc(d, c), digest, enc(k, c))
            unchanged(mon, 'signing on ' + name)
            if want:
                mon.expect(out.returned, name + ': signing', out.text())
                mon.same(name + ': signature', out.value, want)
                bad = bytearray(want)
                bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
                for sg in (want, bytes(bad)):
                    ok = mon.must('verify', obj.verify, pub, digest, sg)
                    mon.expect(ok is c.verify(c.encode(c.public(d)), digest, sg), name + ': verification', repr(ok))
                    mon.count('verified')
                unchanged(mon, 'verifying on ' + name)
        else:
            mon.attempt('sign (bad key)', obj.sign, b'', digest)
            mon.attempt('verify (off-curve key)', obj.verify, b'\x01' * 2 * c.size, digest, b'\x01' * 2 * c.size)
            unchanged(mon, 'rejected calls on ' + name)
        mon.state('session', name, step > 0)
    objs.clear()
    unchanged(mon, 'deleting objects')
    mon.count('sessions')
