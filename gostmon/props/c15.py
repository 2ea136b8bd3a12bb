"""C15: only curve parameters that meet the requirements are accepted; Edwards form is converted."""

import functools
import json
import os

from gostmon.ref import ec
from . import sig
from .sig import scalar
from .common import typed, rng_of, gostsignature

FILES = ('gostsignature/gost_34_10_2012.py',)
RULE = ('case = mode x parameters: accepted ones (supplied sets, isomorphic images, other base points, generated curves of '
        'prime order at both ends of the order range, sets of embedding degree 32.. / 132.., Edwards form with other base '
        'points, with e != 1 and over other fields) and refused ones (m = p, base point off the curve by one changed parameter, swapped or zeroed or random coordinates, exchanged or negated coefficients, order outside the '
        'range by real curves next to the ends, embedding degree t for every t in 1..31 / 1..131, swapped mode, zero or '
        'negative p or q, missing parameters, Edwards point off the curve). Oracle: the listed requirements computed '
        'independently; an accepted object must give the reference public keys and signatures. Distinct = (mode, construction, '
        'detail, verdict); non-trivial = a constructor outcome compared.')
ASSUMES = ('curves.json (real orders, embedding degrees) is verified by gostmon.selftest',
           'primality of p and q, the order of the base point and J(E) are not among the requirements claimed')
REACH = {'accepted': 90, 'refused': 240, 'usable': 80, 'edwards accepted': 20, 'degree refused': 162}
BOUND = {256: 31, 512: 131}
MODE = {256: gostsignature.MODE_256, 512: gostsignature.MODE_512}


@functools.lru_cache(None)
def generated():
    with open(os.path.join(os.path.dirname(ec.__file__), 'curves.json'), encoding='utf-8') as fh:
        data = json.load(fh)
    for part in data.values():
        for e in part:
            e['curve'] = {k: int(v, 16) for k, v in e['curve'].items()}
    return data


def cases(tier, rng):
    res = []
    data = generated()
    for i, e in enumerate(data['mov']):
        res.append(dict(s=rng.getrandbits(48), how='degree', i=i))
    for part in ('accept', 'range'):
        for i, e in enumerate(data[part]):
            for _ in range({'quick': 1, 'thorough': 12}[tier]):
                res.append(dict(s=rng.getrandbits(48), how=part, i=i))
    for _ in range({'quick': 6, 'thorough': 80}[tier]):
        for name in sig.NAMES:
            w = ec.CURVES[name].size // 64
            for how in ('base', 'iso', 'm=p', 'off', 'off', 'off', 'mode', 'nonpos', 'missing', 'tamper', 'tamper'):
                res.append(dict(s=rng.getrandbits(48), how=how, curve=name, w=w))
            if ec.CURVES[name].edwards:
                for _ in range(2):
                    res.append(dict(s=rng.getrandbits(48), how='ed-field', curve=name, w=w))
                for how in ('ed-base', 'ed-base', 'ed-twist', 'ed-twist', 'ed-off', 'ed-off', 'ed-m=p', 'ed-mode'):
                    res.append(dict(s=rng.getrandbits(48), how=how, curve=name, w=w))
    return res


def meets(bits, c):
    """The requirements the property lists, on a canonical parameter set."""
    p, q = c['p'], c['q']
    if p <= 0 or q <= 0 or c['m'] == p:
        return False
    if (c['y'] ** 2 - (c['x'] ** 3 + c['a'] * c['x'] + c['b'])) % p:
        return False
    low = {256: 1 << 254, 512: 1 << 508}[bits]
    if not low < q < 1 << bits:
        return False
    v = 1
    for _ in range(BOUND[bits]):
        v = v * p % q
        if v == 1:
            return False
    return True


def canonical(c):
    return dict(p=c.p, a=c.a, b=c.b, m=c.m, q=c.q, x=c.g[0], y=c.g[1])


def ed_add(P, Q, e, d, p):
    """Sum on e u^2 + v^2 = 1 + d u^2 v^2."""
    (u1, v1), (u2, v2) = P, Q
    t = d * u1 * u2 * v1 * v2 % p
    u = (u1 * v2 + v1 * u2) * pow(1 + t, -1, p) % p
    v = (v1 * v2 - e * u1 * u2) * pow(1 - t, -1, p) % p
    return u, v


def construct(mon, mode, params):
    before = dict(params)
    out = mon.attempt('gostsignature.new', gostsignature.new, MODE[mode], params)
    mon.expect(params == before, 'the parameter dictionary was changed')
    return out


def refused(mon, out, where):
    mon.expect(out.kind == 'exc' and type(out.exc) is gostsignature.GOSTSignatureError and
               'invalid parameters of the elliptic curve' in str(out.exc), where + ': must be refused', out.text())
    mon.count('refused')


def again(mon, rng, mode, good):
    """Sets that differ in a few parameters from one that has just been accepted; then that one again."""
    p, q = good['p'], good['q']
    for _ in range(rng.randrange(1, 4)):
        part = rng.choice((dict(q=p - 1), dict(q=p + 1), dict(q=(p - 1) // 2), dict(q=(p + 1) // 2), dict(q=(p - 1) // 4), dict(m=p),
                           dict(q=q >> 3), dict(q=q << 3), dict(q=1), dict(y=(good['y'] + 1) % p), dict(x=(good['x'] + 1) % p),
                           dict(q=p - 1, m=p), dict(x=0, y=1), dict(q=p)))
        params = dict(good, **part)
        detail = ' '.join(sorted(part))
        if not meets(mode, params):
            refused(mon, construct(mon, mode, params), 'mode %d, an accepted set with another %s (%s)' % (mode, detail, hex(list(part.values())[0])))
            mon.state('again', mode, detail)
    if rng.random() < .5:
        refused(mon, construct(mon, 768 - mode, good), 'an accepted set in the other mode')
    out = construct(mon, mode, good)
    mon.expect(out.returned, 'a set accepted before', out.text())


def accepted(mon, rng, out, c, where, use=True):
    """c: reference curve the object has to work on."""
    mon.expect(out.returned, where + ': must be accepted', out.text())
    mon.count('accepted')
    if not use:
        return
    obj = out.value
    if c.size == 32 or rng.random() < .3:
        again(mon, rng, 8 * c.size, canonical(c))
    for d in (1, 2, 3, scalar(rng, c)[1]):
        mon.same(where + ': public key of %d' % (d if d < 4 else -1),
                 mon.must('public_key_generate', obj.public_key_generate, typed(sig.enc(d, c), rng)), c.encode(c.public(d)))
    if rng.random() < (.6 if c.size == 32 else .25):
        d, k = scalar(rng, c)[1], scalar(rng, c)[1]
        digest = sig.digest_of(rng, c)[1]
        want = c.sign(d, digest, k)
        if want:
            mon.same(where + ': signature', mon.must('sign', obj.sign, sig.enc(d, c), digest, sig.enc(k, c)), want)
            ok = mon.must('verify', obj.verify, c.encode(c.public(d)), digest, want)
            mon.expect(ok is True, where + ': rejects its own signature')
    mon.count('usable')


def ed_field(case, mon, rng):
    """Edwards form over the fields of the other sets (the order is theirs, not that of the curve): conversions one after another."""
    names = sig.C256 if ec.CURVES[case['curve']].size == 32 else sig.C512
    for name in rng.sample(names, 2):
        c = ec.CURVES[name]
        p, q = c.p, c.q
        while True:
            e, u, v = rng.choice((1, rng.randrange(2, p))), rng.randrange(2, p), rng.randrange(2, p)
            d = (e * u * u + v * v - 1) * pow(u * u * v * v, -1, p) % p
            if d and d != e and (v - 1) % p and (v + 1) % p:
                break
        want = ec.from_edwards(name, p, e, d, u, v, q, c.m)
        if not meets(8 * c.size, canonical(want)):
            continue
        where = 'Edwards form over the field of %s' % name
        out = construct(mon, 8 * c.size, dict(p=p, e=e, d=d, m=c.m, q=q, u=u, v=v))
        mon.expect(out.returned, where + ': must be accepted', out.text())
        mon.count('accepted')
        for k in (1, 2, 3, scalar(rng, c)[1]):
            mon.same(where + ': public key of %d' % (k if k < 4 else -1),
                     mon.must('public_key_generate', out.value.public_key_generate, typed(sig.enc(k, c), rng)), want.encode(want.public(k)))
        mon.count('edwards accepted')
        mon.state('ed-field', name, e == 1)


def run(case, mon):
    mon.budget = 30
    rng = rng_of(case)
    how = case['how']
    if how == 'degree':
        e = generated()['mov'][case['i']]
        mode, t, params = e['mode'], e['t'], dict(e['curve'])
        where = 'mode %d, embedding degree %d' % (mode, t)
        out = construct(mon, mode, params)
        if t <= BOUND[mode]:
            refused(mon, out, where)
            mon.count('degree refused')
        else:
            accepted(mon, rng, out, None, where, use=False)
        mon.state('degree', mode, t)
        return
    if how in ('accept', 'range'):
        e = generated()[how][case['i']]
        mode, params = e['mode'], dict(e['curve'])
        where = 'mode %d, generated curve, %s' % (mode, e['why'])
        out = construct(mon, mode, params)
        if how == 'range':
            refused(mon, out, where)
        else:
            c = ec.Curve('generated', params['p'], params['a'], params['b'], params['q'], params['x'], params['y'], params['m'])
            # the coordinates have to fit the encoding
            accepted(mon, rng, out, c, where, use=params['p'] < 1 << mode)
        mon.state(how, mode, case['i'])
        return
    if how == 'ed-field':
        return ed_field(case, mon, rng)
    name = case['curve']
    c = ec.CURVES[name]
    mode, p, q = 8 * c.size, c.p, c.q
    where = '%s %s' % (name, how)
    if how.startswith('ed-'):
        e, d, u, v = (c.edwards[k] for k in 'eduv')
        if how in ('ed-base', 'ed-twist'):
            k = scalar(rng, c)[1]
            P, base = None, (u, v)
            for bit in bin(k)[2:]:
                P = ed_add(P, P, e, d, p) if P else None
                if bit == '1':
                    P = ed_add(P, base, e, d, p) if P else base
            if rng.random() < .2:
                P, k = (u, v), 1
            u, v = P
        if how == 'ed-twist':
            lam = rng.randrange(1, p)
            e, d, u = e * lam * lam % p, d * lam * lam % p, u * pow(lam, -1, p) % p
        m = c.m
        params = dict(p=p, e=e, d=d, m=m, q=q, u=u, v=v)
        if how == 'ed-m=p':
            params['m'] = p
            refused(mon, construct(mon, mode, params), where)
        elif how == 'ed-mode':
            refused(mon, construct(mon, 768 - mode, params), where)
        elif how == 'ed-off':
            key = rng.choice('eduv')
            params[key] = rng.choice(((params[key] + 1) % p, params[key] * 2 % p, rng.randrange(2, p)))
            e, d, u, v = (params[k] for k in 'eduv')
            if (e * u * u + v * v - 1 - d * u * u * v * v) % p == 0 or v == 1 or not u or e == d:
                return
            refused(mon, construct(mon, mode, params), where + ' (%s changed)' % key)
            mon.state(how, name, key)
            return
        else:
            want = ec.from_edwards(name, p, e, d, u, v, q, m)
            out = construct(mon, mode, params)
            accepted(mon, rng, out, want, where)
            mon.count('edwards accepted')
        mon.state(how, name)
        return
    params = canonical(c)
    detail = ''
    if how == 'base':
        k = scalar(rng, c)[1]
        G = c.mul(k)
        c = ec.Curve(name, p, c.a, c.b, q, G[0], G[1], c.m)
        params = canonical(c)
    elif how == 'iso':
        t = rng.randrange(2, p)
        c = ec.Curve(name, p, c.a * t ** 4, c.b * t ** 6, q, c.g[0] * t ** 2, c.g[1] * t ** 3, c.m)
        params = canonical(c)
    elif how == 'm=p':
        params['m'] = p
    elif how == 'mode':
        mode = 768 - mode
    elif how == 'nonpos':
        detail = rng.choice('pq')
        params[detail] = rng.choice((0, -1, -params[detail]))
    elif how == 'missing':
        detail = rng.choice(('p', 'q', 'a', 'b', 'y'))
        del params[detail]
        full = dict(dict(p=1, a=0, b=0, m=1, q=1, x=0, y=0), **params)
        if meets(mode, full) or detail == 'p':
            detail = 'q'
            params.pop('q', None)
    elif how in ('off', 'tamper'):
        detail = rng.choice('abxyp')
        d = rng.choice((1, -1, 2)) if how == 'off' else (1 << rng.randrange(8 * c.size)) * rng.choice((1, -1))
        params[detail] = params[detail] + d
        if how == 'off' and rng.random() < .5:
            # a base point or an equation changed as a whole, or in two places
            detail = rng.choice(('swap', 'x0', 'y0', '00', 'ab', '-a', '-b', '-x', 'a0', 'b0', 'two', 'random', 'y2', '11'))
            params = canonical(c)
            x, y, a, b = (params[k] for k in 'xyab')
            params.update({'swap': dict(x=y, y=x), 'x0': dict(x=0), 'y0': dict(y=0), '00': dict(x=0, y=0), 'ab': dict(a=b, b=a),
                           '-a': dict(a=-a % p), '-b': dict(b=-b % p), '-x': dict(x=-x % p), 'a0': dict(a=0), 'b0': dict(b=0),
                           'two': {rng.choice('xy'): rng.randrange(p), rng.choice('ab'): rng.randrange(p)},
                           'random': dict(x=rng.randrange(p), y=rng.randrange(p)), 'y2': dict(y=2 * y % p), '11': dict(x=1, y=1)}[detail])
        if detail != 'p':
            params.update({k: params[k] % p for k in 'abxy'})
        if params['p'] <= 0 or not any(params[k] for k in 'abxy'):
            return
    full = dict(dict(p=1, a=0, b=0, m=1, q=1, x=0, y=0), **params)
    want = meets(mode, full)
    out = construct(mon, mode, params)
    if want:
        if how in ('base', 'iso'):
            accepted(mon, rng, out, c, where)
        elif how in ('off', 'tamper'):
            accepted(mon, rng, out, c, where + ' ' + detail, use=False)
        else:
            mon.expect(False, 'harness: %s unexpectedly meets the requirements' % where)
    else:
        refused(mon, out, where + ' ' + detail)
    mon.state(how, name, detail, want)
