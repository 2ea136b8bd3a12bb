"""C14: unusable random numbers are never used, signing always ends."""

import functools

from gostmon.entropy import SOURCE, scripted
from . import sig
from .sig import ec, enc, scalar
from .common import typed, rng_of, gostsignature

FILES = ('gostsignature/gost_34_10_2012.py',)
RULE = ('case = a supplied set, or one with a base point chosen so that a given multiple has abscissa 0 modulo q, x random '
        'number: supplied by the caller (0, q, q+1, q+small, all ones, one with r = 0, one with s = 0, usable boundary values 1 '
        'and q-1, usable ones for which r or s has a chosen shape) or drawn by the library from a scripted entropy source that first hands out 1..60 such unusable numbers. '
        'Oracle: caller-supplied unusable numbers raise the documented exception within the CPU budget, usable ones give the '
        'reference signature; for drawn numbers the signature verifies by the reference, r and s are in 1..q-1 and the nonce '
        'recovered from it is none of the unusable numbers handed out. Distinct = (set, kind of number, who supplies it, '
        'outcome); non-trivial = outcome compared.')
ASSUMES = ('reference model of GOST R 34.10-2012 checked by gostmon.selftest',
           'the library reads its random numbers through os.urandom, os.getrandom, secrets or random.SystemRandom')
REACH = {'rejected': 150, 'r=0 rejected': 12, 's=0 rejected': 30, 'usable': 40, 'redrawn': 60, 'redrawn after r=0': 8,
         'redrawn after s=0': 15, 'redrawn after range': 30}
KINDS = ('zero', 'q', 'q+1', 'q+small', 'ff', 'r=0', 'r=0', 's=0', 's=0', 's=0d', 'one', 'q-1', 'ok', 's=', 's=', 'r=')


def cases(tier, rng):
    res = []
    n256, n512 = {'quick': (560, 110), 'thorough': (8000, 1800)}[tier]
    for names, n, w in ((sig.C256, n256, 0), (sig.C512, n512, 1)):
        for i in range(n):
            res.append(dict(s=rng.getrandbits(48), curve=names[i % len(names)], who='caller',
                            kind=KINDS[(i // len(names)) % len(KINDS)], w=w))
        for i in range(n // 2):
            res.append(dict(s=rng.getrandbits(48), curve=names[i % len(names)], who='library', w=w,
                            kind=('range', 'r=0', 's=0', 'mixed', 'many')[(i // len(names)) % 5]))
    return res


@functools.lru_cache(None)
def zero_r_points(name):
    """Points of the subgroup whose abscissa is 0 modulo q."""
    c = ec.CURVES[name]
    return tuple(P for P in (sig.point_at(c, x) for x in range(0, c.p, c.q)) if P)


def with_point(mon, c, P, j):
    """A curve whose generator G satisfies jG = P, and an object on it."""
    G = c.mul(pow(j, -1, c.q), P)
    c2 = ec.Curve(c.name, c.p, c.a, c.b, c.q, G[0], G[1], c.m)
    obj = mon.must('gostsignature.new(own base point)', gostsignature.new, sig.mode_of(c),
                   dict(p=c.p, a=c.a, b=c.b, m=c.m, q=c.q, x=G[0], y=G[1]))
    return c2, obj


def run(case, mon):
    mon.budget = 20
    rng = rng_of(case)
    name, who, kind = case['curve'], case['who'], case['kind']
    c, obj = ec.CURVES[name], sig.obj_of(mon, name)
    q = c.q
    top = 1 << 8 * c.size
    dkind, d = scalar(rng, c)
    hkind, digest = sig.digest_of(rng, c)

    def out_of_range():
        v = rng.choice((0, q, q + 1, q + rng.randrange(1, 1000), top - 1, rng.randrange(q, top)))
        return v if v < top else top - 1

    j = None
    if kind == 'r=0' or kind == 'mixed':
        j = rng.choice((1, 1, 2, 3, q - 1, rng.randrange(1, q)))
        points = zero_r_points(name)
        if not points:
            if kind == 'r=0':
                if name.endswith('paramSetD'):
                    mon.expect(False, 'harness: paramSetD has a base point with x = 0')
                kind = 's=0'
            j = None
        else:
            P = rng.choice(points)
            c, obj = with_point(mon, c, P if rng.random() < .5 else c.neg(P), j)

    def zero_s(k):
        """Digest that makes s = 0 for this k."""
        r = c.mul(k)[0] % q
        return -r * d * pow(k, -1, q) % q

    if who == 'caller':
        k = {'zero': 0, 'q': q, 'q+1': q + 1, 'q+small': q + rng.randrange(2, 1000), 'ff': top - 1, 'one': 1,
             'q-1': q - 1, 'r=0': rng.choice((j, q - j)) if j else 1}.get(kind) if kind in (
                 'zero', 'q', 'q+1', 'q+small', 'ff', 'one', 'q-1', 'r=0') else scalar(rng, c)[1]
        if k >= top:
            k = top - 1
        if kind == 's=0':
            e = zero_s(k)
            if not e:
                return
            digest = sig.digest_for(c, e)
        elif kind == 's=0d':
            r = c.mul(k)[0] % q
            if not r:
                return
            d = -k * c.e_of(digest) * pow(r, -1, q) % q
        elif kind == 's=':        # usable: s of a chosen shape
            r = c.mul(k)[0] % q
            e = (scalar(rng, c)[1] - r * d) * pow(k, -1, q) % q
            if e:
                digest = sig.digest_for(c, e)
        elif kind == 'r=':        # usable: r of a chosen shape
            c, obj = with_point(mon, c, sig.shaped_point(rng, c), k)
        want = c.sign(d, digest, k)
        out = mon.attempt('sign', obj.sign, typed(enc(d, c), rng), typed(digest, rng), typed(enc(k, c), rng))
        where = '%s random number %s, d=%s, digest=%s' % (name, kind, dkind, hkind)
        if want is None:
            mon.expect(out.kind == 'exc' and type(out.exc) is gostsignature.GOSTSignatureError and
                       'invalid random value' in str(out.exc), where + ': must be rejected as invalid random value', out.text())
            mon.count('rejected')
            if kind == 'r=0':
                mon.count('r=0 rejected')
            if kind in ('s=0', 's=0d'):
                mon.count('s=0 rejected')
        else:
            mon.expect(out.returned, where + ': usable, but', out.text())
            mon.same(where, out.value, want)
            mon.count('usable')
        mon.state('caller', name, kind, want is None, dkind)
        return
    # drawn by the library
    script = []
    if kind in ('range', 'mixed'):
        script += [out_of_range() for _ in range(rng.randrange(1, 8))]
    if kind == 'many':
        script += [out_of_range() for _ in range(rng.randrange(20, 60))]
    if j:
        script += [rng.choice((j, q - j)) for _ in range(rng.randrange(1, 3))]
    if kind in ('s=0', 'mixed'):
        k0 = scalar(rng, c)[1]
        e = zero_s(k0)
        if e:
            digest = sig.digest_for(c, e)
            script += [k0] * rng.randrange(1, 3)
    if rng.random() < .5:
        rng.shuffle(script)
    bad = {v % q for v in script}
    script.append(rng.randrange(1, q))
    if script[-1] in bad:
        return
    SOURCE.feed(scripted([enc(v, c) for v in script], rng))
    try:
        out = mon.attempt('sign (random number drawn)', obj.sign, typed(enc(d, c), rng), typed(digest, rng))
    finally:
        drawn = SOURCE.stop()
    where = '%s drawn random number (%s, %d unusable first)' % (name, kind, len(script) - 1)
    mon.expect(out.returned, where, out.text())
    s = out.value
    mon.expect(isinstance(s, (bytes, bytearray)) and len(s) == 2 * c.size, where + ': signature length', str(s))
    r_, s_ = int.from_bytes(s[:c.size], 'big'), int.from_bytes(s[c.size:], 'big')
    mon.expect(0 < r_ < q and 0 < s_ < q, where + ': r or s out of range', bytes(s).hex())
    mon.expect(c.verify(c.encode(c.public(d)), digest, bytes(s)), where + ': the reference rejects the signature', bytes(s).hex())
    k = (s_ - r_ * d) * pow(c.e_of(digest), -1, q) % q
    mon.expect(k not in bad, where + ': an unusable number was used (modulo q)', hex(k))
    mon.count('redrawn')
    if len(drawn) >= len(script):
        for tag, hit in (('r=0', bool(j)), ('s=0', kind in ('s=0', 'mixed')), ('range', kind in ('range', 'many', 'mixed'))):
            if hit:
                mon.count('redrawn after ' + tag)
    mon.state('library', name, kind, min(len(drawn), 12))
