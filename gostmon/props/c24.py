"""C24: a rejected call leaves the object as it was."""

import array

from . import age, script, sig
from .common import gen, rng_of, gosthash, gosthmac, gostpbkdf, gostrandom, gostsignature

FILES = ('gosthash/gost_34_11_2012.py', 'gosthmac/r_50_1_113_2016.py', 'gostpbkdf/r_50_1_111_2016.py',
         'gostrandom/r_1323565_1_006_2017.py', 'gostsignature/gost_34_10_2012.py')
RULE = ('case = a history of one hash, HMAC, generator, derivation or signature object (and its copies), executed as it is and '
        'again with 1..3 invalid calls inserted before about half of its steps: data, seeds, keys and digests of every wrong type (text, list, tuple, '
        'memoryview, array, None, numbers), of lengths around the documented one, derived-key sizes past the limit, unusable '
        'signature numbers; verifications with several keys, and up to some thousand rejected calls on one object. Oracle: the invalid call raises the exception of the module, all other results are those of the '
        'first execution. Distinct = (kind, invalid call, argument class, following call); non-trivial = a later result compared.')
ASSUMES = ('cipher and MAC objects wipe their key on a rejected argument, so they are not claimed',)
REACH = {'rejected': 3000, 'compared after a rejection': 2500}

KINDS = ('hash', 'hash', 'hash', 'hmac', 'hmac', 'hmac', 'random', 'random', 'random', 'pbkdf', 'pbkdf', 'signature')
ERR = dict(hash=gosthash.GOSTHashError, hmac=gosthmac.GOSTHMACError, random=gostrandom.GOSTRandomError,
           pbkdf=gostpbkdf.GOSTPBKDFError, signature=gostsignature.GOSTSignatureError)


def cases(tier, rng):
    res = [dict(s=rng.getrandbits(48), kind=k) for _ in range({'quick': 130, 'thorough': 4000}[tier]) for k in KINDS]
    for _ in range({'quick': 40, 'thorough': 1000}[tier]):
        res.append(dict(s=rng.getrandbits(48), kind='keys'))
    for kind in ('hash', 'hmac', 'random', 'pbkdf', 'signature'):
        for n in (130, 260, 520, 1030, 4100) + ((66000,) if tier == 'thorough' else ()):
            res.append(dict(s=rng.getrandbits(48), kind='many', of=kind, n=n, w=1))
    return res


def crossed(case, mon, rng):
    """Verifications with several public keys, some of which meet only rejected calls at first."""
    name = rng.choice(sig.C256)
    c = sig.ec.CURVES[name]
    obj = mon.must('gostsignature.new', gostsignature.new, sig.mode_of(c), sig.SUPPLIED[name])
    n = c.size
    signed = []
    while len(signed) < 3:
        d, k, digest = rng.randrange(2, 1 << 20), rng.randrange(1 << 60, 1 << 80), rng.randbytes(n)
        s = c.sign(d, digest, k)
        if s:
            signed.append((c.encode(c.public(d)), digest, s))
    trail = []
    for _ in range(rng.randrange(4, 9)):
        i = rng.randrange(3)
        pub, digest, s = signed[i]
        how = rng.choice(('valid', 'valid', 'digest', 'signature', 'off curve', 'other digest', 'sign', 'public'))
        trail.append('%s %d' % (how, i))
        where = '%s %s' % (name, trail)
        bad = None
        if how == 'valid':
            got = mon.must('verify', obj.verify, pub, digest, s)
            mon.expect(got is True, where + ': a valid signature', 'verify returned %r' % (got,))
            mon.count('compared after a rejection')
        elif how == 'other digest':
            got = mon.must('verify', obj.verify, pub, rng.randbytes(n), s)
            mon.expect(got is False, where + ': a signature for something else', 'verify returned %r' % (got,))
        elif how == 'digest':
            bad = 'verify', (pub, wrong(rng, n, True)[1], s)
        elif how == 'signature':
            bad = 'verify', (pub, digest, wrong(rng, 2 * n, True)[1])
        elif how == 'off curve':
            bad = 'verify', (pub[:n] + bytes([pub[n] ^ 1]) + pub[n + 1:], digest, s)
        elif how == 'sign':
            bad = 'sign', (wrong(rng, n, True)[1], digest)
        else:
            bad = 'public_key_generate', (wrong(rng, n, True)[1],)
        if bad:
            out = mon.attempt(bad[0] + ' (invalid)', getattr(obj, bad[0]), *bad[1])
            if not (out.returned and out.value is False and how == 'off curve'):
                mon.expect(out.kind == 'exc' and isinstance(out.exc, ERR['signature']), where, out.text())
                mon.count('rejected')
        mon.state('crossed', how, len(trail))


def many(case, mon, rng):
    """Hundreds of rejected calls on one object; then it does what its untouched twin does."""
    kind = case['of']
    seed = rng.getrandbits(32)
    pair = []
    for _ in range(2):
        label, obj, extra = age.fresh(kind, type(rng)(seed))
        pair.append(obj)
    obj, twin = pair
    n = age.number(rng, case['n']) // (2 if kind == 'signature' else 1)
    half = rng.randrange(n)
    key, digest = bytes(range(1, 33)), rng.randbytes(32)

    def compare(i):
        for o in pair:
            if kind in ('hash', 'hmac'):
                mon.must('update', o.update, digest[:i % 7 + 1])
        f = {'hash': lambda o: bytes(o.digest()), 'hmac': lambda o: bytes(o.digest()), 'random': lambda o: bytes(o.random()),
             'pbkdf': lambda o: bytes(o.derive(40)) + bytes(o.salt),
             'signature': lambda o: bytes(o.public_key_generate(key)) + bytes(o.sign(key, digest, key[::-1]))}[kind]
        got, want = mon.must('the object', f, obj), mon.must('its twin', f, twin)
        mon.expect(got == want, '%s after %d rejected calls' % (label, i), 'observed %s, without them %s' % (got.hex(), want.hex()))
        mon.count('compared after a rejection')

    compare(0)

    def reject():
        m = rng.choice(('verify', 'sign', 'public_key_generate'))
        if kind != 'signature':
            method, _, args = invalid(rng, kind, [(None, None, None, None, {'size_s': 32})], None)
        elif m == 'verify':
            method, args = m, (bytes(64), digest, wrong_length(rng, 64)[1])
        elif m == 'sign':
            method, args = m, (wrong(rng, 32)[1], digest)
        else:
            method, args = m, (wrong(rng, 32)[1],)
        try:
            getattr(obj, method)(*args)
        except ERR[kind]:
            return None
        return method, args

    for i in range(1, n + 1):
        bad = mon.must('%s: an invalid call' % label, reject) if i % 16 == 0 else reject()
        mon.expect(not bad, '%s: the invalid call number %d was accepted' % (label, i), repr(bad)[:200])
        if i == half or i == n:
            compare(i)
    mon.count('rejected', n)
    mon.state('many', kind, n.bit_length())


def wrong_type(rng, n):
    """(class, value) that is not a byte string."""
    kind = rng.choice(('None', 'str', 'str0', 'list', 'tuple', 'memoryview', 'array', 'int', 'float', 'range', 'dict', 'true'))
    n = n or 1
    return kind, {'None': None, 'str': 'a' * n, 'str0': '', 'list': list(rng.randbytes(n)), 'tuple': tuple(rng.randbytes(n)),
                  'memoryview': memoryview(rng.randbytes(n)), 'array': array.array('B', rng.randbytes(n)), 'int': rng.randrange(1, 300),
                  'float': 2.5, 'range': range(n), 'dict': {0: 1}, 'true': True}[kind]


def wrong_length(rng, n, allow_empty=False):
    """(class, octets of another length)."""
    while True:
        m = max(0, rng.choice((n - 1, n + 1, n // 2, 2 * n, 64, 63, 32, 1, 0, rng.randrange(2 * n + 2))))
        if m != n and (m or allow_empty):
            return 'length', gen(rng, m, 'rand')


def wrong(rng, n, allow_empty=False):
    return wrong_type(rng, n) if rng.random() < .5 else wrong_length(rng, n, allow_empty)


def invalid(rng, kind, steps, slot):
    """(method, class, args) of a call that has to be rejected."""
    if kind in ('hash', 'hmac'):
        cls, v = wrong_type(rng, rng.choice((1, 63, 64, 65)))
        return 'update', cls, (v,)
    if kind == 'random':
        cls, v = wrong(rng, steps[0][4].get('size_s', 48))
        return 'reset', cls, (v,)
    if kind == 'pbkdf':
        top = (2 ** 32 - 1) * 64
        return rng.choice(('derive', 'hexderive')), 'size', (top + rng.choice((1, 2, 64, 65, top, 1 << 70)),)
    c = sig.ec.CURVES[steps[0][3][0]]
    n = c.size
    key, digest = sig.enc(sig.scalar(rng, c)[1], c), sig.digest_of(rng, c)[1]
    which = rng.choice(('sign key', 'sign digest', 'sign number', 'sign number', 'sign zero key', 'public', 'verify key', 'verify digest', 'verify sig'))
    cls, v = wrong(rng, n, True)
    if which == 'sign key':
        return 'sign', which + cls, (v, digest) + rng.choice(((), (sig.enc(sig.scalar(rng, c)[1], c),)))
    if which == 'sign digest':
        return 'sign', which + cls, (key, v) + rng.choice(((), (sig.enc(sig.scalar(rng, c)[1], c),)))
    if which == 'sign number':
        cls, v = rng.choice((('zero', bytes(n)), ('q', sig.enc(c.q, c)), ('ff', b'\xff' * n), wrong_type(rng, n)))
        return 'sign', which + cls, (key, digest, v)
    if which == 'sign zero key':
        return 'sign', which, (bytes(n), digest)
    if which == 'public':
        return 'public_key_generate', which + cls, (v,)
    pub = c.encode(c.public(5))
    if which == 'verify digest':
        return 'verify', which + cls, (pub, v, rng.randbytes(2 * n))
    cls, v = wrong(rng, 2 * n, True)
    if which == 'verify key':
        if rng.random() < .3:
            cls, v = 'off curve', pub[:n] + bytes([pub[n] ^ 1]) + pub[n + 1:]
        return 'verify', which + cls, (v, digest, rng.randbytes(2 * n))
    return 'verify', which + cls, (pub, digest, v)


def run(case, mon):
    rng = rng_of(case)
    kind = case['kind']
    if kind in ('keys', 'many'):
        return (crossed if kind == 'keys' else many)(case, mon, rng)
    steps = script.with_attributes(rng, kind, script.KINDS[kind](rng), .3)
    plain = script.Executor(mon, 'plain ').run(steps)
    ex = script.Executor(mon, '')
    last = None
    for i, step in enumerate(steps):
        live = sorted(ex.objects)
        if live and rng.random() < .55 or i == len(steps) - 1:
            for _ in range(rng.choice((1, 1, 2, 3))):
                slot = rng.choice(live)
                method, cls, args = invalid(rng, kind, steps, slot)
                out = mon.attempt('%s.%s (invalid)' % (slot, method), getattr(ex.objects[slot], method), *args)
                if method == 'verify' and out.returned and out.value is False:
                    mon.state('refused', kind, cls)      # an answer instead of a rejection
                else:
                    mon.expect(out.kind == 'exc' and isinstance(out.exc, ERR[kind]), '%s.%s with an invalid argument (%s)' % (kind, method, cls), out.text())
                    mon.count('rejected')
                last = (method, cls)
        got = ex.do(step)
        mon.expect(got == plain[i], '%s after a rejected %s call' % (script.text(step), last), 'observed %s, without the rejected call %s' % (got, plain[i]))
        if last:
            mon.count('compared after a rejection')
            mon.state('after', kind, last, step[2])
    if kind == 'signature':
        unnumbered(mon, rng, ex.objects[live[0]] if live else ex.objects['o'], steps[0][3][0])


def unnumbered(mon, rng, obj, name):
    """A signature without a number, after rejected calls that had one."""
    c = sig.ec.CURVES[name]
    d, k = rng.randrange(1, c.q), rng.randrange(1, c.q)
    key, digest, number = sig.enc(d, c), rng.randbytes(c.size), sig.enc(k, c)
    bad = rng.choice(((key, wrong(rng, c.size, True)[1], number), (wrong(rng, c.size, True)[1], digest, number), (bytes(c.size), digest, number)))
    out = mon.attempt('sign (invalid)', obj.sign, *bad)
    mon.expect(out.kind == 'exc' and isinstance(out.exc, ERR['signature']), 'sign with an invalid argument and a number', out.text())
    made = bytes(mon.must('sign', obj.sign, key, digest))
    given = c.sign(d, digest, k)
    mon.expect(len(made) == 2 * c.size and made != given and c.verify(c.encode(c.public(d)), digest, made),
               'a signature made after a rejected call with a number', 'observed %s, with the number of the rejected call %s' % (made.hex(), given.hex() if given else given))
    mon.count('compared after a rejection')
