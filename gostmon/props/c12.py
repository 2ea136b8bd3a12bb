"""C12: public keys and signatures are the standard ones, and they verify."""

from . import age, sig
from .sig import ec, enc, scalar
from .common import typed, rng_of

FILES = ('gostsignature/gost_34_10_2012.py',)
RULE = ('case = one of the seven supplied parameter sets x private key d (random, tiny, q-1.., powers of two, all-ones, short, '
        'd above q) x digest (random, 0, q, 2q, q+-1, all ones) x random number k (same shapes, or drawn by the library), '
        'plus constructed cases: r, s, public x or y with leading zero octets, s equal to chosen values, coinciding points '
        'in the verification sum (d = -ke/2r), abscissa above q on the cofactor-4 sets, chains of related calls on one object, and thousands of calls with small numbers on one object. Oracle: public key and signature '
        'equal the reference octets, and the library verifies its own signature. Distinct = (set, construction, shapes of '
        'd, k, digest); non-trivial = a signature or public key was compared.')
ASSUMES = ('reference model of GOST R 34.10-2012 checked by gostmon.selftest (standard example, number theory, libgcrypt)',)
REACH = {'chained calls': 400, 'signatures': 150, 'verified': 120, 'short r': 6, 'short s': 6, 'short public': 6, 'coinciding points': 6,
         'library random': 10, 'digest zero mod q': 10}
HOWS = ('plain',) * 9 + ('short_r', 'short_s', 'short_pub', 'coincide', 'lib_k', 'lib_k', 'pub_only', 'pub_only', 'd_ge_q')


def cases(tier, rng):
    res = []
    n256, n512 = {'quick': (460, 60), 'thorough': (9000, 1500)}[tier]
    for names, n, w in ((sig.C256, n256, 0), (sig.C512, n512, 1)):
        for i in range(n):
            res.append(dict(s=rng.getrandbits(48), curve=names[i % len(names)], how=HOWS[(i // len(names)) % len(HOWS)], w=w))
    for _ in range({'quick': 100, 'thorough': 2000}[tier]):
        res.append(dict(s=rng.getrandbits(48), curve=rng.choice(sig.C256), how='chain'))
    for _ in range({'quick': 10, 'thorough': 200}[tier]):
        res.append(dict(s=rng.getrandbits(48), curve=rng.choice(sig.C512), how='chain', w=1))
    for n in (1030, 4100) + ((66000,) if tier == 'thorough' else ()):
        res.append(dict(s=rng.getrandbits(48), curve=rng.choice(sig.C256), how='many', n=n, w=5))
    return res


def many(case, mon, rng):
    """Thousands of signatures and public keys (small numbers) from one object."""
    name, n = case['curve'], age.number(rng, case['n'])
    c = ec.CURVES[name]
    obj = sig.obj_of(mon, name, fresh=True)
    pool = []
    while len(pool) < 24:
        d, k, digest = rng.randrange(2, 40), rng.randrange(2, 40), sig.digest_of(rng, c)[1]
        want = c.sign(d, digest, k)
        if want:
            pool.append((enc(d, c), digest, enc(k, c), want, c.encode(c.public(d))))
    ops = rng.choice(('s', 'sp', 'p', 'spv'))

    def step(i):
        d, digest, k, want, pub = pool[i % 24]
        op = ops[i % len(ops)]
        if op == 's':
            return age.differs(obj.sign(d, digest, k), want)
        if op == 'p':
            return age.differs(obj.public_key_generate(d), pub)
        if i % 16:
            return None
        got = obj.verify(pub, digest, want)
        return None if got is True else 'verify returned %r' % (got,)
    age.many(mon, '%s calls (%s)' % (name, ops), n, step)
    for d, digest, k, want, pub in pool[:4]:
        mon.same('public key after %d calls' % n, mon.must('public_key_generate', obj.public_key_generate, d), pub)
        mon.same('signature after %d calls' % n, mon.must('sign', obj.sign, d, digest, k), want)
        ok = mon.must('verify', obj.verify, pub, digest, want)
        mon.expect(ok is True, 'verification after %d calls' % n, repr(ok))
    d, k, digest = rng.randrange(1, c.q), rng.randrange(1, c.q), rng.randbytes(c.size)
    made = bytes(mon.must('sign', obj.sign, enc(d, c), digest))
    mon.expect(c.verify(c.encode(c.public(d)), digest, made), 'a signature with a drawn number after %d calls' % n, made.hex())
    mon.count('chained calls', n)


def chain(case, mon, rng):
    """One object, a sequence of calls whose numbers are related to those of the calls before."""
    name = case['curve']
    c = ec.CURVES[name]
    obj = sig.obj_of(mon, name, fresh=True)
    pool, digests, seen = [scalar(rng, c)[1]], [sig.digest_of(rng, c)[1]], []

    def number():
        x = rng.random()
        if x < .35:
            return 'again', rng.choice(pool)
        how, v = sig.relative(rng, rng.choice(pool), c.q) if x < .9 else scalar(rng, c)
        pool.append(v)
        return how, v

    trail = []
    for step in range(4 if c.size == 64 else 8):
        op = rng.choice(('public', 'public', 'sign', 'sign', 'sign', 'verify'))
        if op == 'verify' and not seen:
            op = 'sign'
        trail.append(op)
        where = '%s call %d of %s on one object' % (name, step, trail)
        if op == 'public':
            how, d = number()
            pub = mon.must('public_key_generate', obj.public_key_generate, typed(enc(d, c), rng))
            mon.same(where + ': public key', pub, c.encode(c.public(d)))
            mon.state('chain', name, op, how)
        elif op == 'sign':
            (dh, d), (kh, k) = number(), number()
            if rng.random() < .3:
                digests.append(sig.digest_of(rng, c)[1] if rng.random() < .6 else
                               enc(sig.relative(rng, int.from_bytes(digests[-1], 'big') or 1, c.q)[1], c))
            digest = rng.choice(digests)
            want = c.sign(d, digest, k)
            if want is None:
                continue
            s = mon.must('sign', obj.sign, typed(enc(d, c), rng), typed(digest, rng), typed(enc(k, c), rng))
            mon.same(where + ': signature', s, want)
            seen.append((d, digest, bytes(s)))
            mon.state('chain', name, op, dh, kh)
        else:
            d, digest, s = rng.choice(seen)
            ok = mon.must('verify', obj.verify, typed(c.encode(c.public(d)), rng), typed(digest, rng), typed(s, rng))
            mon.expect(ok is True, where + ': the library rejects its own signature', 'returned %r' % (ok,))
            mon.count('verified')
        mon.count('chained calls')


def run(case, mon):
    mon.budget = 25
    rng = rng_of(case)
    if case['how'] == 'chain':
        return chain(case, mon, rng)
    if case['how'] == 'many':
        return many(case, mon, rng)
    name, how = case['curve'], case['how']
    c = ec.CURVES[name]
    obj = sig.obj_of(mon, name, fresh=rng.random() < .05)
    dkind, d = scalar(rng, c)
    kkind, k = scalar(rng, c)
    hkind, digest = sig.digest_of(rng, c)
    if how == 'short_r':
        ks = sig.short_x(name)
        k, kkind = rng.choice(ks) if ks else 1, 'short_r'
    elif how == 'short_s':
        target = rng.randrange(1, 1 << 8 * rng.randrange(1, c.size)) if rng.random() < .5 else scalar(rng, c)[1]
        r = c.mul(k)[0] % c.q
        e = (target - r * d) * pow(k, -1, c.q) % c.q
        if e:
            digest, hkind = sig.digest_for(c, e), 'for s'
    elif how == 'short_pub':
        ks = sig.short_xy(name)
        d, dkind = rng.choice(ks) if ks else 1, 'short_pub'
    elif how == 'coincide':
        r = c.mul(k)[0] % c.q
        if r:
            d = -k * c.e_of(digest) * pow(2 * r, -1, c.q) % c.q
            dkind = 'coincide'
    d_bytes = enc(d, c)
    if how == 'd_ge_q' and d + c.q < 1 << 8 * c.size:
        d_bytes, dkind = enc(d + c.q * rng.choice((1, ((1 << 8 * c.size) - 1 - d) // c.q)), c), 'd+q'
    Q = c.public(d)
    where = '%s d=%s k=%s digest=%s (%s)' % (name, dkind, kkind, hkind, how)
    pub = mon.must('public_key_generate', obj.public_key_generate, typed(d_bytes, rng))
    mon.same(where + ': public key', pub, c.encode(Q))
    mon.count('public keys')
    if Q[0] >> 8 * (c.size - 1) == 0 or Q[1] >> 8 * (c.size - 1) == 0:
        mon.count('short public')
    mon.state('public', name, dkind, how)
    if how == 'pub_only':
        return
    if how == 'lib_k':
        s = mon.must('sign (random number drawn)', obj.sign, typed(d_bytes, rng), typed(digest, rng))
        mon.expect(isinstance(s, (bytes, bytearray)) and len(s) == 2 * c.size, where + ': signature length', str(s))
        mon.expect(c.verify(c.encode(Q), digest, bytes(s)), where + ': the reference rejects the signature', bytes(s).hex())
        mon.count('library random')
    else:
        want = c.sign(d, digest, k)
        if want is None:      # r or s zero: decided by C14
            mon.count('unusable k')
            return
        s = mon.must('sign', obj.sign, typed(d_bytes, rng), typed(digest, rng), typed(enc(k, c), rng))
        mon.same(where + ': signature', s, want)
        if s[0] == 0:
            mon.count('short r')
        if s[c.size] == 0:
            mon.count('short s')
        if how == 'coincide' and dkind == 'coincide':
            mon.count('coinciding points')
        if c.mul(k)[0] >= c.q:
            mon.count('abscissa above q')
    mon.count('signatures')
    if not int.from_bytes(digest, 'big') % c.q:
        mon.count('digest zero mod q')
    if c.size == 32 or rng.random() < .7 or how in ('coincide', 'short_r', 'short_s'):
        ok = mon.must('verify', obj.verify, typed(pub, rng), typed(digest, rng), typed(s, rng))
        mon.expect(ok is True, where + ': the library rejects its own signature', 'returned %r' % (ok,))
        mon.count('verified')
    mon.state('signature', name, dkind, kkind, hkind, how)
