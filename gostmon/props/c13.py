"""C13: verification accepts exactly the signatures that satisfy the standard equation."""

from . import age, sig
from .sig import ec, enc, scalar
from .common import typed, rng_of, gostsignature

FILES = ('gostsignature/gost_34_10_2012.py',)
RULE = ('case = a supplied parameter set x a construction of (public key, digest, signature): valid ones (signed, or solved '
        'from chosen multipliers z1, z2 incl. 1, 2, q-1, powers of two, coinciding points), one mutation of a valid one (bit, '
        'octet, swap, component + q, q - component, 0, q, all ones; digest + q; key bit, negated key, coordinate + p, '
        'off-curve, coordinates out of range, order-2 point) near misses (r differs from the abscissa in a bit, in two octets, in sign, in the truncated part), one bit of r, s or digest for every bit position, many verifications by one object, sequences of them over triples that share components, keys with an abscissa of a chosen shape, and forgeries whose point sum is the point at infinity (r random, '
        'q-1, x(z1 G), -2x(z1 G), 1). Oracle: the equation evaluated by the reference. Distinct = (set, construction, '
        'mutation, oracle verdict, outcome kind); non-trivial = a verdict of verify() was compared.')
ASSUMES = ('reference model of GOST R 34.10-2012 checked by gostmon.selftest',)
REACH = {'chained': 250, 'near misses': 60, 'one bit': 380, 'accepted': 150, 'refused': 350, 'sum at infinity': 60, 'coinciding points': 20, 'off-curve key': 60,
         'component out of range': 60, 'equivalent digest': 10}

VALID = ('signed', 'solved', 'solved', 'shaped', 'coincide', 'digest0', 'digest+q')
MUT = ('sig-bit', 'sig-bit', 'sig-byte', 'digest-bit', 'key-bit', 'swap', 'r+q', 's+q', 'q-r', 'q-s', 'r=0', 's=0', 'r=q', 's=q',
       'both0', 'ff', 'other-key', 'shaped-key', 'neg-key', 'x+p', 'y+p', 'off-curve', 'key-range', 'key0', 'random', 'other-curve', 'r+1', 's+1')
MISS = 7
FORGE = ('inf-random', 'inf-q-1', 'inf-x', 'inf-2x', 'inf-1', 'inf-trivial')


def cases(tier, rng):
    res = []
    n256, n512 = {'quick': (1250, 200), 'thorough': (20000, 4000)}[tier]
    hows = [('valid', h) for h in VALID] * 3 + [('mutate', h) for h in MUT] + [('forge', h) for h in FORGE] + [('order2', '')] + [('miss', 'miss')] * MISS
    for _ in range({'quick': 50, 'thorough': 1200}[tier]):
        res.append(dict(s=rng.getrandbits(48), curve=rng.choice(sig.C256), group='chain', how='', w=0))
    for _ in range({'quick': 8, 'thorough': 200}[tier]):
        res.append(dict(s=rng.getrandbits(48), curve=rng.choice(sig.C512), group='chain', how='', w=1))
    for names, w in ((sig.C256, 0), (sig.C512, 1)):
        for _ in range({'quick': 1, 'thorough': 8}[tier]):
            for what in ('r', 's', 'h'):
                for bit in range(8 * ec.CURVES[names[0]].size):
                    if tier == 'quick' and rng.random() > (.15 if w else .4) * (2 if what == 'r' else .5):
                        continue
                    res.append(dict(s=rng.getrandbits(48), curve=rng.choice(names), group='onebit', how=what, bit=bit, w=w))
    for names, n, w in ((sig.C256, n256, 0), (sig.C512, n512, 1)):
        for i in range(n):
            group, how = hows[(i // len(names)) % len(hows)]
            res.append(dict(s=rng.getrandbits(48), curve=names[i % len(names)], group=group, how=how, w=w))
    for n in (520, 1030) + ((4100, 20000) if tier == 'thorough' else ()):
        res.append(dict(s=rng.getrandbits(48), curve=rng.choice(sig.C256), group='many', how='', n=n, w=5))
    return res


def many(case, mon, rng):
    """Many verifications (with small multipliers) by one object, valid and not."""
    name, n = case['curve'], age.number(rng, case['n'])
    c = ec.CURVES[name]
    obj = sig.obj_of(mon, name, fresh=True)
    pool = []
    while len(pool) < 16:
        Q = c.public(rng.randrange(2, 1000))
        got = solve(c, Q, rng.randrange(2, 40), rng.randrange(2, 40), rng)
        if got:
            h, r, s = got
            pool.append((c.encode(Q), h, sig.enc(r, c) + sig.enc(s, c)))
            pool[-1] += (c.verify(*pool[-1]),)
            other = sig.enc(r - 1 or 2, c) + sig.enc(s, c)
            pool.append((pool[-1][0], h, other, c.verify(pool[-1][0], h, other)))

    def step(i):
        pub, h, s, want = pool[i % 16 if i % 32 == 1 else i % 8 * 2]
        got = obj.verify(pub, h, s)
        return None if got is want else 'verify returned %r, the reference %r' % (got, want)
    age.many(mon, '%s verifications' % name, n, step)
    for pub, h, s, want in pool:
        got = mon.must('verify', obj.verify, pub, h, s)
        mon.expect(got is want, 'verification after %d verifications by the object' % n, 'observed %r, the reference %r' % (got, want))
    mon.count('verifications on one object', n)


def solve(c, Q, z1, z2, rng):
    """A digest and signature for Q whose verification multipliers are z1 and z2."""
    C = c.add(c.mul(z1), c.mul(z2, Q))
    if C is ec.INF:
        return None
    r = C[0] % c.q
    e = -r * pow(z2, -1, c.q) % c.q
    s = z1 * e % c.q
    if not (r and e and s):
        return None
    return lift(c, e, rng), r, s


def near_miss(c, Q, rng, bit=None):
    """(digest, r, s): the point sum is what a chosen point's is, but r differs a little from its abscissa modulo q."""
    z1, z2 = scalar(rng, c)[1], scalar(rng, c)[1]
    C = c.add(c.mul(z1), c.mul(z2, Q))
    if C is ec.INF:
        return None
    x = C[0] % c.q
    how = rng.randrange(9)
    if bit is not None:
        r = x ^ 1 << bit
    elif how < 3:
        r = x ^ 1 << rng.randrange(8 * c.size)
    elif how == 3:          # two octets whose differences are equal or opposite
        b = bytearray(enc(x, c))
        i, j = rng.sample(range(c.size), 2)
        t = rng.randrange(1, 256)
        b[i] ^= t
        b[j] = b[j] ^ t if rng.random() < .5 else (b[j] - t) & 255
        r = int.from_bytes(b, 'big')
    elif how == 4:
        r = c.q - x
    elif how == 5:
        r = C[1] % c.q
    elif how == 6:
        k = rng.randrange(1, 8 * c.size)
        r = x & (1 << k) - 1 if rng.random() < .5 else x >> k << k
    elif how == 7:
        r = int.from_bytes(enc(x, c)[::-1], 'big')
    else:
        r = x + rng.choice((1, -1, 1 << 64, -(1 << 64), c.p - c.q, c.q - c.p))
    r %= c.q
    e = -r * pow(z2, -1, c.q) % c.q
    s = z1 * e % c.q
    return (lift(c, e, rng), r, s) if r and s and r != x else None


def lift(c, e, rng):
    """A digest with residue e, sometimes above q."""
    if rng.random() < .3:
        top = ((1 << 8 * c.size) - 1 - e) // c.q
        return enc(e + c.q * rng.randrange(top + 1), c)
    return enc(e, c)


def off_curve(c, rng):
    while True:
        P = (rng.choice((0, 1, 2, c.g[0], rng.randrange(c.p))), rng.choice((0, 1, c.g[1], rng.randrange(c.p))))
        if not c.on_curve(P):
            return P


def order2(c, rng):
    """An order-2 point of a cofactor-4 set."""
    while True:
        x = rng.randrange(c.p)
        rhs = (x ** 3 + c.a * x + c.b) % c.p
        if pow(rhs, (c.p - 1) // 2, c.p) != 1:
            continue
        y = pow(rhs, (c.p + 1) // 4, c.p)
        if y * y % c.p != rhs:
            return None
        P = c.mul(c.q, (x, y))
        for _ in range(3):
            if P is ec.INF:
                break
            if P[1] == 0:
                return P
            P = c.add(P, P)


def check(mon, c, obj, pub, digest, signature, where, rng, lenient=False):
    Q = (int.from_bytes(pub[:c.size], 'big'), int.from_bytes(pub[c.size:], 'big'))
    good_key = Q[0] < c.p and Q[1] < c.p and c.on_curve(Q)
    want = c.verify(pub, digest, signature)
    out = mon.attempt('verify', obj.verify, typed(pub, rng), typed(digest, rng), typed(signature, rng))
    if not good_key or lenient:
        ok = (out.returned and out.value is want) or (not out.returned and type(out.exc) is gostsignature.GOSTSignatureError)
        mon.expect(ok, where + ': neither refused nor reported as an invalid key', out.text())
        if not good_key:
            mon.count('off-curve key')
    else:
        mon.expect(out.returned, where + ': no verdict', out.text())
        mon.expect(out.value is want, where + ': equation says %s' % want, out.text(), 'key=' + pub.hex(),
                   'digest=' + digest.hex(), 'signature=' + signature.hex())
    mon.count('accepted' if want else 'refused')
    return want, out.kind


def chain(case, mon, rng):
    """One object, a sequence of verifications over triples that share keys, digests and components."""
    name = case['curve']
    c = ec.CURVES[name]
    n, q = c.size, c.q
    obj = sig.obj_of(mon, name, fresh=True)
    ds = [scalar(rng, c)[1]]
    ds.append(sig.relative(rng, ds[0], q)[1])
    keys = [c.encode(c.public(d)) for d in ds] + [c.encode(c.neg(c.public(ds[0])))]
    digests = [sig.digest_of(rng, c)[1] for _ in '12']
    ks = [scalar(rng, c)[1]]
    ks.append(sig.relative(rng, ks[0], q)[1])
    triples = []
    for _ in range(3):
        i, h = rng.randrange(2), rng.choice(digests)
        s = c.sign(ds[i], h, rng.choice(ks))
        if s:
            triples.append((keys[i], h, s))
    if not triples:
        return
    for step in range(5 if n == 64 else 9):
        pub, h, s = rng.choice(triples)
        x = rng.random()
        if x < .12:
            pub = rng.choice(keys)
        elif x < .24:
            h = rng.choice(digests)
        elif x < .36:
            s = rng.choice(triples)[2]
        elif x < .48:
            s = s[:n] + rng.choice(triples)[2][n:]
        elif x < .58:
            b = bytearray(s)
            b[rng.randrange(2 * n)] ^= 1 << rng.randrange(8)
            s = bytes(b)
        elif x < .64:
            s = s[:n] + enc(rng.choice((0, q)), c)
        elif x < .7:
            call = rng.choice((lambda: obj.verify(pub[:-1], h, s), lambda: obj.verify(pub, h, s[1:]), lambda: obj.verify(bytes(2 * n - 1) + b'\x05', h, s),
                               lambda: obj.sign(enc(ds[0], c), h, enc(0, c)), lambda: obj.public_key_generate(enc(q, c))))
            out = mon.attempt('a rejected call', call)
            mon.expect(not out.returned or out.value is False, 'a rejected call', out.text())
        elif x < .76:
            mon.must('sign', obj.sign, enc(ds[1], c), h, enc(rng.randrange(1, q), c))
        elif x < .82:
            mon.must('public_key_generate', obj.public_key_generate, enc(rng.choice(ds), c))
        want, kind = check(mon, c, obj, pub, h, s, '%s verification %d in a row on one object' % (name, step), rng)
        mon.state('chain', name, int(x * 10), want, kind)
        mon.count('chained')


def run(case, mon):
    mon.budget = 25
    rng = rng_of(case)
    if case['group'] == 'many':
        return many(case, mon, rng)
    if case['group'] == 'chain':
        return chain(case, mon, rng)
    name, group, how = case['curve'], case['group'], case['how']
    c = ec.CURVES[name]
    n, q = c.size, c.q
    obj = sig.obj_of(mon, name, fresh=rng.random() < .05)
    dkind, d = scalar(rng, c)
    Q = c.public(d)
    where = '%s %s/%s d=%s' % (name, group, how, dkind)
    r = s = 0
    digest = None
    lenient = False
    if group == 'forge':
        z1 = scalar(rng, c)[1]
        P = c.mul(z1)
        if how in ('inf-x', 'inf-2x'):
            r = (P[0] if how == 'inf-x' else -2 * P[0] % c.p) % q
            e = r * d * pow(z1, -1, q) % q
            digest, s = lift(c, e, rng), z1 * e % q
            if not r:
                return
        else:
            r = {'inf-q-1': q - 1, 'inf-1': 1, 'inf-trivial': d}.get(how) or rng.randrange(1, q)
            digest = sig.digest_of(rng, c)[1]
            s = r * d % q
        mon.count('sum at infinity')
    elif group == 'order2':
        if c.m == q:
            group, how = 'mutate', 'sig-bit'
        else:
            P = order2(c, rng)
            if P is None:
                return
            Q = P if rng.random() < .5 else c.add(P, c.public(d))
            lenient = True
            digest = sig.digest_of(rng, c)[1]
            r, s = rng.randrange(1, q), rng.randrange(1, q)
            if rng.random() < .5:
                z = solve(c, Q, rng.randrange(1, q), rng.randrange(1, q), rng)
                if z:
                    digest, r, s = z
    elif group == 'miss':
        if rng.random() < .3:
            Q = sig.shaped_point(rng, c)
        z = near_miss(c, Q, rng)
        if z is None:
            return
        digest, r, s = z
        mon.count('near misses')
    elif group == 'onebit':
        # every bit position in turn: of the abscissa the equation asks for, of s, of the digest
        if how == 'r':
            z = near_miss(c, Q, rng, case['bit'])
            if z is None:
                return
            digest, r, s = z
        else:
            z = solve(c, Q, scalar(rng, c)[1], scalar(rng, c)[1], rng)
            if z is None:
                return
            digest, r, s = z
            if how == 's':
                s ^= 1 << case['bit']
            else:
                digest = enc(int.from_bytes(digest, 'big') ^ 1 << case['bit'], c)
        mon.count('one bit')
    if digest is None:
        # a valid triple first
        if how in ('solved', 'coincide', 'shaped'):
            if how == 'shaped':
                Q = sig.shaped_point(rng, c)
            if how == 'coincide':
                z1 = scalar(rng, c)[1]
                z2 = z1 * pow(d, -1, q) % q
            else:
                z1, z2 = (scalar(rng, c)[1] if rng.random() < .6 else rng.choice((1, 2, 3, q - 1, q - 2)) for _ in '12')
            z = solve(c, Q, z1, z2, rng)
            if z is None:
                return
            digest, r, s = z
            if how == 'coincide':
                mon.count('coinciding points')
        else:
            digest = sig.digest_of(rng, c, 'zero' if how == 'digest0' else None)[1]
            signature = c.sign(d, digest, scalar(rng, c)[1])
            if signature is None:
                return
            r, s = int.from_bytes(signature[:n], 'big'), int.from_bytes(signature[n:], 'big')
        if how == 'digest0':
            digest = enc(rng.choice((0, 1, q, q + 1)) if q + 1 < 1 << 8 * n else rng.choice((0, 1, q)), c)
            mon.count('equivalent digest')
        elif how == 'digest+q':
            v = int.from_bytes(digest, 'big') % q
            if v + q < 1 << 8 * n:
                digest = enc(v + q, c)
            else:
                digest = enc(v, c)
            mon.count('equivalent digest')
    pub = c.encode(Q)
    if group == 'mutate':
        top = 1 << 8 * n
        if how in ('r+q', 's+q') and q + 1000 < top:
            # a component small enough for its alias to fit the field
            for _ in range(40):
                part = r if how == 'r+q' else s
                if part + q < top:
                    break
                if how == 'r+q':
                    ks = sig.short_x(name)
                    k = rng.choice(ks) if ks else 1
                    signature = c.sign(d, digest, k)
                else:
                    k = scalar(rng, c)[1]
                    rr = c.mul(k)[0] % q
                    e = (rng.randrange(1, min(q, top - q)) - rr * d) * pow(k, -1, q) % q
                    if not e:
                        continue
                    digest = enc(e, c)
                    signature = c.sign(d, digest, k)
                if signature is None:
                    continue
                r, s = int.from_bytes(signature[:n], 'big'), int.from_bytes(signature[n:], 'big')
        if how == 'r+q' and r + q < top:
            r += q
        elif how == 's+q' and s + q < top:
            s += q
        elif how == 'q-r':
            r = q - r
        elif how == 'q-s':
            s = q - s
        elif how == 'r=0':
            r = 0
        elif how == 's=0':
            s = 0
        elif how == 'both0':
            r = s = 0
        elif how == 'r=q':
            r = q
        elif how == 's=q':
            s = q
        elif how == 'swap':
            r, s = s, r
        elif how == 'r+1':
            r += 1
        elif how == 's+1':
            s += 1
        elif how == 'ff':
            r, s = rng.choice(((top - 1, s), (r, top - 1), (top - 1, top - 1)))
        elif how == 'random':
            r, s = rng.randrange(top), rng.randrange(top)
        if how in ('r+q', 's+q', 'r=0', 's=0', 'both0', 'r=q', 's=q', 'ff'):
            mon.count('component out of range')
        if how == 'other-key':
            pub = c.encode(c.public(rng.randrange(1, q)))
        elif how == 'shaped-key':
            pub = c.encode(sig.shaped_point(rng, c))
        elif how == 'neg-key':
            pub = c.encode(c.neg(Q))
        elif how in ('x+p', 'y+p'):
            X, Y = Q
            if how == 'x+p' and X + c.p >= top:
                ks = sig.short_xy(name)
                if ks:
                    k = rng.choice(ks)
                    X, Y = c.public(k)
            X, Y = (X + c.p, Y) if how == 'x+p' else (X, Y + c.p)
            if X < top and Y < top:
                pub = enc(X, c) + enc(Y, c)
                mon.count('coordinate + p')
        elif how == 'off-curve':
            pub = c.encode(off_curve(c, rng))
        elif how == 'key-range':
            pub = rng.choice((enc(c.p, c) + enc(Q[1], c), enc(Q[0], c) + enc(c.p, c), b'\xff' * 2 * n,
                              enc(c.p, c) * 2)) if c.p < top else b'\xff' * 2 * n
        elif how == 'key0':
            pub = bytes(2 * n) if rng.random() < .5 else rng.choice((enc(Q[0], c) + bytes(n), bytes(n) + enc(Q[1], c)))
        elif how == 'key-bit':
            b = bytearray(pub)
            b[rng.randrange(2 * n)] ^= 1 << rng.randrange(8)
            pub = bytes(b)
        elif how == 'digest-bit':
            b = bytearray(digest)
            b[rng.randrange(n)] ^= 1 << rng.randrange(8)
            digest = bytes(b)
        elif how == 'other-curve':
            other = ec.CURVES[rng.choice(sig.C256 if n == 32 else sig.C512)]
            w = other.sign(rng.randrange(1, other.q), digest, rng.randrange(1, other.q))
            if w:
                r, s = int.from_bytes(w[:n], 'big'), int.from_bytes(w[n:], 'big')
    signature = (r % (1 << 8 * n)).to_bytes(n, 'big') + (s % (1 << 8 * n)).to_bytes(n, 'big')
    if group == 'mutate' and how in ('sig-bit', 'sig-byte'):
        b = bytearray(signature)
        b[rng.randrange(2 * n)] ^= (1 << rng.randrange(8)) if how == 'sig-bit' else rng.randrange(1, 256)
        signature = bytes(b)
    want, kind = check(mon, c, obj, pub, digest, signature, where, rng, lenient)
    if group == 'valid':
        mon.expect(want, where + ': harness construction is not valid')
    mon.state('verdict', name, group, how, want, kind)
