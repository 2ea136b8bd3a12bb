"""C06: the MAC of a message, over every way of feeding it."""

from gostmon.ref import ciphers
from . import deepmodes
from .common import ALGS, BS, gen, near, size, typed, rng_of, cut, split, bucket, new_cipher

FILES = ('gostcipher/gost_34_13_2015.py',)
RULE = ('case = algorithm x key x message x a history of update() calls (all message lengths 0..4 blocks+2, every two-part '
        'split of short messages, random partitions with empty and unaligned chunks, message given to new() or not) with '
        'digest/hexdigest calls in between, tags of every size 1..block. Oracle: the one-shot model MAC of the octets fed so '
        'far. Distinct = (alg, length, chunk pattern class, subkey carry class, tag size); non-trivial = tag compared.')
ASSUMES = ('MAC model follows GOST R 34.13-2015 5.6 (annex vectors in gostmon.selftest)',)
REACH = {'tags': 1500, 'intermediate tags': 100, 'extreme subkeys': 100, 'carry 00': 20, 'carry 01': 20, 'carry 10': 20, 'carry 11': 20}


def cases(tier, rng):
    res = []
    for alg in ALGS:
        n = BS[alg]
        for ln in range(0, 4 * n + 3):
            for how in ('new', 'one', 'cut', 'cut'):
                res.append(dict(s=rng.getrandbits(48), alg=alg, len=ln, how=how))
        for ln in range(1, 3 * n + 2):
            cuts = range(0, ln + 1) if tier == 'thorough' or ln % n in (0, 1) else rng.sample(range(ln + 1), min(6, ln + 1))
            for a in cuts:
                res.append(dict(s=rng.getrandbits(48), alg=alg, len=ln, how='two', at=a))
        for _ in range({'quick': 700, 'thorough': 11000}[tier]):
            res.append(dict(s=rng.getrandbits(48), alg=alg, len=rng.choice((rng.randrange(6 * n), rng.randrange(30 * n))),
                            how='cut'))
        for _ in range({'quick': 300, 'thorough': 4000}[tier]):
            res.append(dict(s=rng.getrandbits(48), alg=alg, len=size(rng, n, 130), how=rng.choice(('cut', 'cut', 'two', 'one', 'new')),
                            rare=rng.random() < .5))
        for nb in (256, 300):
            res.append(dict(s=rng.getrandbits(48), alg=alg, len=nb * n, how='cut'))
            res.append(dict(s=rng.getrandbits(48), alg=alg, len=nb * n + 3, how='one'))
    res += deepmodes.cases(rng, tier, ('mac',), 'one')
    return res


def run(case, mon):
    rng = rng_of(case)
    if case.get('deep'):
        return deepmodes.run(case, mon, rng)
    alg, n, ln = case['alg'], BS[case['alg']], case['len']
    key, data = gen(rng, 32), gen(rng, ln)
    c = ciphers.cipher(alg, key)
    if case.get('rare'):
        # a key whose MAC subkeys have an extreme octet at an end
        pos, val = rng.choice((0, 0, -1)), rng.choice((0, 0x7f, 0x80, 0xff, 0x3f, 0x40, 0xbf, 0xc0))
        which = rng.randrange(3)
        for _ in range(500):
            sub = ([c.encrypt(bytes(n))] + ciphers.mac_keys(c))[which]
            if sub[pos] == val:
                mon.count('extreme subkeys')
                break
            key = rng.randbytes(32)
            c = ciphers.cipher(alg, key)
    if ln and rng.random() < .2:
        # every block meets the chaining value so that the cipher input is structured
        z, out = bytes(n), b''
        while len(out) < ln:
            x = gen(rng, n, rng.choice(('zero', 'ff', 'same', 'bit', 'rand')))
            out += ciphers.xor(z, x)
            z = c.encrypt(x)
        data = out[:ln]
    mac = new_cipher
    kw, fed = {}, b''
    how = case['how']
    if how == 'new':
        kw['data'] = typed(data, rng)
        parts = []
    elif how == 'one':
        parts = [data]
    elif how == 'two':
        at = case.get('at', near(rng, 0, ln))
        parts = [data[:at], data[at:]]
    else:
        parts = split(data, cut(rng, ln))
        if parts and rng.random() < .3:
            kw['data'] = typed(parts[0], rng)
            parts = parts[1:]
            fed = bytes(kw['data'])
    if how == 'new':
        fed = data
    obj = mac(mon, alg, typed(key, rng), 'mac', **kw)
    peek = rng.random() < .35
    steps = [(fed, None)]
    for p in parts:
        if peek and rng.random() < .5:
            tag = rng.randrange(1, n + 1)
            t = mon.must('%s mac digest' % alg, obj.digest, tag)
            mon.same('%s MAC after %d of %d octets (size %d), before more updates' % (alg, len(fed), ln, tag),
                     t, ciphers.mac(alg, key, fed, c)[:tag])
            mon.count('intermediate tags')
        mon.must('%s mac update' % alg, obj.update, typed(p, rng))
        fed += bytes(p)
        steps.append(len(p))
    want = ciphers.mac(alg, key, data, c)
    for tag in sorted({n, n // 2, rng.randrange(1, n + 1)}, reverse=rng.random() < .5):
        t = mon.must('%s mac digest' % alg, obj.digest, tag)
        mon.same('%s MAC of %d octets fed as %s, size %d' % (alg, ln, how if how != 'cut' else steps[1:], tag), t, want[:tag])
        mon.count('tags')
    tag = rng.randrange(1, n + 1)
    h = mon.must('%s mac hexdigest' % alg, obj.hexdigest, tag)
    mon.expect(h == want[:tag].hex(), '%s MAC hexdigest of %d octets' % (alg, ln), 'observed %r' % h)
    zero = c.encrypt(bytes(n))
    k1 = ciphers.mac_keys(c)[0]
    mon.count('carry %d%d' % (zero[0] >> 7, k1[0] >> 7))
    mon.state('mac', alg, min(ln, 4 * n + 2), bucket(ln // n), ln % n, how, bucket(len(parts)), zero[0] >> 7, k1[0] >> 7, tag)
