"""C21: clear() erases the secrets of an object."""

import random

from gostcrypto.utils import zero_fill
from gostmon import graph
from gostmon.ref import ciphers
from . import script
from .common import ALGS, BS, gen, gostrandom, rng_of

FILES = ('gostcipher/gost_34_12_2015.py', 'gostcipher/gost_34_13_2015.py', 'gosthmac/r_50_1_113_2016.py',
         'gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py', 'utils/utils.py')
RULE = ('case = a history of one object with a key (ciphers in every mode and the bare block ciphers, MAC, HMAC, derivation, '
        'generator), some ended by a rejected call, then by clear() (once or twice, on the object or on a copy), then (scan) every octet string, number, '
        'text and sequence reachable from the object, closures and slots included, and in part of the cases from the globals and classes '
        'of the package, searched for 8-octet windows of the key, the reference round keys, the MAC subkeys, the padded HMAC keys, the '
        'password and the seed, in both octet orders and as exclusive-or with the HMAC pads; and (twins) the same history executed with two '
        'different secrets (random or in pieces of zeros, single octets and random octets), cleared, compared (the set of octet strings and numbers reachable from each; a third run with the second secret tells what varies anyway), and probed with the same calls. Oracle: no secret found; a cleared generator refuses to go on; the twins answer every '
        'probe alike. Before clear() the scan must find the secret (the search works). '
        'Distinct = (kind, algorithm, mode, where, probe); non-trivial = the secret was found before clear().')
ASSUMES = ('secrets are random 32-octet keys, 8..64-octet passwords and seeds',
           'reachability is judged on Python objects; freed memory of the interpreter is not examined',
           'twins are compared where the state other than the secret is equal: not for output feedback after use, not for '
           'the feedback register after encryption under different keys')
REACH = {'erased': 2000, 'states compared': 1000, 'found before clear': 500, 'twins': 300, 'probes': 700}

KINDS = ('cipher', 'cipher', 'cipher', 'mac', 'mac', 'hmac', 'hmac', 'pbkdf', 'random', 'direct')
IPAD, OPAD = bytes([0x36]) * 64, bytes([0x5c]) * 64


def cases(tier, rng):
    res = []
    for i in range({'quick': 300, 'thorough': 2400}[tier]):
        for k in KINDS:
            res.append(dict(s=rng.getrandbits(48), how='scan', kind=k, package=i % 16 == 0))
            if i % 2:
                res.append(dict(s=rng.getrandbits(48), how='twins', kind=k))
    return res


def secret_of(rng, kind):
    if kind in ('cipher', 'mac', 'direct'):
        return rng.randbytes(32)
    if kind == 'hmac':
        return rng.randbytes(rng.choice((16, 32, 32, 48, 63, 64)))
    if kind == 'pbkdf':
        return rng.randbytes(rng.choice((8, 12, 16, 32, 63, 64)))
    return b'\1' + rng.randbytes(rng.choice((31, 39, 47, 61, rng.randrange(3, 62))))


def patchy(rng, n):
    """n octets in pieces of one size: random, zero, filled, or with a single octet that is not zero."""
    unit, out = rng.choice((4, 4, 8, 16, 16, 32)), b''
    while len(out) < n:
        shape = rng.randrange(6)
        piece = bytearray(rng.randbytes(unit) if shape < 2 else bytes([rng.choice((0, 0, 1, 128, 255))]) * unit)
        if shape > 3:
            piece = bytearray(unit)
            piece[rng.choice((0, 0, -1, -1, rng.randrange(unit)))] = rng.randrange(1, 256)
        out += piece
    return out[:n]


def exhaust(mon, obj):
    """Ask for output until the generator refuses (which it does soon for seeds of 62 octets)."""
    for _ in range(260):
        out = mon.attempt('random until exhausted', obj.random)
        if not out.returned:
            mon.count('exhausted before clear')
            return True
    return False


def refused(rng, mon, kind, obj, alg):
    """Calls that are rejected, as the last ones before clear()."""
    if kind == 'mac':
        calls = [(op, (v,)) for op in ('digest', 'hexdigest') for v in (-1, BS[alg] + 1, 1000)] + [('update', ('text',))]
    elif kind == 'cipher':
        calls = [(op, (v,)) for op in ('encrypt', 'decrypt') for v in ('text', None, [1, 2])]
    elif kind == 'hmac':
        calls = [('update', ('text',)), ('update', (None,))]
    elif kind == 'pbkdf':
        calls = [('derive', (1 << 40,)), ('hexderive', (1 << 40,))]
    elif kind == 'random' and rng.random() < .3 and exhaust(mon, obj):
        return
    elif kind == 'random':
        calls = [('reset', (v,)) for v in ('text', b'a', None)]
    else:
        return
    for op, args in rng.sample(calls, rng.choice((1, 1, 2))):
        out = mon.attempt('%s.%s (invalid)' % (kind, op), getattr(obj, op), *args)
        mon.expect(not out.returned, '%s.%s with an invalid argument' % (kind, op), out.text())
        mon.count('rejected before clear')


def history(rng, kind, secret, alg=None, mode=None):
    if kind in ('cipher',):
        return script.cipher(rng, key=secret, alg=alg, mode=mode)
    if kind == 'mac':
        return script.mac(rng, key=secret, alg=alg)
    if kind == 'direct':
        return script.direct(rng, key=secret, alg=alg)
    if kind == 'hmac':
        return script.hmac(rng, key=secret)
    if kind == 'pbkdf':
        return script.pbkdf(rng, password=secret)
    # without resets, so that the seed is the one given
    steps = script.random_(rng, seed=secret)
    return [s for s in steps if s[2] != 'reset']


def secrets_of(kind, secret, alg):
    res = graph.Secrets()
    res.add('secret', secret)
    if alg:
        c = ciphers.cipher(alg, secret)
        for i, k in enumerate(c.keys):
            res.add('round key %d' % i, k.to_bytes(16 if alg == 'kuznechik' else 4, 'big'))
        if kind == 'mac':
            for i, k in enumerate(ciphers.mac_keys(c)):
                res.add('K%d' % (i + 1), k)
            res.add('E(0)', c.encrypt(bytes(BS[alg])))
    if kind in ('hmac', 'pbkdf'):
        res.add('inner key', ciphers.xor(secret, IPAD[:len(secret)]))
        res.add('outer key', ciphers.xor(secret, OPAD[:len(secret)]))
    return res


def run(case, mon):
    rng = rng_of(case)
    kind = case['kind']
    alg = rng.choice(ALGS) if kind in ('cipher', 'mac', 'direct') else None
    (scan if case['how'] == 'scan' else twins)(case, mon, rng, kind, alg)


def scan(case, mon, rng, kind, alg):
    secret = secret_of(rng, kind)
    steps = history(rng, kind, secret, alg)
    steps = steps[:rng.randrange(1, len(steps) + 1)]
    ex = script.Executor(mon, '', bytes if rng.random() < .5 else bytearray)
    for s in steps:
        ex.do(s)
    mode = steps[0][3][2] if kind == 'cipher' else ''
    look = secrets_of(kind, secret, alg)
    slots = sorted(ex.objects)
    mon.same('zero_fill of %d octets' % len(secret), mon.must('zero_fill', zero_fill, bytearray(secret)), bytes(len(secret)))
    mon.expect('o' in ex.objects, 'a valid constructor call failed', script.text(steps[0]))
    before = sum(bool(look.find([('object', ex.objects[s])])[0]) for s in slots)
    mon.count('found before clear', before)
    for s in slots if rng.random() < .7 else ['o']:
        if rng.random() < .25:
            refused(rng, mon, kind, ex.objects[s], alg)
        for _ in range(rng.choice((1, 1, 2))):
            mon.must(kind + '.clear', ex.objects[s].clear)
        hits, n = look.find([('object', ex.objects[s])])
        mon.expect(not hits, 'after clear(), %s of a %s object is still reachable from it' % (hits and hits[0][0], kind),
                   'at %s, history %s' % (hits and hits[0][1], [script.text(t) for t in steps][:6]))
        if kind == 'random':
            out = mon.attempt('random after clear', ex.objects[s].random)
            mon.expect(out.kind == 'exc' and type(out.exc) is gostrandom.GOSTRandomError,
                       'a cleared generator still produces output', out.text())
            mon.count('cleared generators')
        mon.count('erased')
        mon.count('leaves scanned', n)
        mon.state('erased', kind, alg, mode, len(steps), s == 'o')
    if case['package']:
        if len(slots) > 1:
            for s in slots:
                ex.objects[s].clear()
        hits, n = look.find(graph.package_roots()[0])
        mon.expect(not hits, 'after clear(), %s of a %s object is still held by the package' % (hits and hits[0][0], kind),
                   str(hits and hits[0][1]))
        mon.count('package scans')
        mon.count('leaves scanned', n)


def probes(rng, kind, alg, mode):
    res = []
    slot = 'o'
    if kind == 'cipher' or kind == 'direct':
        bs = BS[alg]
        n = bs if kind == 'direct' else bs * rng.randrange(1, 3)
        for op in rng.sample(('encrypt', 'decrypt'), 2):
            res.append(script.call(slot, op, gen(rng, n)))
        if kind == 'cipher' and mode == 'ctr':
            res.append(script.get(slot, 'counter'))
        elif kind == 'cipher' and mode != 'ecb':
            res.append(script.get(slot, 'iv'))
    elif kind == 'mac':
        res = [script.call(slot, 'digest', BS[alg])]
        res = rng.choice((res, [script.call(slot, 'update', gen(rng, rng.randrange(40)))] + res))
    elif kind == 'hmac':
        res = rng.choice(([script.call(slot, 'digest')],
                          [script.call(slot, 'update', gen(rng, rng.randrange(140))), script.call(slot, 'digest')],
                          [('copy', slot, 'p', (), {}), script.call('p', 'digest'), script.call('p', 'update', b'abc'), script.call('p', 'hexdigest')],
                          [script.call(slot, 'reset'), script.call(slot, 'update', gen(rng, rng.randrange(140))), script.call(slot, 'digest')]))
    elif kind == 'pbkdf':
        res = [script.call(slot, rng.choice(('derive', 'hexderive')), rng.choice((1, 32, 64, 65)))]
    else:
        res = [script.call(slot, 'random')]
        if rng.random() < .5:
            res.append(script.call(slot, 'random'))
    return res


def state_of(obj):
    """The set of octet strings and numbers reachable from an object."""
    return {data for data, _path in graph.leaves([('object', obj)])}


def twins(case, mon, rng, kind, alg):
    seed = rng.getrandbits(60)
    one = secret_of(rng, kind)
    kept, pieces = (b'\1' if kind == 'random' else b''), rng.random() < .6
    if pieces:
        one = kept + patchy(rng, len(one) - len(kept))
    two = one
    while two == one:
        two = kept + (patchy if pieces else random.Random.randbytes)(rng, len(one) - len(kept))
    mode = rng.choice(('ecb', 'cbc', 'cfb', 'ofb', 'ctr')) if kind == 'cipher' else ''
    tail = probes(rng, kind, alg, mode)
    twice = rng.random() < .3
    invalid = rng.getrandbits(60) if rng.random() < .25 else None
    results, states = [], []
    for secret in (one, two, two):
        steps = history(random.Random(seed), kind, secret, alg, mode or None)
        if kind == 'cipher' and mode in ('cbc', 'cfb'):
            steps = [s for s in steps if s[2] != 'encrypt']
        elif mode == 'ofb':
            steps = steps[:1]
        ex = script.Executor(mon, '')
        steps = steps[:1 + seed % len(steps)]
        for s in steps:
            ex.do(s)
        mon.expect('o' in ex.objects, 'a valid constructor call failed', script.text(steps[0]))
        if invalid is not None:
            refused(random.Random(invalid), mon, kind, ex.objects['o'], alg)
        for _ in range(1 + twice):
            mon.must(kind + '.clear', ex.objects['o'].clear)
        states.append(state_of(ex.objects['o']))
        results.append(ex.run(tail))
    if states[1] == states[2]:
        mon.expect(states[0] == states[1], 'after clear(), the state of a %s object still depends on the secret' % ((kind, alg, mode),),
                   'left over: %s' % [v.hex() for v in sorted(states[0] ^ states[1])][:4])
        mon.count('states compared')
    for i, (a, b) in enumerate(zip(*results[:2])):
        mon.expect(a == b or a[0] == b[0] == 'exc' and a[1] == b[1],
                   'after clear(), %s of a %s object still depends on the secret' % (script.text(tail[i]), (kind, alg, mode)), '%s and %s' % (a, b))
        mon.count('probes')
        mon.state('probe', kind, alg, mode, tail[i][2], a[0])
    mon.count('twins')
