"""C17: object identifiers."""

from gostmon.ref import oid as ref
from .common import rng_of, gostoid, bucket

FILES = ('gostoid/oid.py',)
RULE = ('case = a dotted identifier: well-formed ones (arcs 0/1/2, second arc at 0, 39, 40, 47, 48, 127, 128, huge; components '
        'at every power of 128 and 256 and one below, up to thousands of bits; 2..400 components so that the body crosses 127, '
        '128, 255, 256, 65535 octets), every registered identifier and its prefixes, extensions and one-off neighbours, and '
        'malformed ones (empty, one component, empty components, signs, spaces, non-digits, non-ASCII digits, wrong first or '
        'second arc). Oracle: independent DER encoder and decoder, pinned registry of names. Distinct = (construction, body '
        'length class, component size classes, outcome); non-trivial = tuple, octets, name or exception compared.')
ASSUMES = ('components of more than 4300 decimal digits are not exercised (the interpreter refuses to convert them)',
           'names are the registered ones pinned in this module (TC 26 registry as documented)',)
REACH = {'encoded': 700, 'decoded back': 700, 'long length form': 60, 'multi-octet component': 300, 'malformed': 150,
         'names': 52, 'unregistered': 300}

NAMES = {
    '1.2.643.7.1': 'id-tc26',
    '1.2.643.7.1.0': 'modules',
    '1.2.643.7.1.0.1': 'gostR3410-2012-ParamSetSyntax',
    '1.2.643.7.1.0.2': 'gostR3410-2012-PKISyntax',
    '1.2.643.7.1.0.3': 'gostR3410-2012-SignatureSyntax',
    '1.2.643.7.1.0.4': 'gostR3410-2012-EncryptionSyntax',
    '1.2.643.7.1.0.5': 'pkcs-12ruSyntax',
    '1.2.643.7.1.1': 'id-tc26-algorithms',
    '1.2.643.7.1.1.1': 'id-tc26-sign',
    '1.2.643.7.1.1.1.1': 'id-tc26-gost3410-12-256',
    '1.2.643.7.1.1.1.2': 'id-tc26-gost3410-12-512',
    '1.2.643.7.1.1.2': 'id-tc26-digest',
    '1.2.643.7.1.1.2.2': 'id-tc26-gost3411-12-256',
    '1.2.643.7.1.1.2.3': 'id-tc26-gost3411-12-512',
    '1.2.643.7.1.1.3': 'id-tc26-signwithdigest',
    '1.2.643.7.1.1.3.2': 'id-tc26-signwithdigest-gost3410-12-256',
    '1.2.643.7.1.1.3.3': 'id-tc26-signwithdigest-gost3410-12-512',
    '1.2.643.7.1.1.4': 'id-tc26-mac',
    '1.2.643.7.1.1.4.1': 'id-tc26-hmac-gost-3411-12-256',
    '1.2.643.7.1.1.4.2': 'id-tc26-hmac-gost-3411-12-512',
    '1.2.643.7.1.1.5': 'id-tc26-cipher',
    '1.2.643.7.1.1.5.1': 'id-tc26-cipher-gostr3412-2015-magma',
    '1.2.643.7.1.1.5.1.1': 'id-tc26-cipher-gostr3412-2015-magma-ctracpkm',
    '1.2.643.7.1.1.5.1.2': 'id-tc26-cipher-gostr3412-2015-magma-ctracpkm-omac',
    '1.2.643.7.1.1.5.2': 'id-tc26-cipher-gostr3412-2015-kuznyechik',
    '1.2.643.7.1.1.5.2.1': 'id-tc26-cipher-gostr3412-2015-kuznyechik-ctracpkm',
    '1.2.643.7.1.1.5.2.2': 'id-tc26-cipher-gostr3412-2015-kuznyechik-ctracpkm-omac',
    '1.2.643.7.1.1.6': 'id-tc26-agreement',
    '1.2.643.7.1.1.6.1': 'id-tc26-agreement-gost-3410-12-256',
    '1.2.643.7.1.1.6.2': 'id-tc26-agreement-gost-3410-12-512',
    '1.2.643.7.1.1.7': 'id-tc26-wrap',
    '1.2.643.7.1.1.7.1': 'id-tc26-wrap-gostr3412-2015-magma',
    '1.2.643.7.1.1.7.1.1': 'id-tc26-wrap-gostr3412-2015-magma-kexp15',
    '1.2.643.7.1.1.7.2': 'id-tc26-wrap-gostr3412-2015-kuznyechik',
    '1.2.643.7.1.1.7.2.1': 'id-tc26-wrap-gostr3412-2015-kuznyechik-kexp15',
    '1.2.643.7.1.2': 'id-tc26-constants',
    '1.2.643.7.1.2.1': 'id-tc26-sign-constants',
    '1.2.643.7.1.2.1.1': 'id-tc26-gost-3410-12-256-constants',
    '1.2.643.7.1.2.1.1.1': 'id-tc26-gost-3410-12-256-paramSetA',
    '1.2.643.7.1.2.1.1.2': 'id-tc26-gost-3410-12-256-paramSetB',
    '1.2.643.7.1.2.1.1.3': 'id-tc26-gost-3410-12-256-paramSetC',
    '1.2.643.7.1.2.1.1.4': 'id-tc26-gost-3410-12-256-paramSetD',
    '1.2.643.7.1.2.1.2': 'id-tc26-gost-3410-12-512-constants',
    '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
    '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
    '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
    '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
    '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
    '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
    '1.2.643.7.1.2.5.1.1': 'id-tc26-gost-28147-param-Z',
}
MALFORMED = ('', '.', '1', '2', '1.', '.1', '1..2', '1.2.', '.1.2', '1.2..3', ' 1.2', '1.2 ', '1. 2', '1.2\n', '+1.2', '1.+2',
             '-1.2', '1.-2', '1.2.-3', '1.2.0x10', '1.a', 'a.b', '1.2.3a', '1,2', '1.2,3', '1_0.2', '1.2_0', '1.2e3', '1.2.3.',
             '٠.١', '1.٢', '1.2.²', '1.²', '3.1', '4.0', '9.9', '10.1', '0.40', '1.40', '1.127', '0.128', '0.1000', '1.39.x', '1.2.\x00')


def edge(rng):
    bits = rng.choice((7, 8, 14, 16, 21, 24, 28, 32, 35, 49, 56, 63, 64, 70, 128, 256, 700, 2100))
    return max(0, (1 << bits) + rng.choice((-1, 0, 0, 1)))


def cases(tier, rng):
    res = [dict(text=t, how='registered') for t in NAMES]
    res += [dict(text=t, how='malformed') for t in MALFORMED]
    for v in list(range(260)) + [16383, 16384, 2097151, 2097152]:
        res.append(dict(text='1.2.%d' % v, how='small'))
        if v < 200:
            res.append(dict(text='2.%d' % v, how='second'))
    for a in (0, 1):
        for b in range(40):
            res.append(dict(text='%d.%d' % (a, b), how='second'))
    for _ in range({'quick': 700, 'thorough': 60000}[tier]):
        res.append(dict(s=rng.getrandbits(48), how=rng.choice(('edge', 'edge', 'random', 'long', 'near', 'near', 'bodylen', 'mangle'))))
    res += [dict(s=rng.getrandbits(48), how='huge', w=1) for _ in range({'quick': 4, 'thorough': 40}[tier])]
    return res


def body_of(n, rng):
    """An identifier whose DER body has exactly n octets."""
    arcs, left = [1, rng.randrange(40)], n - 1
    while left:
        size = min(left, rng.choice((1, 1, 2, 3, 9)))
        arcs.append(rng.randrange(1 << 7 * (size - 1), 1 << 7 * size) if size > 1 else rng.randrange(128))
        left -= size
    return '.'.join(map(str, arcs))


def make(case, rng):
    how = case['how']
    head = rng.choice(('0.%d' % rng.randrange(40), '1.%d' % rng.randrange(40), '2.%d' % rng.choice((0, 39, 40, 47, 48, 127, 128, edge(rng)))))
    if how == 'edge':
        return head + ''.join('.%d' % edge(rng) for _ in range(rng.randrange(6)))
    if how == 'random':
        return head + ''.join('.%d' % rng.getrandbits(rng.randrange(1, 90)) for _ in range(rng.randrange(12)))
    if how == 'long':
        return head + ''.join('.%d' % rng.getrandbits(rng.choice((3, 7, 8, 20))) for _ in range(rng.randrange(60, 400)))
    if how == 'bodylen':
        return body_of(rng.choice((126, 127, 128, 129, 130, 254, 255, 256, 257, 300, 1000)), rng)
    if how == 'huge':
        return body_of(rng.choice((65535, 65536, 65537, 70000)), rng)
    base = rng.choice(list(NAMES))
    if how == 'near':
        parts = base.split('.')
        op = rng.randrange(5)
        if op == 0:
            parts = parts[:-1]
        elif op == 1:
            parts.append(str(rng.choice((0, 1, 2, 300))))
        elif op == 2:
            i = rng.randrange(2, len(parts))
            parts[i] = str(int(parts[i]) + rng.choice((1, 10, 128, 640)))
        elif op == 3:
            i = rng.randrange(len(parts))
            parts[i] += '0'
        else:
            parts.insert(rng.randrange(2, len(parts)), '0')
        return '.'.join(parts)
    text = list(base)
    i = rng.randrange(len(text) + 1)
    if rng.random() < .6:
        text.insert(i, rng.choice('.- +axZ,;_\t\n\u0661\u00b2\u2460'))
    else:
        text[min(i, len(text) - 1)] = rng.choice('.- +ax,_\u0661\u00b9')
    return ''.join(text)


def leading_zero(text):
    return any(len(p) > 1 and p[0] == '0' for p in text.split('.'))


def run(case, mon):
    rng = rng_of(case) if 's' in case else None
    text = case['text'] if 'text' in case else make(case, rng)
    if leading_zero(text):
        return
    arcs = ref.parse(text)
    where = 'OID %r' % (text if len(text) < 60 else text[:57] + '...')
    if arcs is None:
        made = mon.attempt('ObjectIdentifier', gostoid.ObjectIdentifier, text)
        if not made.returned:      # refused at once: as documented, too
            mon.expect(type(made.exc) is gostoid.GOSTOIDError, where, made.text())
            mon.count('malformed')
            return
        obj = made.value
    else:
        obj = mon.must('ObjectIdentifier', gostoid.ObjectIdentifier, text)
    mon.expect(mon.must('str', str, obj) == text, where + ': str()')
    name = mon.must('name', lambda: obj.name)
    mon.expect(name == NAMES.get(text, ''), where + ': name', repr(name), 'registered %r' % NAMES.get(text, ''))
    mon.count('names' if text in NAMES else 'unregistered')
    if arcs is None:
        # digit is defined for any sequence of numbers; octet only for an encodable identifier
        out = mon.attempt('octet', lambda: obj.octet)
        mon.expect(out.kind == 'exc' and type(out.exc) is gostoid.GOSTOIDError, where + ': encoding must be refused', out.text())
        numbers = all(p.isascii() and p.isdigit() for p in text.split('.'))
        out = mon.attempt('digit', lambda: obj.digit)
        if not numbers:
            mon.expect(out.kind == 'exc' and type(out.exc) is gostoid.GOSTOIDError and 'invalid OID value' in str(out.exc),
                       where + ': must be refused', out.text())
        else:
            mon.expect(out.returned or type(out.exc) is gostoid.GOSTOIDError, where, out.text())
        mon.count('malformed')
        mon.state('malformed', case['how'], numbers, len(text) if len(text) < 6 else 6)
        return
    digit = mon.must('digit', lambda: obj.digit)
    mon.expect(isinstance(digit, tuple) and digit == arcs, where + ': digit', repr(digit)[:100])
    want = ref.der(arcs)
    for again in range(2 if rng is None or rng.random() < .3 else 1):
        octet = mon.must('octet', lambda: obj.octet)
        mon.same(where + ': octets', octet, want)
    mon.count('encoded')
    mon.expect(ref.decode(octet) == arcs, where + ': decodes to another identifier')
    mon.count('decoded back')
    if len(want) > 129:
        mon.count('long length form')
    if any(a > 127 for a in arcs[2:]):
        mon.count('multi-octet component')
    if text in NAMES:
        const = gostoid.OBJECT_IDENTIFIER_TC26
        mon.expect(const.get(text) == NAMES[text], where + ': registry')
    mon.state('oid', case['how'], arcs[0], bucket(len(want)), tuple(sorted({(a.bit_length() + 6) // 7 for a in arcs}))[:6])
