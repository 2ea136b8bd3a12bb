"""Reference model of OBJECT IDENTIFIER (X.660 arcs, X.690 8.19 encoding)."""

import re

_DOTTED = re.compile(r'(0|[1-9][0-9]*)(\.(0|[1-9][0-9]*))+\Z')


def parse(text):
    """Tuple of arcs, or None when the text is not an encodable OID."""
    if not _DOTTED.match(text):
        return None
    arcs = tuple(int(a) for a in text.split('.'))
    if arcs[0] > 2 or (arcs[0] < 2 and arcs[1] > 39):
        return None
    return arcs


def base128(v):
    out = [v & 0x7f]
    v >>= 7
    while v:
        out.append(0x80 | v & 0x7f)
        v >>= 7
    return bytes(reversed(out))


def der(arcs):
    body = base128(40 * arcs[0] + arcs[1]) + b''.join(base128(a) for a in arcs[2:])
    n = len(body)
    if n < 0x80:
        ln = bytes([n])
    else:
        raw = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        ln = bytes([0x80 | len(raw)]) + raw
    return b'\x06' + ln + body


def decode(octets):
    """Independent decoder: DER octets to arcs (ValueError when malformed)."""
    octets = bytes(octets)
    if octets[0] != 6:
        raise ValueError('tag')
    n, i = octets[1], 2
    if n & 0x80:
        k = n & 0x7f
        n = int.from_bytes(octets[2:2 + k], 'big')
        i = 2 + k
        if n < 0x80 or octets[2] == 0:
            raise ValueError('non-minimal length')
    body = octets[i:]
    if len(body) != n or not n:
        raise ValueError('length')
    subs, acc, fresh = [], 0, True
    for o in body:
        if fresh and o == 0x80:
            raise ValueError('non-minimal subidentifier')
        acc, fresh = acc << 7 | o & 0x7f, False
        if not o & 0x80:
            subs.append(acc)
            acc, fresh = 0, True
    if not fresh:
        raise ValueError('truncated')
    first = min(subs[0] // 40, 2)
    return (first, subs[0] - 40 * first) + tuple(subs[1:])
