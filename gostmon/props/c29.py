"""C29: the octet and integer helpers compute exactly what they document, for every size."""

from gostcrypto.utils import add_xor, bytearray_to_int, check_value, int_to_bytearray, msb, zero_fill
from .common import HINTS, gen, near, rng_of, typed

FILES = ('utils/utils.py',)
RULE = ('case = a batch of strings and integers of 0..300 octets (structured contents, literals of the code, values at both sides '
        'of every octet boundary). Oracle: big-endian conversion in both directions written out digit by digit, truncation to '
        'the low octets where the number is larger than the field, octet-wise exclusive or over the shorter operand, the top '
        'bit of the first octet, type-and-length test, zero octets of the same length; arguments unchanged, results fresh. '
        'Distinct = (helper, length class, value class); non-trivial = a result compared.')
ASSUMES = ('integers are not negative',)
REACH = {'results': 20000, 'large results': 150}


def cases(tier, rng):
    res = [dict(s=rng.getrandbits(48), n=i) for i in range({'quick': 180, 'thorough': 6000}[tier])]
    sizes = {n + d for k in range(9, 14) for n in (1 << k,) for d in (-1, 0, 1)} | {rng.randrange(300, 9000) for _ in range(4)}
    sizes |= {65535, 65536, 65537} | {n + d for n in HINTS if 300 <= n <= 70000 for d in (0, 1)}
    if tier == 'thorough':
        sizes |= {n + d for n in (16384, 32768, 131072) for d in (-1, 0, 1)}
        sizes |= {rng.randrange(300, 70000) for _ in range(60)}
    return res + [dict(s=rng.getrandbits(48), large=n, w=1 + (n / 8192) ** 2) for n in sorted(sizes)]


def octets(v, n):
    res = []
    for _ in range(n):
        res.append(v % 256)
        v //= 256
    return bytes(reversed(res))


def number(rng):
    n = rng.choice((1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, rng.randrange(1, 300)))
    x = rng.random()
    if x < .3:
        return int.from_bytes(gen(rng, n), 'big')
    if x < .6:
        return (1 << 8 * n - rng.choice((0, 0, 1, 2, 7))) + rng.choice((0, -1, 1, -2, 255))
    if x < .7 and HINTS:
        return rng.choice(HINTS) + rng.choice((-1, 0, 1)) if rng.choice(HINTS) else 0
    return near(rng, 0, 1 << rng.randrange(2, 64))


VALUES = (None, 'text', '', 5, [1, 2], (1,), 1.5, range(3), memoryview(b'ab'), {1: 2})


def large(case, mon):
    mon.budget = 120
    rng, n = rng_of(case), case['large']
    for shape in ('rand', rng.choice(('ff', 'nul_tail', 'bit'))):
        data = gen(rng, n, shape)
        arg, other = typed(data, rng), typed(gen(rng, max(0, n + rng.choice((0, 0, 1, -1)))), rng)
        want = int(data.hex(), 16)
        got = mon.must('bytearray_to_int', bytearray_to_int, arg)
        mon.expect(got == want, 'bytearray_to_int of %d octets' % n)
        width = n + rng.choice((0, 0, 0, 1, 8, -1))
        got = mon.must('int_to_bytearray', int_to_bytearray, want, width)
        mon.same('int_to_bytearray of %d octets into %d' % (n, width), got, (
            data[n - width:] if width <= n else bytes(width - n) + data))
        mon.same('add_xor of %d and %d octets' % (n, len(other)), mon.must('add_xor', add_xor, arg, other),
                 bytes(x ^ y for x, y in zip(data, other)))
        mon.same('zero_fill', mon.must('zero_fill', zero_fill, arg), bytes(n))
        mon.expect(bool(mon.must('msb', msb, arg)) is (data[0] > 127), 'msb of %d octets' % n)
        for k in (n, n - 1, n + 1):
            mon.expect(mon.must('check_value', check_value, arg, k) is (k == n), 'check_value of %d octets, size %d' % (n, k))
        mon.expect(bytes(arg) == data, 'a helper modified its argument')
        mon.count('large results', 8)
        mon.state('large', n, shape, width)


def run(case, mon):
    if 'large' in case:
        large(case, mon)
        return
    mon.budget = 25
    rng = rng_of(case)
    for _ in range(30):
        v = max(0, number(rng))
        n = max(0, (v.bit_length() + 7) // 8 + rng.choice((0, 0, 1, 2, -1, -2, 8, rng.randrange(40), -(v.bit_length() + 7) // 8)))
        got = mon.must('int_to_bytearray', int_to_bytearray, v, n)
        mon.same('int_to_bytearray(%#x, %d)' % (v, n), got, octets(v, n))
        mon.expect(type(got) is bytearray, 'int_to_bytearray gives a bytearray')
        data = gen(rng, rng.choice((0, 1, 2, 8, 16, 31, 32, 33, 64, 65, 128, rng.randrange(300))))
        want = 0
        for b in data:
            want = want * 256 + b
        arg = typed(data, rng)
        got = mon.must('bytearray_to_int', bytearray_to_int, arg)
        mon.expect(got == want, 'bytearray_to_int(%s)' % data.hex(), hex(got) if isinstance(got, int) else repr(got))
        got = mon.must('int_to_bytearray', int_to_bytearray, want, len(data))
        mon.same('octets to number and back', got, data)
        if data:
            got = mon.must('msb', msb, arg)
            mon.expect(bool(got) is (data[0] > 127), 'msb(%s)' % data.hex(), repr(got))
        got = mon.must('zero_fill', zero_fill, arg)
        mon.same('zero_fill', got, bytes(len(data)))
        mon.expect(bytes(arg) == data, 'a helper modified its argument', data.hex())
        other = gen(rng, max(0, len(data) + rng.choice((0, 0, 0, 1, -1, rng.randrange(60), -rng.randrange(60)))))
        if rng.random() < .1:
            other = bytes(data)
        second = arg if other == data and rng.random() < .5 else typed(other, rng)
        got = mon.must('add_xor', add_xor, arg, second)
        mon.same('add_xor of %d and %d octets' % (len(data), len(other)), got, bytes(x ^ y for x, y in zip(data, other)))
        mon.expect(bytes(arg) == data and bytes(second) == other, 'add_xor modified an operand')
        mon.expect(got is not arg and got is not second, 'add_xor returned an operand')
        k = rng.choice((len(data), len(data), len(data) + 1, len(data) - 1, 0, 32))
        got = mon.must('check_value', check_value, arg, k)
        mon.expect(got is (len(data) == k), 'check_value of %d octets, size %d' % (len(data), k), repr(got))
        bad = rng.choice(VALUES)
        for k in (0, 1, 2, 3, 4):
            got = mon.must('check_value', check_value, bad, k)
            mon.expect(got is False, 'check_value of %r, size %d' % (bad, k), repr(got))
        mon.count('results', 8)
        mon.state('helpers', len(data), len(other), v.bit_length(), n)
