"""C11: the pseudo-random sequence."""

from gostmon import scale
from gostmon.ref import streebog as ref
from . import age
from .common import gen, near, size as length, typed, rng_of, bucket, gostrandom

FILES = ('gostrandom/r_1323565_1_006_2017.py',)
RULE = ('case = seed size (48, 40, 32, others to 62) x seed x output size (0..200 octets) x a history of random()/reset(seed) '
        'calls, histories of more than 256 and 65536 counter steps (of the latter every block is compared with all others and a sample with the model), '
        'seed sizes 61/62 that exhaust the counter, and sequences of more than 131072 blocks (2^24 in depth) over a cheap stand-in for the hash function, every block compared. Oracle: '
        'reference generator (state = seed and counter); after exhaustion the monitor keeps calling and compares any output '
        'with everything already emitted. Distinct = (seed size, output size, counter octet length, operation, outcome); '
        'non-trivial = an output or a documented error was compared.')
ASSUMES = ('generator model: C_i = H512(seed || counter i), whole digests then the trailing octets of the next one '
           '(vectors of R 1323565.1.006-2017 in gostmon.selftest)',)
REACH = {'outputs': 3000, 'counter past 256': 3, 'exhausted': 8, 'revived': 3, 'zero seed': 10, 'resets': 60, 'blocks swept': 65000}


def cases(tier, rng):
    res = []
    for _ in range({'quick': 330, 'thorough': 9000}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='short'))
    for _ in range({'quick': 16, 'thorough': 200}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='long', w=1))
    for _ in range({'quick': 10, 'thorough': 100}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='exhaust', w=1))
    for _ in range({'quick': 12, 'thorough': 100}[tier]):
        res.append(dict(s=rng.getrandbits(48), how='zero'))
    res.append(dict(s=rng.getrandbits(48), how='sweep', ss=rng.choice((60, 61)), w=400))
    for ss in (60, 48, rng.randrange(8, 60)):
        res.append(dict(s=rng.getrandbits(48), how='deep', ss=ss, n=rng.choice((131072, 200000)), w=60))
    res.append(dict(s=rng.getrandbits(48), how='deep', ss=61, n=65535, w=20))
    res.append(dict(s=rng.getrandbits(48), how='resets', n=65536, w=20))
    res.append(dict(s=rng.getrandbits(48), how='resets', n=4096, w=5))
    if tier == 'thorough':
        res.insert(0, dict(s=rng.getrandbits(48), how='deep', ss=60, n=(1 << 24) - 1, w=4000))
        res.insert(0, dict(s=rng.getrandbits(48), how='deep', ss=40, n=(1 << 24) + 3000, w=4000))
        res.append(dict(s=rng.getrandbits(48), how='sweep', ss=48, w=400))
        res.append(dict(s=rng.getrandbits(48), how='exhaust2', w=300))
        res.append(dict(s=rng.getrandbits(48), how='long2', w=300))
    return res


def seed_of(rng, n):
    while True:
        s = gen(rng, n, rng.choice(('rand', 'rand', 'ff', 'bit', 'sparse', 'nul_tail', 'same', 'count')))
        if any(s):
            return s


def sweep(case, mon, rng):
    """More than 65536 counter steps of one seed: no block recurs, a sample of them is compared with the model."""
    ss = case['ss']
    per = rng.choice((51, 85, 255))         # divisors of 65535
    seed = seed_of(rng, ss)
    obj = mon.must('gostrandom.new', gostrandom.new, 64 * per, rand_k=typed(seed, rng), size_s=ss)
    seen, count = {}, 0
    while count < 65535 + (4 * per if ss < 61 else 0):
        out = mon.must('random', obj.random)
        mon.expect(len(out) == 64 * per, 'output length')
        for i in range(per):
            count += 1
            block = bytes(out[64 * i:64 * i + 64])
            was = seen.setdefault(block[:12], count)
            mon.expect(was == count, 'block %d of the sequence repeats block %d (seed of %d octets)' % (count, was, ss))
            if rng.random() < .008 or count & (count - 1) == 0 or 65530 < count < 65545:
                mon.same('block %d (seed of %d octets)' % (count, ss), block,
                         ref.streebog(512, seed + count.to_bytes(63 - ss, 'big')))
                mon.count('outputs')
        mon.state('sweep', ss, per, count >> 12)
    mon.count('blocks swept', count)
    if ss == 61:
        for _ in range(2):
            out = mon.attempt('random', obj.random)
            mon.expect(out.kind == 'exc' and type(out.exc) is gostrandom.GOSTRandomError, 'after all 65535 counter values', out.text())
        mon.count('exhausted')


def deep(case, mon, rng):
    """A sequence over a stand-in for the hash function: every block up to and past a counter of two (three) octets."""
    ss, limit = case['ss'], case['n']
    full = (1 << 8 * (63 - ss)) - 1
    seed = seed_of(rng, ss)
    with scale.Hash():
        obj = mon.must('gostrandom.new', gostrandom.new, 150, rand_k=typed(seed, rng), size_s=ss)
        for i in range(3):
            out = mon.attempt('random', obj.random)
            want = b''.join(scale.cheap(seed + j.to_bytes(63 - ss, 'big')) for j in range(3 * i + 1, 3 * i + 4))
            if not out.returned or bytes(out.value) != want[:128] + want[-22:]:
                mon.count('stand-in does not apply')
                return sweep(dict(ss=60), mon, rng)
        per = rng.choice((51, 85, 255))          # divisors of 65535 and 2^24 - 1
        obj = mon.must('gostrandom.new', gostrandom.new, 64 * per, rand_k=typed(seed, rng), size_s=ss)
        count = 0
        while count < limit:
            want = b''.join(scale.cheap(seed + j.to_bytes(63 - ss, 'big')) for j in range(count + 1, count + per + 1))
            mon.same('blocks %d to %d (seed of %d octets)' % (count + 1, count + per, ss), mon.must('random', obj.random), want)
            count += per
        mon.count('deep blocks', count)
        mon.state('deep', ss, per, count >> 12)
        if count == full:
            for _ in range(2):
                out = mon.attempt('random', obj.random)
                mon.expect(out.kind == 'exc' and type(out.exc) is gostrandom.GOSTRandomError,
                           'after all %d counter values' % full, out.text())
            mon.count('exhausted')


def resets(case, mon, rng):
    """Tens of thousands of resets of one object, over a stand-in for the hash function."""
    ss, n = rng.choice((48, 40, 32)), age.number(rng, case['n'])
    size = rng.choice((16, 64, 100))
    seeds = [seed_of(rng, ss) for _ in range(5)]

    def block(seed, i):
        return scale.cheap(seed + i.to_bytes(63 - ss, 'big'))
    with scale.Hash():
        obj = mon.must('gostrandom.new', gostrandom.new, size, rand_k=typed(seeds[0], rng), size_s=ss)
        per = (size + 63) // 64

        def out(seed, call):
            whole = b''.join(block(seed, call * per + 1 + j) for j in range(per))
            return whole[:64 * (size // 64)] + (whole[-64:][-(size % 64):] if size % 64 else b'')
        first = mon.attempt('random', obj.random)
        want = out(seeds[0], 0)
        if not first.returned or bytes(first.value) != want:
            mon.count('stand-in does not apply')
            return
        state = [seeds[0], 1]

        def step(i):
            if i % 2 or case['n'] < 5000:
                state[:] = [seeds[i % 5], 0]
                obj.reset(state[0])
            if i % 4 < 2:
                want = out(*state)
                state[1] += 1
                return age.differs(obj.random(), want)
            return None
        age.many(mon, 'generator resets', n, step)
        for k in range(3):
            mon.same('output %d after %d resets' % (k, n), mon.must('random', obj.random), out(*state))
            state[1] += 1
        mon.count('resets', n)
        mon.state('resets', ss, size, n.bit_length())


def run(case, mon):
    rng = rng_of(case)
    how = case['how']
    if how == 'resets':
        return resets(case, mon, rng)
    if how == 'deep':
        return deep(case, mon, rng)
    if how == 'sweep':
        return sweep(case, mon, rng)
    ss = rng.choice((48, 48, 40, 32, 32, 40, rng.choice((1, 8, 16, 33, 47, 50, 60, near(rng, 1, 60)))))
    size = rng.choice((0, 1, 16, 32, 63, 64, 65, 100, 128, 129, 192, rng.randrange(200), length(rng, 64, 12)))
    steps = rng.choice((rng.randrange(2, 9), near(rng, 2, 40)))
    if how == 'long':
        size, steps = rng.choice((64, 1, 128, 100)), 0
        while steps * ((size + 63) // 64) < 270:
            steps += rng.randrange(30, 90)
    elif how == 'long2':
        size, steps = 64 * 16, 4110
    elif how == 'exhaust':
        ss, size = 62, rng.choice((64, 1, 63, 64 * 3, 100, 64 * 10, 64 * 255, 64 * 256, 64 * 300))
        steps = 255 // ((size + 63) // 64) + 4
    elif how == 'exhaust2':
        ss, size, steps = 61, 64 * 64, 1024 + 3
    seed = bytes(ss) if how == 'zero' else seed_of(rng, ss)
    kw = dict(rand_k=typed(seed, rng))
    if ss != 48 or rng.random() < .5:
        kw['size_s'] = ss
    obj = mon.must('gostrandom.new', gostrandom.new, size, **kw)
    model = ref.Prng(size, seed)
    emitted = set()
    dead, most = False, 0
    for i in range(steps):
        if rng.random() < {'short': .3, 'long': .01}.get(how, 0) or how == 'zero' and i:
            seed = seed_of(rng, ss) if rng.random() < .7 or not any(seed) else seed
            mon.must('reset', obj.reset, typed(seed, rng))
            model = ref.Prng(size, seed)
            emitted = set()
            mon.count('resets')
        out = mon.attempt('random', obj.random)
        want = None if dead else model.random()
        most = max(most, model.count)
        where = 'output %d of %d octets (seed of %d octets, counter %d)' % (i, size, ss, model.count)
        if dead:
            # state after exhaustion: rejection, never an output that repeats earlier blocks
            mon.expect(not out.returned or not size, where + ' after exhaustion', out.text())
            mon.expect(out.returned or type(out.exc) is gostrandom.GOSTRandomError, where + ' after exhaustion', out.text())
            mon.state('prng', ss, 'dead', type(out.exc).__name__)
            continue
        if want in ('zero', 'limit'):
            text = {'zero': 'the seed value is zero', 'limit': 'exceeded the limit value of the counter'}[want]
            mon.expect(out.kind == 'exc' and type(out.exc) is gostrandom.GOSTRandomError and text in str(out.exc),
                       '%s: expected GOSTRandomError "%s"' % (where, text), out.text())
            mon.count('zero seed' if want == 'zero' else 'exhausted')
            dead = want == 'limit'
        else:
            mon.expect(out.returned, where, out.text())
            mon.same(where, out.value, want)
            mon.count('outputs')
            if size >= 16:
                mon.expect(bytes(out.value) not in emitted, where + ' repeats an earlier output')
                emitted.add(bytes(out.value))
        mon.state('prng', ss, size, (model.count.bit_length() + 7) // 8, how, want if isinstance(want, str) else 'ok')
    if dead:
        seed = seed_of(rng, ss)
        mon.must('reset', obj.reset, typed(seed, rng))
        model = ref.Prng(size, seed)
        for i in range(rng.randrange(1, 5)):
            want = model.random()
            if isinstance(want, str):
                break
            mon.same('output %d after exhaustion and reset' % i, mon.must('random', obj.random), want)
            mon.count('resets')
            mon.count('revived')
    if most > 256:
        mon.count('counter past 256')
