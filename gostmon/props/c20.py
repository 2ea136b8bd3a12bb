"""C20: caller buffers are not modified and not shared."""

import random

from . import c18, script, sig
from .common import gen, gostsignature, rng_of
from gostmon.core import short

FILES = ('gostcipher/gost_34_13_2015.py', 'gostcipher/gost_34_12_2015.py', 'gosthash/gost_34_11_2012.py',
         'gosthmac/r_50_1_113_2016.py', 'gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py',
         'gostsignature/gost_34_10_2012.py')
RULE = ('case = one history of calls on one object (cipher modes, block ciphers, MAC, hash, HMAC, generator, derivation, '
        'signature, identifiers; copies, resets, reads of counter/iv/salt/octet included), executed with fresh bytes arguments, '
        'and again with bytearray arguments where every argument is compared with what was passed when the call ends and then '
        'scribbled over (inverted, emptied, extended, given the octets of later or earlier arguments and results; at once, some steps later, or by refilling one buffer used for all calls), '
        'and every returned bytearray is scribbled over as well; and single calls, rejected ones of every kind included, whose buffers have to be as they were. Oracle: the second execution gives the results of the first. '
        'Distinct = (kind, operation, argument index, scribble style); non-trivial = an argument or result was scribbled over '
        'and a later result compared.')
ASSUMES = ('the curve description is a dictionary and counts as a buffer here: it is copied or its numbers are, not kept',)
REACH = {'arguments': 3000, 'scribbled results': 1500, 'compared': 4000}

STYLES = ('now', 'now', 'later', 'reuse', 'empty', 'extend', 'mixed types', 'other value', 'other value')


def cases(tier, rng):
    kinds = ('cipher', 'cipher', 'cipher', 'cipher', 'mac', 'mac', 'hash', 'hash', 'hmac', 'hmac', 'random', 'pbkdf', 'direct', 'oid')
    n = {'quick': 90, 'thorough': 3000}[tier]
    res = [dict(s=rng.getrandbits(48), kind=k) for k in kinds for _ in range(n)]
    res += [dict(s=rng.getrandbits(48), kind='signature') for _ in range(n)]
    res += [dict(s=rng.getrandbits(48), kind='curve') for _ in range({'quick': 10, 'thorough': 200}[tier])]
    for s in c18.table():
        for n in ([('len', v) for v in rng.sample(s.lengths, min(len(s.lengths), 6 if tier == 'quick' else 40))] if s.lengths else []) + \
                [('value', k) for k in range(len(s.values)) if isinstance(s.values[k], bytearray)] + \
                [('good', g) for g in s.good[:2] + s.good[-2:] if isinstance(g, int)]:
            res.append(dict(s=rng.getrandbits(48), kind='one', site=s.key, what=n[0], v=n[1]))
        for t in rng.sample(['None', 'str', 'list', 'int', 'empty str'], 2) if s.types else []:
            res.append(dict(s=rng.getrandbits(48), kind='one', site=s.key, what='type', v=t))
    return res


def run_one(case, mon, rng):
    """One call, rejected or not, with every octet string in a buffer of the caller: none of them changes, then or when the object goes."""
    s = next(x for x in c18.table() if x.key == case['site'])
    what, v = case['what'], case['v']
    if what == 'type':
        value = c18.TYPES[v](s.size, rng)
    elif what == 'value':
        value = bytearray(s.values[v])
    else:
        value = bytearray(gen(rng, v, 'rand'))
    built = mon.call('prepare ' + s.key, s.build, rng, value)
    mon.expect(built.returned, s.key + ': a valid preparatory call failed', built.text())
    op, fn, args, kw = built.value
    args = tuple(bytearray(a) if isinstance(a, (bytes, bytearray)) and a is not value else a for a in args)
    kw = {k: bytearray(a) if isinstance(a, (bytes, bytearray)) and a is not value else a for k, a in kw.items()}
    bufs = [b for b in args + tuple(kw.values()) if isinstance(b, bytearray)]
    sent = [bytes(b) for b in bufs]
    out = mon.attempt(op, fn, *args, **kw)
    for turn in ('the call', 'the end of the object'):
        for buf, was in zip(bufs, sent):
            mon.expect(bytes(buf) == was, '%s (%s %s): %s modified an argument (%s)' % (op, what, v, turn, 'accepted' if out.returned else 'rejected'),
                       'passed %s, now %s' % (short(was), short(bytes(buf))))
            resize(mon, lambda buf=buf: (buf.append(1), buf.pop()))
            mon.count('arguments')
        if out.kind == 'exc':
            out.exc = out.exc.with_traceback(None)
        mon.log[-1] = mon.log[-1]._replace(outcome=type(out)('exc', exc=RuntimeError('(dropped)')))
        out, fn, built = type(out)('exc', exc=RuntimeError('(dropped)')), None, None
    mon.state('one call', case['site'], what)


def scribble(buf, rng, style, others=()):
    """What the caller does with a buffer of its own; `others` are octets that occur elsewhere in the history, the next ones first."""
    if style == 'other value' and others:
        fit = [v for v in others if len(v) == len(buf)] or others
        buf[:] = fit[0] if rng.random() < .5 else rng.choice(fit)
        return
    if style == 'empty':
        del buf[:]
    elif style == 'extend':
        buf.extend(rng.randbytes(rng.randrange(1, 80)))
    elif len(buf):
        for i in range(len(buf)):
            buf[i] ^= 0xff


def resize(mon, action):
    """The caller changes a buffer of its own; the package holding a view of it would make that fail."""
    try:
        action()
    except BufferError as exc:
        mon.expect(False, 'the caller cannot change the length of its own buffer after the call', str(exc))


def run(case, mon):
    rng = rng_of(case)
    if case['kind'] == 'one':
        return run_one(case, mon, rng)
    if case['kind'] == 'curve':
        return run_curve(case, mon, rng)
    steps = script.with_attributes(rng, case['kind'], script.KINDS[case['kind']](rng), .3)
    values = []                # octets of the arguments and results of each step

    def note(_step, args, value):
        values.append([bytes(v) for v in (value,) + args if isinstance(v, (bytes, bytearray)) and v])

    plain = script.Executor(mon, 'plain ', bytes, note).run(steps)
    for style in rng.sample(STYLES, 3):
        execute(case, mon, rng, steps, plain, style, values)
    return None


def execute(case, mon, rng, steps, plain, style, values):
    held = []                  # (buffer, octets passed)
    shared = bytearray()
    one = random.Random(rng.getrandbits(32))

    def convert(b):
        if style == 'mixed types' and one.random() < .5:
            return bytes(b)
        if style == 'reuse' and one.random() < .8:
            if not any(shared is buf for buf, _ in held):
                resize(mon, lambda: shared.__setitem__(slice(None), b))
                held.append((shared, bytes(b)))
                return shared
        buf = bytearray(b)
        held.append((buf, bytes(b)))
        return buf

    waiting, done = [], [0]

    def after(step, args, value):
        for i, (buf, sent) in enumerate(held):
            mon.expect(bytes(buf) == sent, '%s modified an argument' % script.text(step), 'passed %s, now %s' % (short(sent), short(buf)))
            mon.count('arguments')
            mon.state('argument', case['kind'], step[2], i, style)
        todo = [b for b, _ in held]
        if isinstance(value, bytearray):
            todo.append(value)
            mon.count('scribbled results')
            mon.state('result', case['kind'], step[2], style)
        if style == 'later':
            waiting.extend(todo)
            ready = [b for b in waiting if one.random() < .4]
            waiting[:] = [b for b in waiting if not any(b is r for r in ready)]
        else:
            ready = todo
        done[0] += 1
        others = [v for part in values[done[0]:] + values[:done[0]] for v in part] if style == 'other value' else ()
        for b in ready:
            resize(mon, lambda: scribble(b, one, style, others))
        held.clear()

    ex = script.Executor(mon, style + ' ', convert, after)
    for i, step in enumerate(steps):
        got = ex.do(step)
        mon.expect(got == plain[i], 'step %d %s after the caller changed its buffers (%s)' % (i, script.text(step), style),
                   'observed %s, with untouched bytes %s' % (got, plain[i]))
        mon.count('compared')


def run_curve(case, mon, rng):
    name = rng.choice(sig.C256)
    c = sig.ec.CURVES[name]
    mine = dict(sig.SUPPLIED[name])
    before = dict(mine)
    obj = mon.must('gostsignature.new', gostsignature.new, sig.mode_of(c), mine)
    mon.expect(mine == before, 'gostsignature.new modified the curve description', name)
    other = sig.SUPPLIED[rng.choice([n for n in sig.C256 if n != name])]
    for k in list(mine):
        if k in other:
            mine[k] = other[k]
        elif rng.random() < .5:
            del mine[k]
    d, k = sig.scalar(rng, c)[1], sig.scalar(rng, c)[1]
    h = sig.digest_of(rng, c)[1]
    want = c.sign(d, h, k)
    mon.same('public key after the caller changed its curve description', mon.must('public_key_generate', obj.public_key_generate, sig.enc(d, c)),
             c.encode(c.public(d)))
    if want:
        mon.same('signature after the caller changed its curve description', mon.must('sign', obj.sign, sig.enc(d, c), h, sig.enc(k, c)), want)
    mon.expect(sig.SUPPLIED[name] == before, 'the supplied parameter set was changed', name)
    mon.count('compared')
    mon.state('curve', name)
