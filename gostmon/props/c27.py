"""C27: destroying, clearing or failing to create objects harms nobody else."""

import gc
import os
import subprocess
import sys

from gostmon import entropy, target
from . import c18, script
from .common import ALGS, MODES, PADS, gen, gostcipher, gosthash, gosthmac, gostpbkdf, gostrandom, gostsignature, rng_of

FILES = ('gostcipher/gost_34_12_2015.py', 'gostcipher/gost_34_13_2015.py', 'gosthmac/r_50_1_113_2016.py',
         'gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py', 'gosthash/gost_34_11_2012.py',
         'gostsignature/gost_34_10_2012.py')
RULE = ('case = the history of one survivor, executed alone, and again while in between its relatives are created from the very '
        'same key, password or seed buffer (and from equal octets), used, cleared up to three times at any point, dropped, dropped in '
        'reference cycles and collected; its copies are used, cleared and dropped, or the survivor hands over to its copy and is '
        'cleared and dropped itself; constructors fail for every invalid argument of C18, for the wrong key of a bare block '
        'cipher, and because the entropy source fails; objects made with default arguments (initialization vectors, data) before and after such incidents. Oracles: the results of the survivor and the shared buffers are those '
        'of the undisturbed execution; clear() raises nothing; failed constructors raise the documented exception; the '
        'interpreter reports no error from a finalizer (sys.unraisablehook; for objects alive at exit: standard error of a '
        'child interpreter). Distinct = (kind, disturbance, step of the survivor); non-trivial = a later result compared.')
ASSUMES = ('copies are made with copy() of the hash and HMAC classes; results of a cleared object itself are not judged here (C21)',
           'constructors of the bare block ciphers and failing entropy may raise any exception')
REACH = {'disturbances': 3000, 'compared after a disturbance': 2500, 'clears': 1500, 'failed constructors': 800, 'handed over': 30,
         'interpreter exits': 3}

SURVIVORS = ('cipher', 'cipher', 'cipher', 'mac', 'hash', 'hmac', 'hmac', 'random', 'pbkdf', 'direct', 'direct', 'signature')


def cases(tier, rng):
    res = [dict(s=rng.getrandbits(48), kind=k) for _ in range({'quick': 110, 'thorough': 3500}[tier]) for k in SURVIVORS]
    res += [dict(s=rng.getrandbits(48), kind='defaults') for _ in range({'quick': 40, 'thorough': 1000}[tier])]
    res += [dict(s=rng.getrandbits(48), kind='exit') for _ in range({'quick': 6, 'thorough': 120}[tier])]
    return res


class World:
    def __init__(self, mon, rng, kind, steps):
        self.mon, self.rng, self.kind = mon, rng, kind
        self.shared = {}                     # octets -> the one buffer every relative gets
        self.relatives = []
        self.secret = self.find_secret(steps)
        self.what = []
        self.fails = [s for s in c18.table() if '.new' in s.key]

    def find_secret(self, steps):
        _, _, what, args, kw = steps[0]
        return {'cipher': lambda: args[1], 'direct': lambda: args[1], 'hmac': lambda: args[1], 'pbkdf': lambda: args[0],
                'random': lambda: kw.get('rand_k')}.get(what, lambda: None)()

    def buf(self, octets):
        """One buffer per value, shared by everybody who uses that value."""
        octets = bytes(octets)
        if octets not in self.shared:
            self.shared[octets] = bytearray(octets)
        return self.shared[octets]

    def clear(self, name, obj):
        for _ in range(self.rng.choice((1, 1, 2, 3))):
            self.mon.must('clear() of ' + name, obj.clear)
            self.mon.count('clears')

    def relative(self):
        """Creates one more object, from the secret of the survivor where the lengths allow it."""
        rng, sec = self.rng, self.secret
        key32 = sec if sec is not None and len(sec) == 32 else self.rng.randbytes(32)
        any64 = sec if sec is not None and rng.random() < .8 and len(sec) <= 64 else gen(rng, rng.choice((16, 32, 64)), 'rand')
        kind = rng.choice(('cipher', 'mac', 'direct', 'direct', 'hmac', 'pbkdf', 'random', 'same', 'same'))
        if kind == 'same':
            kind = self.kind
        if kind in ('cipher', 'mac', 'direct'):
            steps = script.KINDS[kind](rng, key=key32)
        elif kind == 'hmac':
            steps = script.hmac(rng, key=any64)
        elif kind == 'pbkdf':
            steps = script.pbkdf(rng, password=any64)
        elif kind == 'random':
            steps = script.random_(rng, seed=sec if sec is not None and len(sec) in (32, 40, 48) and sec[0] else None)
        else:
            steps = script.KINDS[kind](rng)
        ex = script.Executor(self.mon, 'relative ', self.buf if rng.random() < .8 else None)
        for step in steps[:rng.randrange(1, len(steps) + 1)]:
            res = ex.do(step)
            self.mon.expect(res[0] == 'ret', 'valid call on a relative %s' % script.text(step), str(res))
        self.relatives.append((kind, ex.objects))
        return 'new ' + kind

    def drop(self, objects, how):
        rng = self.rng
        if how == 'cycle':
            ring = [objects]
            ring.append(ring)
            del ring
        objects = None      # noqa
        if how == 'cycle' and rng.random() < .6:
            gc.collect()

    def failed(self):
        rng, mon = self.rng, self.mon
        how = rng.choice(('c18', 'c18', 'c18', 'late', 'late', 'bare', 'entropy'))
        if how == 'c18':
            s = rng.choice(self.fails)
            what = rng.choice((['type'] if s.types else []) + (['len'] if s.lengths else []) + (['value'] if s.values else []))
            if what == 'type':
                value = c18.TYPES[rng.choice(list(c18.TYPES))](s.size, rng)
            elif what == 'len':
                value = self.buf(gen(rng, rng.choice(s.lengths)))
            else:
                value = rng.choice(s.values)
            op, fn, args, kw = s.build(rng, value)
            args = tuple(self.buf(self.secret) if isinstance(a, (bytes, bytearray)) and a is not value and self.secret is not None and
                         len(a) == len(self.secret) else a for a in args)
            err = s.err
        elif how == 'late':
            # a good shared secret, something else wrong
            key = self.buf(self.secret if self.secret is not None and len(self.secret) == 32 else rng.randbytes(32))
            alg, mode = rng.choice(ALGS), rng.choice(list(MODES))
            bad = rng.choice((b'', b'1', [1], 5, None, 'x' * 8, bytes(5)))
            kw = dict(init_vect=bad) if mode in ('cbc', 'cfb', 'ofb', 'ctr') else dict(pad_mode=77) if mode == 'ecb' else dict(data=rng.choice(('x', [1], 5, None)))
            op, fn, args, err = 'gostcipher.new', gostcipher.new, (alg, key, MODES[mode]), gostcipher.GOSTCipherError
            other = rng.random()
            if other < .25:
                op, fn, args, kw, err = 'gosthmac.new', gosthmac.new, (rng.choice(('HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512')), key), \
                    dict(data=rng.choice(('x', [1], 5, None))), gosthmac.GOSTHMACError
            elif other < .4:
                op, fn, args, kw, err = 'gostpbkdf.new', gostpbkdf.new, (key,), dict(salt=rng.choice(('x', [1], 5, None))), gostpbkdf.GOSTPBKDFError
            elif other < .5:
                op, fn, args, kw, err = 'gosthmac.new', gosthmac.new, ('HMAC', key), {}, gosthmac.GOSTHMACError
        elif how == 'bare':
            cls = rng.choice((gostcipher.GOST34122015Magma, gostcipher.GOST34122015Kuznechik))
            bad = rng.choice((b'', bytes(rng.randrange(1, 31)), bytearray(rng.randrange(1, 31)), None, 5, 'key', [], [1, 2], {}, ()))
            op, fn, args, kw, err = cls.__name__, cls, (bad,), {}, None
        else:
            op, fn, args, kw = rng.choice((('gostpbkdf.new', gostpbkdf.new, (self.buf(b'password'),), {}),
                                           ('gostrandom.new', gostrandom.new, (16,), {}),
                                           ('gostrandom.new', gostrandom.new, (16,), dict(size_s=32))))
            err = None

            def broken(n):
                raise OSError('no entropy')
            entropy.SOURCE.feed(broken)
        try:
            out = mon.attempt(op + ' (invalid)', fn, *args, **kw)
        finally:
            if how == 'entropy':
                entropy.SOURCE.stop()
        if err is not None:
            mon.expect(out.kind == 'exc' and isinstance(out.exc, err), '%s%s %s' % (op, tuple(str(a)[:40] for a in args), list(kw)), out.text())
        if out.kind == 'exc':
            out.exc = out.exc.with_traceback(None)
            mon.count('failed constructors')
        mon.log[-1] = mon.log[-1]._replace(outcome=type(out)('exc', exc=RuntimeError('(dropped)')))
        return how

    def disturb(self, survivor):
        rng, mon = self.rng, self.mon
        x = rng.random()
        if x < .3 or not self.relatives and x < .6:
            what = self.relative()
        elif x < .6 and self.relatives:
            kind, objects = rng.choice(self.relatives)
            what = 'clear ' + kind
            for slot in sorted(objects):
                if hasattr(objects[slot], 'clear') and rng.random() < .8:
                    self.clear(kind, objects[slot])
        elif x < .75 and self.relatives:
            kind, objects = self.relatives.pop(rng.randrange(len(self.relatives)))
            how = rng.choice(('plain', 'cycle'))
            what = 'drop %s %s' % (kind, how)
            objects = dict(objects) if how == 'cycle' else objects
            self.drop(objects, how)
            objects = None
        elif x < .88 or not hasattr(survivor, 'copy'):
            what = 'failed ' + self.failed()
        else:
            z = mon.must('copy', survivor.copy)
            what = 'copy used'
            for _ in range(rng.randrange(3)):
                mon.must('copy.update', z.update, gen(rng, rng.choice((1, 63, 64, 65))))
            if rng.random() < .5:
                mon.must('copy.digest', z.digest)
            if rng.random() < .4:
                what = 'copy reset'
                mon.must('copy.reset', z.reset)
            if hasattr(z, 'clear') and rng.random() < .7:
                what = 'copy cleared'
                self.clear('a copy', z)
            del z
        mon.count('disturbances')
        return what


def run(case, mon):
    rng = rng_of(case)
    del mon.unraisable[:]
    if case['kind'] == 'defaults':
        return run_defaults(case, mon, rng)
    if case['kind'] == 'exit':
        return run_exit(case, mon, rng)
    kind = case['kind']
    steps = script.with_attributes(rng, kind, script.KINDS[kind](rng), .3)
    plain = script.Executor(mon, 'alone ').run(steps)
    world = World(mon, rng, kind, steps)
    ex = script.Executor(mon, '', world.buf)
    last = None
    for i, step in enumerate(steps):
        for _ in range(rng.choice((0, 0, 1, 1, 2, 4))):
            last = world.disturb(ex.objects.get('o'))
            mon.expect(not mon.unraisable, 'a finalizer failed after: %s' % last, '; '.join(mon.unraisable[:3]))
        if 'o' in ex.objects and hasattr(ex.objects['o'], 'copy') and rng.random() < .15:
            old = ex.objects['o']
            ex.objects['o'] = mon.must('copy', old.copy)
            if rng.random() < .6 and hasattr(old, 'clear'):
                world.clear('the original', old)
            if rng.random() < .5:
                mon.must('update of the original', old.reset)
            del old
            last = 'handed over'
            mon.count('handed over')
        got = ex.do(step)
        mon.expect(got == plain[i], 'step %d %s after: %s' % (i, script.text(step), last), 'observed %s, undisturbed %s' % (got, plain[i]))
        for octets, buf in world.shared.items():
            mon.expect(buf == octets, 'a buffer of the caller changed by %s or the disturbance %s' % (script.text(step), last),
                       'was %s, is %s' % (octets.hex(), buf.hex()))
        if last:
            mon.count('compared after a disturbance')
            mon.state('after', kind, last, step[2], i)
    # the survivor itself: cleared repeatedly, dropped; then the rest
    o = ex.objects.pop('o')
    if hasattr(o, 'clear') and rng.random() < .7:
        world.clear(kind, o)
    ex.raw = None
    del o
    world.relatives.clear()
    gc.collect(rng.choice((0, 0, 0, 2)))
    mon.expect(not mon.unraisable, 'a finalizer failed at the end', '; '.join(mon.unraisable[:3]))


def run_defaults(case, mon, rng):
    """What an object made with the default arguments does is the same before and after the incidents of others."""
    key, data = rng.randbytes(32), rng.randbytes(48)

    def probe():
        res = {}
        for alg in ALGS:
            for mode in MODES:
                o = mon.must('gostcipher.new', gostcipher.new, alg, key, MODES[mode])
                if mode == 'mac':
                    o.update(data)
                    res[alg, mode] = bytes(o.digest(8))
                else:
                    res[alg, mode] = bytes(o.encrypt(data))
        for n in (256, 512):
            res['hash', n] = bytes(gosthash.new('streebog%d' % n).digest())
            res['hmac', n] = bytes(gosthmac.new('HMAC_GOSTR3411_2012_%d' % n, key).digest())
        res['pbkdf'] = bytes(gostpbkdf.new(key, salt=data, counter=1).derive(30))
        res['random'] = bytes(gostrandom.new(16, rand_k=data).random())
        return res

    def quietly(fn, *args, **kw):
        try:
            return fn(*args, **kw)
        except Exception:
            return None

    first, trail = probe(), []
    for _ in range(rng.randrange(3, 9)):
        alg, mode = rng.choice(ALGS), rng.choice(list(MODES))
        what = rng.choice(('bad pad', 'bad iv', 'bad data', 'bad key', 'bad name', 'use', 'clear', 'attributes', 'entropy'))
        trail.append('%s %s %s' % (what, alg, mode))
        buf = bytearray(key if rng.random() < .5 else rng.randbytes(32))
        if what == 'bad pad':
            quietly(gostcipher.new, alg, buf, MODES[rng.choice(('ecb', 'cbc', 'cbc'))], pad_mode=rng.choice((0, 77, None, 'x')))
        elif what == 'bad iv':
            iv = bytearray(rng.choice((1, 5, 9, 100, 7, 33)))
            quietly(gostcipher.new, alg, buf, MODES[rng.choice(('cbc', 'cfb', 'ofb', 'ctr'))], init_vect=iv)
        elif what == 'bad data':
            quietly(gostcipher.new, alg, buf, MODES['mac'], data=rng.choice(('x', 5, [1])))
            quietly(gosthash.new, 'streebog512', data=rng.choice(('x', 5, [1])))
            quietly(gosthmac.new, 'HMAC_GOSTR3411_2012_512', buf, data=rng.choice(('x', 5, [1])))
        elif what == 'bad key':
            quietly(gostcipher.new, alg, bytearray(rng.choice((0, 31, 33))), MODES[mode])
            quietly(gostrandom.new, 16, rand_k=bytearray(5))
            quietly(gostpbkdf.new, bytearray(70))
        elif what == 'bad name':
            quietly(gostcipher.new, 'rc4', buf, MODES[mode])
            quietly(gosthash.new, 'sha')
            quietly(gosthmac.new, 'sha', buf)
        elif what == 'entropy':
            def broken(n):
                raise OSError('no entropy')
            entropy.SOURCE.feed(broken)
            try:
                quietly(gostpbkdf.new, buf)
                quietly(gostrandom.new, 16)
            finally:
                entropy.SOURCE.stop()
        else:
            o = mon.must('gostcipher.new', gostcipher.new, alg, buf, MODES[mode])
            if mode == 'mac':
                o.update(data)
                o.digest(4)
            elif what == 'attributes':
                for name in ('iv', 'counter'):
                    v = getattr(o, name, None)
                    if isinstance(v, bytearray):
                        v[:] = bytes(len(v))
            else:
                getattr(o, rng.choice(('encrypt', 'decrypt')))(bytes(32))
            if what == 'clear' and hasattr(o, 'clear'):
                o.clear()
            h = gosthmac.new('HMAC_GOSTR3411_2012_256', buf)
            h.update(data)
            h.clear()
            del o, h
        mon.count('disturbances')
        if rng.random() < .4:
            gc.collect()
        now = probe()
        for k in first:
            mon.expect(now[k] == first[k], 'an object made with default arguments %s after %s' % (k, trail),
                       'observed %s, before %s' % (now[k].hex(), first[k].hex()))
            mon.count('compared after a disturbance')
        mon.state('defaults', what, mode)


CHILD = '''
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %(repo)r)
import random, gc
rng = random.Random(%(seed)d)
import gostcrypto
from gostcrypto import gostcipher, gosthash, gosthmac, gostpbkdf, gostrandom, gostsignature
keep = []
key = bytearray(rng.randbytes(32))
makers = [lambda a=a, m=m: gostcipher.new(a, key, m) for a in ('magma', 'kuznechik') for m in
          (gostcipher.MODE_ECB, gostcipher.MODE_CBC, gostcipher.MODE_CFB, gostcipher.MODE_OFB, gostcipher.MODE_CTR, gostcipher.MODE_MAC)]
makers += [lambda c=c: c(key) for c in (gostcipher.GOST34122015Magma, gostcipher.GOST34122015Kuznechik)]
makers += [lambda n=n: gosthmac.new(n, key, data=b'abc') for n in ('HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512')]
makers += [lambda: gostpbkdf.new(key, counter=1), lambda: gostrandom.new(32), lambda: gosthash.new('streebog256', data=b'x'),
           lambda: gostsignature.new(gostsignature.MODE_256, gostsignature.CURVES_R_1323565_1_024_2019['id-tc26-gost-3410-2012-256-paramSetB'])]
bad = [lambda: gostcipher.new('magma', b'1', gostcipher.MODE_CBC), lambda: gosthmac.new('HMAC_GOSTR3411_2012_256', b'1' * 65),
       lambda: gostpbkdf.new(b'1' * 65), lambda: gostrandom.new(16, rand_k=b'1'), lambda: gostcipher.GOST34122015Magma(b''),
       lambda: gostcipher.GOST34122015Kuznechik(b'')]
class Node: pass
errors = []
for i in range(12):
    mk = rng.choice(makers)
    o = mk()
    how = rng.randrange(6)
    if how == 0 and hasattr(o, 'clear'):
        o.clear()
    if how == 1:
        n = Node(); n.me = n; n.o = o; keep.append(n); del n
    elif how == 2:
        setattr(gostcrypto, 'left_%%d' %% i, o)
    elif how == 3:
        globals()['left_%%d' %% i] = o
    elif how == 4:
        setattr(gostcipher.GOST34122015Magma, 'left_%%d' %% i, o)
    else:
        keep.append(o)
    del o
    if rng.random() < .4:
        try:
            rng.choice(bad)()
        except Exception as exc:
            if rng.random() < .5:
                errors.append(exc)
sys.stdout.write('alive %%d' %% len(keep))
sys.stdout.flush()
end = %(end)d
if end == 1:
    sys.exit(0)
if end == 2:
    sys.modules.pop('gostcrypto.utils', None)
if end == 3:
    gc.disable()
'''


def run_exit(case, mon, rng):
    """Objects alive when the interpreter ends."""
    code = CHILD % dict(repo=os.path.realpath(target.REPO), seed=rng.getrandbits(32), end=rng.randrange(4))

    def child():
        return subprocess.run([sys.executable, '-I', '-c', code], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, timeout=120, check=False)
    try:
        out = child()
    except subprocess.TimeoutExpired:
        mon.count('interpreter exits timed out')
        return
    mon.events += 1
    mon.expect(out.stdout.startswith(b'alive'), 'a program with live objects failed', out.stderr.decode('utf-8', 'replace')[-300:])
    mon.expect(out.returncode == 0 and not out.stderr.strip(), 'ending the interpreter with live objects reports errors',
               'exit status %d' % out.returncode, out.stderr.decode('utf-8', 'replace')[-400:])
    mon.count('interpreter exits')
    mon.state('exit', case['s'] & 0xff)
