"""Executes pickled histories in an interpreter of its own (only the package, nothing of the harness is imported).

stdin: pickle of dict(repo, depth, where, runs=[steps]); stdout: repr of the list of result lists, after a marker line."""
import os
import pickle
import sys


def norm(v):
    if isinstance(v, (bytes, bytearray)):
        return 'octets', bytes(v)
    if type(v).__name__ == 'ObjectIdentifier':
        return 'oid', str(v), v.name, v.digit, bytes(v.octet)
    if isinstance(v, (str, int, bool, tuple, type(None))):
        return type(v).__name__, v
    return 'object', type(v).__name__


def main():
    job = pickle.load(sys.stdin.buffer)
    sys.dont_write_bytecode = True
    sys.path.insert(0, job['repo'])
    import gostcrypto
    from gostcrypto import gostcipher, gosthash, gosthmac, gostoid, gostpbkdf, gostrandom, gostsignature
    here = os.path.dirname(os.path.abspath(gostcrypto.__file__))
    if here != os.path.join(os.path.realpath(job['repo']), 'gostcrypto'):
        sys.exit('wrong gostcrypto: %s' % here)
    make = {'cipher': gostcipher.new, 'hash': gosthash.new, 'hmac': gosthmac.new, 'pbkdf': gostpbkdf.new, 'random': gostrandom.new,
            'oid': gostoid.ObjectIdentifier,
            'signature': lambda name: gostsignature.new(gostsignature.MODE_512 if '512' in name else gostsignature.MODE_256,
                                                        gostsignature.CURVES_R_1323565_1_024_2019[name]),
            'direct': lambda alg, key: {'magma': gostcipher.GOST34122015Magma, 'kuznechik': gostcipher.GOST34122015Kuznechik}[alg](key)}

    def do(objects, step):
        kind, slot, name, args, kw = step
        try:
            if kind == 'del':
                objects.pop(slot, None)
                return 'ret', ('deleted',)
            if kind == 'new':
                objects[slot] = make[name](*args, **kw)
                return 'ret', ('object', type(objects[slot]).__name__)
            if kind == 'copy':
                objects[name] = objects[slot].copy()
                return 'ret', ('object', type(objects[name]).__name__)
            if kind == 'get':
                return 'ret', norm(getattr(objects[slot], name))
            return 'ret', norm(getattr(objects[slot], name)(*args, **kw))
        except Exception as exc:  # noqa: the outcome is what is recorded
            return 'exc', type(exc).__name__, str(exc)

    def run():
        res = []
        for steps in job['runs']:
            objects = {}
            res.append([do(objects, s) for s in steps])
        return res

    def deep(n):
        return deep(n - 1) if n else run()

    if job['where'] == 'thread':
        import threading
        box = []
        t = threading.Thread(target=lambda: box.append(deep(job['depth'])))
        t.start()
        t.join()
        res = box[0]
    elif job['where'] == 'finalizer':
        box = []

        class Last:
            def __del__(self):
                box.append(deep(job['depth']))
        x = Last()
        del x
        res = box[0]
    elif job['where'] == 'generator':
        res = next(r for r in (deep(job['depth']) for _ in (0,)))
    else:
        res = deep(job['depth'])
    sys.stdout.flush()
    out = ('\nRESULT ' + ascii(res) + '\n').encode()
    sys.stdout.buffer.write(out)
    sys.stdout.buffer.flush()


main()
