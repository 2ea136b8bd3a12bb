"""What is reachable from an object: every octet string, number and text in its object graph."""

import functools
import gc
import types

SKIP = (type, types.ModuleType, types.CodeType, types.FrameType, types.BuiltinFunctionType, types.GetSetDescriptorType,
        types.MemberDescriptorType, types.MethodDescriptorType, types.WrapperDescriptorType, property)
LEAF = (bytes, bytearray, int, str, float, complex, type(None), range)


def leaves(roots, skip_ids=(), into=(), limit=400000):
    """Yields (octets, path) for everything that can hold a secret."""
    seen = set(skip_ids)
    todo = [(r, p) for p, r in roots]
    n = 0
    while todo:
        obj, path = todo.pop()
        if id(obj) in seen:
            continue
        seen.add(id(obj))
        n += 1
        if n > limit:
            raise RuntimeError('object graph too large')
        if isinstance(obj, (bytes, bytearray)):
            yield bytes(obj), path
            continue
        if isinstance(obj, memoryview):
            yield obj.tobytes(), path
            continue
        if isinstance(obj, bool) or obj is None:
            continue
        if isinstance(obj, int):
            if obj > 255:
                yield obj.to_bytes((obj.bit_length() + 7) // 8, 'big'), path
            continue
        if isinstance(obj, str):
            if len(obj) >= 16:
                try:
                    yield bytes.fromhex(obj), path
                except ValueError:
                    yield obj.encode('utf-8', 'replace'), path
            continue
        if isinstance(obj, SKIP) and obj not in into:
            continue
        if isinstance(obj, types.FunctionType):
            for c in obj.__closure__ or ():
                try:
                    todo.append((c.cell_contents, path + '.closure'))
                except ValueError:
                    pass
            for d in (obj.__defaults__ or ()) + tuple((obj.__kwdefaults__ or {}).values()):
                todo.append((d, path + '.default'))
            continue
        if isinstance(obj, types.MethodType):
            todo += [(obj.__self__, path), (obj.__func__, path)]
            continue
        if isinstance(obj, (list, tuple)) and obj and all(type(x) is int and 0 <= x < 256 for x in obj):
            yield bytes(obj), path + '[]'
            continue
        if hasattr(obj, 'typecode') and hasattr(obj, 'tobytes'):
            yield obj.tobytes(), path
            continue
        if isinstance(obj, dict):
            for k, v in list(obj.items()):
                todo += [(k, path + '.key'), (v, '%s[%s]' % (path, k if isinstance(k, str) else '..'))]
            continue
        if isinstance(obj, (list, tuple, set, frozenset)):
            todo += [(x, path + '[]') for x in obj]
            continue
        if isinstance(obj, functools.partial):
            todo += [(obj.func, path), (obj.args, path), (obj.keywords, path)]
            continue
        for ref in gc.get_referents(obj):
            todo.append((ref, path))
        for slot in [s for cls in type(obj).__mro__ for s in ([cls.__dict__['__slots__']] if isinstance(cls.__dict__.get('__slots__'), str)
                                                             else cls.__dict__.get('__slots__', ()))]:
            try:
                todo.append((getattr(obj, slot), '%s.%s' % (path, slot)))
            except AttributeError:
                pass


class Secrets:
    """Octet strings to look for: windows of 8 octets of the long ones, exact items for the short ones."""

    def __init__(self):
        self.windows, self.items = {}, {}

    def add(self, label, data):
        data = bytes(data)
        if len(data) < 8:
            self.items[data] = label
            self.items[data[::-1]] = label
            return
        for d in (data, data[::-1]):
            for i in range(len(d) - 7):
                w = d[i:i + 8]
                if len(set(w)) > 3:
                    self.windows[w] = label

    def find(self, roots, into=()):
        """[(label, path)] of the secrets present, and the number of leaves looked at."""
        hits, n = [], 0
        for data, path in leaves(roots, into=into):
            n += 1
            if data in self.items:
                hits.append((self.items[data], path))
            if 8 <= len(data) <= 20000:
                for i in range(len(data) - 7):
                    label = self.windows.get(data[i:i + 8])
                    if label:
                        hits.append((label, path))
                        break
        return hits, n


def package_roots():
    """Module globals and class attributes of the package."""
    import sys
    roots, into = [], []
    for name, mod in sorted(sys.modules.items()):
        if name == 'gostcrypto' or name.startswith('gostcrypto.'):
            for k, v in list(vars(mod).items()):
                if isinstance(v, type) and v.__module__.startswith('gostcrypto'):
                    for a, w in list(vars(v).items()):
                        roots.append(('%s.%s.%s' % (name, k, a), w))
                elif not k.startswith('__'):
                    roots.append(('%s.%s' % (name, k), v))
    return roots, into
