"""Loads the code under test from the repository's working tree (never from stale bytecode)."""

import os
import sys
import tempfile

REPO = os.environ.get('GOSTMON_REPO', '/repo')


def load():
    sys.dont_write_bytecode = True
    # An empty cache prefix: no __pycache__ of the tree is ever read, none is written.
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'gostmon-no-such-cache-%d' % os.getpid())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import entropy
    entropy.install()
    import gostcrypto
    if os.path.dirname(os.path.abspath(gostcrypto.__file__)) != os.path.join(os.path.realpath(REPO), 'gostcrypto'):
        raise SystemExit('wrong gostcrypto: %s' % gostcrypto.__file__)
    return gostcrypto


class Lines:
    """Which lines of the package the workload executed (PEP 669, each line reported once)."""

    TOOL = 3

    def __init__(self):
        self.hit = set()
        self.prefix = os.path.join(os.path.realpath(REPO), 'gostcrypto')

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        mon.use_tool_id(self.TOOL, 'gostmon-lines')
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(self.prefix):
            self.hit.add((code.co_filename[len(self.prefix) + 1:], line))
        return sys.monitoring.DISABLE


def executable_lines():
    """All lines with code inside function bodies of the package: {(path, line): function}."""
    res = {}
    for path, c in _walk_code():
        if c.co_flags & 2 and c.co_name != '<module>':
            for _s, _e, ln in c.co_lines():
                if ln and ln != c.co_firstlineno:
                    res[path, ln] = c.co_qualname
    return res


# -- workload guidance (never judges; it only decides where the workload looks harder) ----------------------------

BASELINE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline')


def _walk_code():
    root = os.path.join(os.path.realpath(REPO), 'gostcrypto')
    for base, _dirs, files in os.walk(root):
        for f in sorted(files):
            if f.endswith('.py'):
                path = os.path.join(base, f)
                with open(path, encoding='utf-8') as fh:
                    todo = [compile(fh.read(), path, 'exec')]
                while todo:
                    c = todo.pop()
                    todo += [k for k in c.co_consts if hasattr(k, 'co_code')]
                    yield os.path.relpath(path, root), c


def constants():
    """How often each literal occurs in the functions of the package, as {text: count}."""
    res = {}

    def add(v):
        if isinstance(v, (tuple, frozenset)):
            for x in v:
                add(x)
        elif isinstance(v, bool) or v is None:
            pass
        elif isinstance(v, int) or isinstance(v, (bytes, str)) and len(v) <= 80:
            key = repr(v)
            res[key] = res.get(key, 0) + 1

    for _path, c in _walk_code():
        if c.co_name != '<module>':
            for v in c.co_consts:
                add(v)
        else:
            for v in c.co_consts:      # module level: short literals only, tables are data
                if isinstance(v, (int, bytes, str)):
                    add(v)
    return res


def _hints():
    import ast
    import json
    path = os.path.join(BASELINE, 'constants.json')
    if not os.path.exists(path):
        return [], []
    with open(path, encoding='utf-8') as fh:
        base = json.load(fh)
    numbers, strings = set(), set()
    for key, n in constants().items():
        if n > base.get(key, 0):
            v = ast.literal_eval(key)
            if isinstance(v, int):
                numbers.add(abs(v))
            elif isinstance(v, bytes):
                strings.add(v)
    return sorted(numbers)[:60], sorted(strings)[:20]


def hints():
    """(numbers, octet strings) that occur in the tree more often than in the tree the workload was written for."""
    global _HINTS
    if _HINTS is None:
        _HINTS = _hints()
    return _HINTS


_HINTS = None


def bodies():
    """{path: {function: digest of what it executes}} (no line numbers, no names of locals)."""
    import hashlib
    res = {}
    for path, c in _walk_code():
        text = repr((c.co_code, c.co_names, c.co_exceptiontable,
                     [repr(sorted(map(repr, v)) if isinstance(v, frozenset) else v) for v in c.co_consts if not hasattr(v, 'co_code')]))
        digest = hashlib.sha256(text.encode('utf-8', 'replace')).hexdigest()[:16]
        names = res.setdefault(path, {})
        names[c.co_qualname] = names.get(c.co_qualname, '') + digest
    return res


USES = {'gostcipher/gost_34_13_2015.py': ['gostcipher/gost_34_12_2015.py'],
        'gosthmac/r_50_1_113_2016.py': ['gosthash/gost_34_11_2012.py'],
        'gostpbkdf/r_50_1_111_2016.py': ['gosthmac/r_50_1_113_2016.py', 'gosthash/gost_34_11_2012.py'],
        'gostrandom/r_1323565_1_006_2017.py': ['gosthash/gost_34_11_2012.py']}


def changed(files):
    """Functions of the files (and of those they use) that are not the ones the workload was written for (guidance only)."""
    import json
    path = os.path.join(BASELINE, 'bodies.json')
    if not os.path.exists(path):
        return []
    with open(path, encoding='utf-8') as fh:
        base = json.load(fh)
    now = bodies()
    files = sorted({'utils/utils.py', *files, *(u for f in files for u in USES.get(f, ()))})
    return sorted('%s:%s' % (f, name) for f in files for name in set(base.get(f, {})) | set(now.get(f, {}))
                  if base.get(f, {}).get(name) != now.get(f, {}).get(name))


def unreached(files, hit):
    root = os.path.join(os.path.realpath(REPO), 'gostcrypto')
    res = []
    text = {}
    for (path, line), where in sorted(executable_lines().items()):
        if path in files and (path, line) not in hit:
            if path not in text:
                with open(os.path.join(root, path), encoding='utf-8') as fh:
                    text[path] = fh.read().splitlines()
            res.append('%s: %s' % (where, text[path][line - 1].strip()))
    return res


def missed(prop, files, hit):
    """Lines of the files that the workload of the property normally reaches (or that are new) and did not reach."""
    import json
    now = unreached(files, hit)
    path = os.path.join(BASELINE, prop + '.json')
    known = set()
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fh:
            known = set(json.load(fh))
    elif os.environ.get('GOSTMON_BASELINE') != '1':
        return []
    if os.environ.get('GOSTMON_BASELINE') == '1':
        with open(path, 'w', encoding='utf-8') as fh:
            json.dump(sorted(known | set(now)), fh, indent=0, ensure_ascii=False)
            fh.write('\n')
    return [t for t in now if t not in known]
