"""C30: results do not depend on how the interpreter was started or from where a call is made."""

import ast
import json
import os
import pickle
import subprocess
import sys

from gostmon import core, target
from . import script
from .common import rng_of

FILES = ('gostcipher/gost_34_13_2015.py', 'gostcipher/gost_34_12_2015.py', 'gosthash/gost_34_11_2012.py',
         'gosthmac/r_50_1_113_2016.py', 'gostpbkdf/r_50_1_111_2016.py', 'gostrandom/r_1323565_1_006_2017.py',
         'gostsignature/gost_34_10_2012.py', 'gostoid/oid.py', 'utils/utils.py')
RULE = ('case = 4..7 histories of calls (every class and module, supplied salts and seeds) executed by a new interpreter under one '
        'configuration: optimization off, -O, -OO, a hash seed, development mode, warnings as errors, byte-comparison warnings as '
        'errors, isolated mode, no site module, the C locale, UTF-8 mode on or off, no limit for decimal digits, another working directory; '
        'called from the main program, a thread, a finalizer or a generator, from 0..250 frames deep. Oracle: results and documented '
        'exceptions are those of the same histories in this process (whose values the other checks compare with the models), nothing '
        'is written to standard output or error, exit status 0. Besides, random cases of 20 other checks are judged by their own monitors in such interpreters (all of C18, argument checking, with -O). Distinct = (configuration, place, depth class, kind of history); '
        'non-trivial = a result compared.')
ASSUMES = ('CPython 3.12 of this machine; at most 250 frames of the caller within the default recursion limit',)
REACH = {'processes': 90, 'compared': 5000, 'cases of other checks': 2500}

CONFIGS = {
    'plain': ([], {}), 'O': (['-O'], {}), 'OO': (['-OO'], {}), 'dev': (['-X', 'dev'], {}), 'werror': (['-W', 'error'], {}),
    'bb': (['-bb'], {}), 'isolated': (['-I'], {}), 'nosite': (['-S'], {}), 'hash1': ([], {'PYTHONHASHSEED': '1'}),
    'hash2': ([], {'PYTHONHASHSEED': '4294967295'}), 'clocale': ([], {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}),
    'utf8': (['-X', 'utf8=1'], {'LC_ALL': 'C.UTF-8'}), 'digits': (['-X', 'int_max_str_digits=0'], {}), 'cwd': ([], {}),
    'ascii io': ([], {'PYTHONIOENCODING': 'ascii'}), 'noenv': (['-E', '-s'], {}), 'OO bb werror': (['-OO', '-bb', '-W', 'error'], {}),
}


# Other checks whose cases, with their models, are also run by such interpreters.
CHECKS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C24', 'C25', 'C29')


def cases(tier, rng):
    k = {'quick': 5, 'thorough': 80}[tier]
    res = [dict(s=rng.getrandbits(48), config=c) for c in CONFIGS for _ in range(k)]
    parts, n = {'quick': (6, 25), 'thorough': (6, 400)}[tier]
    res += [dict(s=3, config='O', check='C18', part=i, parts=parts, n=0, w=2) for i in range(parts)]
    todo = [(c, p) for c in ('OO', 'werror', 'dev', 'hash1', 'hash2') for p in CHECKS]
    if tier == 'quick':
        todo = [('OO', 'C25')] + rng.sample(todo, 12)
    res += [dict(s=rng.getrandbits(32), config=c, check=p, n=n, parts=0, w=1) for c, p in [('O', p) for p in CHECKS if p != 'C18'] + todo]
    return res


def environment(case, **more):
    clean = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and k not in ('LC_ALL', 'LANG')}
    clean.update({'PYTHONPYCACHEPREFIX': sys.pycache_prefix or '/nonexistent', 'PYTHONHASHSEED': '0', **CONFIGS[case['config']][1], **more})
    return clean


def run_check(case, mon):
    """Cases of another check, judged by its own monitors, in an interpreter started with other options."""
    job = dict(prop=case['check'], seed=case['s'], n=case['n'], part=case.get('part', 0), parts=case['parts'], seconds=3 if case['n'] == 25 else 60)
    if case['parts']:
        job['seconds'] = 60
    where = 'interpreter started as %s, check %s' % (case['config'], case['check'])
    try:
        r = subprocess.run([sys.executable, '-B', *CONFIGS[case['config']][0], '-m', 'gostmon.batch'], input=json.dumps(job), capture_output=True,
                           text=True, env=environment(case, GOSTMON_REPO=target.REPO), cwd=os.path.dirname(os.path.dirname(target.__file__)), timeout=700)
    except subprocess.TimeoutExpired:
        mon.expect(False, where + ': it did not finish')
    try:
        res = json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        raise core.Inconclusive('%s: no answer: %s' % (where, r.stderr[-400:]))
    mon.expect(not res['violations'] and not res['unraisable'], where, *res['violations'], *res['unraisable'])
    if res['error']:
        raise core.Inconclusive('%s: %s' % (where, res['error'][:600]))
    mon.count('processes')
    mon.count('cases of other checks', res['done'])
    mon.count('compared', res['evaluations'])
    mon.events += res['evaluations']
    mon.state('check', case['config'], case['check'])


def run(case, mon):
    if 'check' in case:
        return run_check(case, mon)
    rng = rng_of(case)
    kinds = list(script.KINDS)
    kinds = rng.sample(kinds, rng.randrange(4, 8))
    if case['config'].startswith('O') and 'signature' not in kinds:
        kinds.append('signature')
    runs = [script.with_attributes(rng, k, script.KINDS[k](rng)) for k in kinds]
    place = rng.choice(('main', 'main', 'thread', 'finalizer', 'generator'))
    depth = rng.choice((0, 0, 1, 50, 250, rng.randrange(250)))
    here = [script.Executor(mon, 'here ').run(steps) for steps in runs]
    flags = CONFIGS[case['config']][0]
    job = dict(repo=os.path.realpath(target.REPO), depth=depth, where=place, runs=runs)
    child = os.path.join(os.path.dirname(target.__file__), 'child.py')
    try:
        r = subprocess.run([sys.executable, '-B', *flags, child], input=pickle.dumps(job), capture_output=True, env=environment(case), timeout=600,
                           cwd='/' if case['config'] == 'cwd' else None)
    except subprocess.TimeoutExpired:
        mon.expect(False, 'a child interpreter (%s) did not finish' % case['config'])
    mon.count('processes')
    where = 'interpreter started as %s, called from %s at depth %d' % (case['config'], place, depth)
    head, sep, tail = r.stdout.decode('ascii', 'replace').rpartition('\nRESULT ')
    mon.expect(r.returncode == 0 and sep, where + ': it failed', r.stderr.decode('utf-8', 'replace')[-400:])
    mon.expect(not head and not r.stderr, where + ': something was written to the standard streams', head[-200:], r.stderr.decode('utf-8', 'replace')[-300:])
    there = ast.literal_eval(tail)
    for kind, steps, a, b in zip(kinds, runs, here, there):
        for step, x, y in zip(steps, a, b):
            mon.expect(x == y, '%s: %s %s' % (where, kind, script.text(step)), 'there %s' % (y,), 'here %s' % (x,))
            mon.count('compared')
        mon.state('config', case['config'], place, depth // 50, kind)
