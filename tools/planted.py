"""Runs the checks against the planted bugs of seeded/, in copies of /repo: python3 tools/planted.py [-j N] [id ...]

For each: the quick check of its property with the patch applied. Prints and keeps a table in planted.txt."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name, keep=None):
    base = os.path.join(ROOT, 'seeded', name)
    meta = json.load(open(os.path.join(base, 'meta.json'), encoding='utf-8'))
    tmp = tempfile.mkdtemp(prefix='planted-')
    try:
        tree = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', tree, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        subprocess.run(['git', 'init', '-q'], cwd=tree, check=True)
        subprocess.run(['git', 'apply', os.path.join(base, 'patch.diff')], cwd=tree, check=True)
        start = time.monotonic()
        r = subprocess.run([sys.executable, 'check.py', keep or meta['property'], '--evidence', os.path.join(tmp, 'ev')], cwd=ROOT,
                           env=dict(os.environ, GOSTMON_REPO=tree), capture_output=True, text=True)
        what = [x.strip() for x in r.stdout.splitlines() if x.startswith('  ')]
        return name, meta, r.returncode, time.monotonic() - start, what[0] if what else ''
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    args = sys.argv[1:]
    jobs = 2
    if args[:1] == ['-j']:
        jobs, args = int(args[1]), args[2:]
    names = args or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    rows = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for name, meta, rc, took, what in ex.map(one, names):
            verdict = {0: 'MISSED', 1: 'caught'}.get(rc, 'rc=%d' % rc)
            rows.append('%-22s %s %-7s %s' % (name, meta['property'], verdict, ' '.join(meta['what_it_breaks'].split())))
            print('%s %.0f s %s' % (rows[-1], took, what[:120]), flush=True)
    table = os.path.join(ROOT, 'planted.txt')
    if args and os.path.exists(table):          # the other rows stay
        with open(table, encoding='utf-8') as fh:
            rows += [r for r in fh.read().splitlines() if r.split()[0] not in args and os.path.isdir(os.path.join(ROOT, 'seeded', r.split()[0]))]
    with open(table, 'w', encoding='utf-8') as fh:
        fh.write('\n'.join(sorted(rows)) + '\n')
