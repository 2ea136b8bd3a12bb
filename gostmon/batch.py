"""Runs some light cases of another check in this interpreter (its options are what is varied): python -O -m gostmon.batch

stdin: JSON of dict(prop, seed, n or part and parts, seconds); last line of stdout: JSON of dict(done, evaluations, violations, error)."""
import importlib
import json
import multiprocessing
import random
import sys
import time


def main():
    job = json.load(sys.stdin)
    from . import core, runner, target
    target.load()
    module = importlib.import_module('gostmon.props.' + job['prop'].lower())
    rng = random.Random('%s/batch/%d' % (job['prop'], job['seed']))
    cases = [c for c in module.cases('quick', rng) if not c.get('w')]
    rng.shuffle(cases)
    cases = cases[job['part']::job['parts']] if job.get('parts') else cases[:job['n']]
    mon = core.Monitor()
    mon.begin(dict(batch=job['prop']))
    now = time.monotonic()
    violations, error, done = runner.run_cases(module, cases, mon, multiprocessing.Event(), now + 600, multiprocessing.Value('q', 0), now + job['seconds'])
    known = runner.known_findings(job['prop'])
    violations = [v for v in violations if not (v['mech'] and v['mech'] in known)]
    sys.stdout.flush()
    print('\n' + json.dumps(dict(done=done, evaluations=mon.evaluations, violations=[v['what'][:300] for v in violations[:3]], error=error,
                                 unraisable=[str(u)[:200] for u in mon.unraisable[:3]])))


if __name__ == '__main__':
    main()
