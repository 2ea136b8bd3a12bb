"""Runs one property's cases over worker processes, merges what the monitors saw, writes the evidence."""

import argparse
import importlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')
MAX_REPORTED = 6
WALL_LIMIT = {'quick': 780, 'thorough': 870}
EXTRA = {'quick': 50, 'thorough': 200}


def known_findings(prop):
    """Mechanism keys of recorded, unrepaired findings: lines 'known: property=<id> mech=<key> <what>'."""
    res = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as fh:
            for line in fh:
                parts = line.strip().split(' ', 3)
                if parts[0] == 'known:' and parts[1] == 'property=' + prop:
                    res[parts[2].split('=', 1)[1]] = parts[3] if len(parts) > 3 else ''
    return res


def run_cases(module, cases, mon, stop, deadline, cursor, until=None):
    from . import core
    violations, error, done = [], None, 0
    while not stop.is_set():
        with cursor.get_lock():
            nxt = cursor.value
            cursor.value += 1
        if nxt >= len(cases):
            break
        case = cases[nxt]
        if until is not None and time.monotonic() > until:
            break
        if time.monotonic() > deadline:
            error = 'out of time after %d cases' % done
            break
        mon.begin(case)
        try:
            module.run(case, mon)
        except core.Broken as exc:
            violations.append(dict(case=case, what=str(exc), mech='', tail=mon.tail()))
            if 'did not return within' in str(exc):      # each costs its whole budget: one is enough
                stop.set()
        except core.Hang:
            pass
        except core.Inconclusive as exc:
            error = 'inconclusive: %s' % exc
            break
        except Exception as exc:
            error = 'harness error in case %s: %s\n%s' % (json.dumps(case)[:300], core.describe(exc),
                                                          traceback.format_exc())
            break
        done += 1
        if len(mon.samples) < 2 or (len(mon.samples) < 4 and done % 97 == 0):
            mon.samples.append(dict(case=case, events=[t[:240] for t in mon.tail()[-4:]]))
        if len(violations) >= MAX_REPORTED:
            stop.set()
            break
    return violations + mon.findings, error, done


def worker(prop, cases, index, queue, stop, deadline, cursor, until=None):
    try:
        from . import core, target
        target.load()
        lines = target.Lines()
        lines.start()
        mon = core.Monitor()
        module = importlib.import_module('gostmon.props.' + prop.lower())
        violations, error, done = run_cases(module, cases, mon, stop, deadline, cursor, until)
        queue.put(dict(index=index, violations=violations, error=error, done=done, events=mon.events,
                       evaluations=mon.evaluations, cover=dict(mon.cover), distinct=mon.distinct,
                       ops=dict(mon.ops), samples=mon.samples, counters=dict(mon.counters),
                       lines=lines.hit, unraisable=mon.unraisable[:5]))
    except BaseException as exc:  # noqa: report, whatever it is
        queue.put(dict(index=index, violations=[], error='worker failed: %r\n%s' % (exc, traceback.format_exc()),
                       done=0, events=0, evaluations=0, cover={}, distinct=set(), ops={}, samples=[],
                       counters={}, lines=set(), unraisable=[]))
    finally:
        queue.close()
        queue.join_thread()
        os._exit(0)


def phase(prop, cases, jobs, deadline, until=None, shuffled=False):
    """Runs the cases over worker processes; `until` ends a phase that need not be complete."""
    # Heavy cases (weight 'w', default 0) first, the others in a deterministic shuffle.
    if not shuffled:
        random.Random(5).shuffle(cases)
        cases.sort(key=lambda c: -c.get('w', 0))
    jobs = max(1, min(jobs, len(cases)))
    ctx = multiprocessing.get_context('fork')
    queue, stop, cursor = ctx.Queue(), ctx.Event(), ctx.Value('q', 0)
    procs = [ctx.Process(target=worker, args=(prop, cases, i, queue, stop, deadline, cursor, until))
             for i in range(jobs)]
    for p in procs:
        p.start()
    parts, error = [], None
    while len(parts) < jobs:
        try:
            parts.append(queue.get(timeout=max(1, min(5, deadline + 25 - time.monotonic()))))
        except Exception:
            if time.monotonic() > deadline + 20:
                error = 'wall-clock watchdog: %d of %d workers reported' % (len(parts), jobs)
                break
            if len(parts) + sum(p.is_alive() for p in procs) < jobs and queue.empty():
                time.sleep(1)
                if queue.empty() and len(parts) + sum(p.is_alive() for p in procs) < jobs:
                    error = 'a worker died'
                    break
    for p in procs:
        if p.is_alive() and error:
            p.kill()
    for p in procs:
        p.join(5)
    return parts, error


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--evidence', default=os.path.join(ROOT, 'evidence'))
    opt = ap.parse_args(argv)
    prop = opt.property
    started = time.monotonic()
    # stray stderr/stdout buffering must not be duplicated by fork
    sys.stdout.flush()
    from . import target
    target.load()
    module = importlib.import_module('gostmon.props.' + prop.lower())
    if opt.replay:
        with open(opt.replay, encoding='utf-8') as fh:
            cases = [json.load(fh)['case']]
        opt.jobs = 1
    else:
        cases = module.cases(opt.tier, random.Random('%s/%s/%d' % (prop, opt.tier, opt.seed)))
    deadline = started + WALL_LIMIT[opt.tier]
    parts, error = phase(prop, cases, opt.jobs, deadline)
    known = known_findings(prop)
    if not opt.replay and not error and not any(d['error'] or [v for v in d['violations'] if not (v['mech'] and v['mech'] in known)]
                                                for d in parts):
        # Anchored files with lines this workload normally reaches and now did not, or with functions it was not
        # written for: look further, for a while.
        missed = target.missed(prop, module.FILES, set().union(*(d['lines'] for d in parts)))
        if (missed or target.changed(module.FILES)) and os.environ.get('GOSTMON_BASELINE') != '1':
            extra = module.cases('thorough', random.Random('%s/extra/%d' % (prop, opt.seed)))
            random.Random(6).shuffle(extra)
            extra = [c for c in extra if c.get('w', 0) < 3]
            until = min(deadline, time.monotonic() + EXTRA[opt.tier])
            more, error = phase(prop, extra, opt.jobs, min(until + 240, started + 840), until, shuffled=True)
            if error and error.startswith('wall-clock watchdog'):
                error = None        # this phase need not be complete (a call that hangs uses up its CPU budget long before)
            for d in more:
                d['index'] += 1000
                d['counters']['extra cases for changed code'] = d['done']
            parts += more
    parts.sort(key=lambda d: d['index'])
    violations = [v for d in parts for v in d['violations']]
    errors = [d['error'] for d in parts if d['error']] + ([error] if error else [])
    total = {k: sum(d[k] for d in parts) for k in ('done', 'events', 'evaluations')}

    def merged(key):
        res = {}
        for d in parts:
            for k, v in d[key].items():
                res[k] = res.get(k, 0) + v
        return dict(sorted(res.items()))

    distinct = set().union(*[d['distinct'] for d in parts]) if parts else set()
    cover, ops, counters = merged('cover'), merged('ops'), merged('counters')
    hit = set().union(*[d['lines'] for d in parts]) if parts else set()
    files = getattr(module, 'FILES', ())
    execable = {x for x in target.executable_lines() if x[0] in files}
    wall = time.monotonic() - started
    fresh = [v for v in violations if not (v['mech'] and v['mech'] in known)]
    seen_known = sorted({v['mech'] for v in violations if v['mech'] and v['mech'] in known})
    need = getattr(module, 'REACH', {})
    if not opt.replay and not fresh and not errors:
        for key in need:
            if cover.get(key, 0) + counters.get(key, 0) < need[key]:
                errors.append('inconclusive: monitor %r reached %d times, needs %d'
                              % (key, cover.get(key, 0) + counters.get(key, 0), need[key]))
    if not opt.replay:
        os.makedirs(opt.evidence, exist_ok=True)
        samples = [s for d in parts for s in d['samples']][:6]
        ev = dict(
            property=prop, tier=opt.tier, seed=opt.seed, level='exploration',
            coverage=dict(
                evaluations=total['done'], distinct_nontrivial=len(distinct), rule=module.RULE,
                samples=samples, cases_planned=len(cases), api_events_observed=total['events'],
                oracle_decisions=total['evaluations'], classes=cover, api_calls=ops, counters=counters,
                repo_lines=dict(executed=len(hit & execable), executable=len(execable), files=list(files)),
            ),
            assumptions=list(getattr(module, 'ASSUMES', ())),
            wall_s=round(wall, 2), violations=len(fresh),
        )
        if errors:
            ev['coverage']['errors'] = [e[:500] for e in errors]
        if os.environ.get('GOSTMON_MISSED'):
            ev['coverage']['unexecuted'] = sorted('%s:%d' % x for x in execable - hit)
        path = os.path.join(opt.evidence, prop + '.json')
        with open(path + '.tmp', 'w', encoding='utf-8') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True, default=str)
        os.replace(path + '.tmp', path)
    for mech in seen_known:
        print('KNOWN-FINDING: property=%s %s %s' % (prop, mech, known[mech]))
    for n, v in enumerate(fresh[:MAX_REPORTED]):
        os.makedirs(os.path.join(opt.evidence, 'replay'), exist_ok=True)
        rp = opt.replay or os.path.join(opt.evidence, 'replay', '%s-%d.json' % (prop, n))
        if not opt.replay:
            with open(rp, 'w', encoding='utf-8') as fh:
                json.dump(dict(property=prop, tier=opt.tier, seed=opt.seed, case=v['case'], what=v['what'],
                               last_events=v['tail']), fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  %s' % v['what'])
        for t in v['tail'][-4:]:
            print('    ' + t[:300])
    for e in errors[:4]:
        print('ERROR property=%s %s' % (prop, e), file=sys.stderr)
    print('%s %s seed=%d: %d cases, %d API events, %d oracle decisions, %d distinct classes, %d violations, %.1f s'
          % (prop, opt.tier, opt.seed, total['done'], total['events'], total['evaluations'], len(distinct),
             len(fresh), wall))
    sys.stdout.flush()
    if fresh:
        return 1
    return 2 if errors else 0
