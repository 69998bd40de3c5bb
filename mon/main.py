import importlib
import json
import multiprocessing as mp
import os
import queue as queue_mod
import sys
import time

from mon.core import VERIF, Monitor, known_findings, run_one, worker


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def main():
    args = sys.argv[1:]
    prop = args[0]
    mod_name = 'mon.props.' + prop.lower()
    mod = importlib.import_module(mod_name)
    if len(args) > 2 and args[1] == 'replay':
        rec = json.load(open(args[2]))
        mon = Monitor(prop)
        for v in rec['violations']:
            run_one(mod, mon, v['seed'], v['case'], v['tier'])
        for v in mon.violations:
            print('case %d: %s' % (v['case'], v['message']))
        for e in mon.errors:
            print('harness error:', e['message'])
        print('reproduced %d of %d' % (len(mon.violations), len(rec['violations'])))
        sys.exit(1 if mon.violations else 0)

    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    total = mod.CASES[tier]
    budget = float(os.environ.get('MON_BUDGET', {'quick': 110, 'thorough': 660}[tier]))
    nproc = int(os.environ.get('MON_PROCS', '8'))
    nproc = max(1, min(nproc, total))
    deadline = t0 + budget
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    procs = [ctx.Process(target=worker, args=(mod_name, seed, tier, i, nproc, total, deadline, q))
             for i in range(nproc)]
    for p in procs:
        p.start()
    results, lost = [], 0
    hard = t0 + budget + 120
    while len(results) < nproc:
        try:
            results.append(q.get(timeout=5))
        except queue_mod.Empty:
            if time.time() > hard or (all(not p.is_alive() for p in procs) and q.empty()):
                lost = nproc - len(results)
                break
    for p in procs:
        if p.is_alive():
            p.terminate()
        p.join()

    events, maxima, distinct = {}, {}, set()
    samples, violations, errors, known = [], [], [], []
    evaluations = 0
    for r in results:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['maxima'].items():
            maxima[k] = max(maxima.get(k, 0.0), v)
        distinct.update(r['distinct'])
        samples += r['samples']
        violations += r['violations']
        errors += r['errors']
        known += r['known']
        evaluations += r['evaluations']
    kf = known_findings(prop)
    unlisted = list(violations)      # listed findings never get here, see Monitor.finding
    unlisted.sort(key=lambda v: v['case'])
    wall = time.time() - t0

    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(distinct), rule=mod.RULE,
            samples=[jsonable(s) for s in samples[:4]] or ['(none recorded)'],
            planned_cases=total,
            events_observed={k: events[k] for k in sorted(events)},
            largest_deviation_observed={k: maxima[k] for k in sorted(maxima)},
            all_planned_cases_run=all(r['done_all'] for r in results) and not lost,
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=len(unlisted))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, tier, seed, evaluations, len(distinct), wall))
    print('events: ' + ', '.join('%s=%d' % (k, events[k]) for k in sorted(events)))
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if unlisted:
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%d.json' % (prop, tier, seed))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, violations=unlisted[:10]), f, indent=1)
        for v in unlisted[:3]:
            print('case %d: %s' % (v['case'], v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    if errors or lost:
        for e in errors[:3]:
            print('harness error in case %s:\n%s' % (e.get('case'), e['message']))
        print('INCONCLUSIVE: %d harness errors, %d workers lost' % (len(errors), lost))
        sys.exit(2)
    missing = [k for k in getattr(mod, 'REQUIRED_EVENTS', ['decisions']) if events.get(k, 0) == 0]
    if missing or len(distinct) < getattr(mod, 'MIN_DISTINCT', 2):
        print('INCONCLUSIVE: monitors not reached: %s; distinct %d' % (missing, len(distinct)))
        sys.exit(2)
    print('HELD on what was observed: property=%s' % prop)
    sys.exit(0)


if __name__ == '__main__':
    main()
