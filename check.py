#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property from the current source of the repository (static analysis)"""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tool'))
sys.setrecursionlimit(20000)


class TimeUp(Exception):
    pass


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import facts as F
    import engine as E
    import lib
    import rules_all  # noqa: F401  (fills lib.RULES)
    r = lib.RULES[pid]
    try:
        facts, info = F.extract()
    except Exception as ex:                      # the crate does not build: no verdict
        sys.stderr.write('cannot extract facts: %s\n' % ex)
        sys.exit(2)
    prog = E.Program(facts)
    rep = lib.Report(pid, prog, info, tier)

    def alarm(*a):
        raise TimeUp('time limit of the check reached')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(os.environ.get('VERIF_LIMIT', '780')))
    try:
        r['fn'](rep)
    except lib.Missing as ex:
        rep.fail('anchor/%s' % ex, 'an anchor of the rule is missing: %s' % ex)
    except (E.Budget, TimeUp) as ex:
        rep.fail('analysis/budget', 'the analysis could not finish: %s' % ex)
    except Exception as ex:
        rep.fail('analysis/error', 'the rule could not be evaluated: %s\n%s' % (ex, traceback.format_exc()))
    signal.alarm(0)

    known = {}
    kf = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> key=<key> :: <text>
                head, _, text = l[len('finding: '):].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split(' ', 1))
                known[(d['property'], d['key'])] = text
    bad = [(k, o) for k, o in sorted(rep.obs.items()) if not o[0]]
    listed = [(k, o) for k, o in bad if (pid, k) in known]
    viol = [(k, o) for k, o in bad if (pid, k) not in known]
    wall = time.time() - t0
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rpath = os.path.join(ev, '%s-report.txt' % pid)
    with open(rpath, 'w') as f:
        f.write('property %s: %s\nrule: %s\n' % (pid, r['title'], r['note']))
        f.write('analysed: %s\n' % info)
        for x in rep.entries:
            f.write('entry %s\n' % x)
        for n in rep.notes:
            f.write('note %s\n' % n)
        for k, v in sorted(rep.counts.items()):
            f.write('count %s = %s\n' % (k, v))
        for k, o in viol:
            f.write('\nVIOLATION %s\n  %s\n  at %s\n' % (k, o[1], o[2]))
        for k, o in listed:
            f.write('\nKNOWN %s\n  %s\n  at %s\n' % (k, o[1], o[2]))
        f.write('\n')
        for k, o in sorted(rep.obs.items()):
            if o[0]:
                f.write('ok %s (x%d) %s\n' % (k, o[3], o[1]))
    total = len(rep.obs)
    cov = {
        'explanation': '%s Decided on the MIR of the current tree (fn, closure and async bodies of the library, '
                       'debug profile with default features) without running it.' % r['note'],
        'rule': r['title'],
        'obligations': total,
        'discharged': sum(1 for o in rep.obs.values() if o[0]),
        'obligation_hits': sum(o[3] for o in rep.obs.values()),
        'functions_analysed': len(rep.bodies) or info.get('bodies', 0) if isinstance(info, dict) else len(rep.bodies),
        'entry_points': rep.entries[:40],
        'counts': rep.counts,
        'samples': ['%s: %s [%s]' % (k, o[1][:200], o[2][:200]) for k, o in list(sorted(rep.obs.items()))[:25]],
        'source': info if isinstance(info, dict) else str(info),
    }
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(wall, 2),
               'assumptions': ['rustc builds the MIR faithfully', 'calls outside the crate behave as their documentation says',
                               'loops are joined: a fact used after a loop holds on every path through it'],
               'violations': len(viol)},
              open(os.path.join(ev, '%s.json' % pid), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d states, %.1f s' % (pid, total, cov['discharged'], rep.steps, wall))
    for k, o in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[(pid, k)]))
    for k, o in viol:
        print('  %s: %s' % (k, o[1].split('\n')[0]))
        if o[2]:
            print('     at %s' % o[2])
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, rpath))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
