#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo by static analysis.

exit 0: the property held on everything analysed
exit 1: VIOLATION property=<id> replay=<path>
exit 2: no verdict (an anchor of the rule is gone, source does not parse)
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)

from sa.program import AnalysisError            # noqa: E402
from sa.checker import Checker                  # noqa: E402


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                d = dict(x.split('=', 1) for x in l[9:].split(' ', 2)[:2])
                out.append((d['property'], d['key'], l))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    repo = os.environ.get('VERIF_REPO', '/repo')
    t0 = time.time()
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, prop + '.json')
    rules = importlib.import_module('rules.' + prop.lower())
    K = None
    try:
        K = Checker(prop, tier, repo)
        rules.check(K)
    except AnalysisError as ex:
        print('ERROR property=%s no verdict: %s' % (prop, ex))
        return 2
    except Exception as ex:
        traceback.print_exc()
        if K is None or os.environ.get('VERIF_STRICT'):
            print('ERROR property=%s internal error of the analysis' % prop)
            return 2
        K.undecided('analysis', 'the rest of this rule was not analysed: %s '
                    '%s' % (type(ex).__name__, ex))
    viol, kn = [], []
    listed = known()
    for v in K.violations:
        key = '%s@%s' % (v['rule'].replace(' ', '_'), v['where'])
        hit = [l for p, k, l in listed if p == prop and k == key]
        (kn if hit else viol).append(v)
    for v in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, v['message'][:300]))
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough')
        else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': rules.__doc__.strip(),
            'obligations': len(K.obligations),
            'discharged': len(K.obligations) - len(viol) - len(K.undec),
            'undecided': K.undec,
            'analysed': K.analysed,
            'source_digest': K.P.digest(),
            'samples': sorted(set(K.obligations))[:60],
            'notes': K.notes,
            'found': viol,
        },
        'assumptions': getattr(rules, 'ASSUME', [
            'the semantics of the libraries called is as modelled in '
            'sa/calls.py']),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for u in K.undec:
        print('undecided %s: %s' % (u['rule'], u['message'][:300]))
    for v in viol:
        print('%s: %s [%s]' % (v['where'] or '-', v['message'], v['rule']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('property %s holds: %d obligations, %d undecided, %.1f s' % (
        prop, len(K.obligations), len(K.undec), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
