#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its current sources.

usage: check.py --property C01 [--tier quick|thorough] [--repo /repo]
"""
import argparse
import collections
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from rules.common import Run, OK, BAD, OPEN, AnalysisError  # noqa: E402
from rules.registry import CHECKS  # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.json')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    chk = CHECKS[a.property]
    ev = os.path.join(HERE, 'evidence', a.property + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    run = Run(a.repo)
    run.tier = a.tier
    try:
        for f in chk.rules:
            f(run)
    except AnalysisError as e:
        print('ERROR property=%s %s' % (a.property, e))
        return 2
    res = run.results
    by = collections.Counter(r.status for r in res)
    with open(KNOWN) as f:
        known = {k['key']: k for k in json.load(f)['findings'] if k['property'] == a.property}
    bad, listed = [], []
    for r in res:
        if r.status == BAD:
            (listed if r.key in known else bad).append(r)
    decided = by[OK] + by[BAD]
    if not decided:
        # nothing was shown either way: no alarm, but say so (the evidence lists every undecided obligation)
        print('UNDECIDED property=%s no obligation could be decided on this tree' % a.property)
    rules = collections.Counter(r.rule for r in res)
    cov = {'obligations': len(res), 'discharged': by[OK], 'undecided': by[OPEN],
           'known_findings': len(listed), 'violated': len(bad),
           'checker_cmd': 'python3 /verif/check.py --property %s' % a.property,
           'trusted_base': ['the analyser in /verif/sa', 'the specifications in /verif/spec and /verif/rules',
                            'the behaviour of the Python standard library and of third-party packages'],
           'explanation': chk.explain,
           'rules': dict(rules),
           'constructs': sorted({r.where for r in res if r.where})[:400],
           'samples': [r.json() for r in res[:6]],
           'undecided_list': [r.json() for r in res if r.status == OPEN][:40],
           'notes': run.notes}
    with open(ev, 'w') as f:
        json.dump({'property': a.property, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
                   'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': chk.level, 'coverage': cov,
                   'assumptions': chk.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(bad)}, f,
                  indent=1)
    print('property=%s obligations=%d discharged=%d undecided=%d known=%d violated=%d constructs=%d wall=%.1fs' % (
        a.property, len(res), by[OK], by[OPEN], len(listed), len(bad), len(cov['constructs']), time.time() - t0))
    if a.verbose:
        for r in res:
            if r.status == OPEN:
                print('  undecided: %s %s %s: %s' % (r.rule, r.construct, r.where, r.detail))
    for r in listed:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (a.property, r.rule, r.construct, known[r.key]['what']))
    if bad:
        rp = os.path.join(HERE, 'evidence', a.property + '.violations.json')
        with open(rp, 'w') as f:
            json.dump([r.json() for r in bad], f, indent=1)
        for r in bad[:20]:
            print('%s: [%s] %s: %s' % (r.where, r.rule, r.construct, r.detail))
        print('VIOLATION property=%s replay=%s' % (a.property, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
