#!/usr/bin/env python3
"""Run one property's static check against /repo's working tree.

exit 0: the property held on everything analysed
exit 1: at least one violation (VIOLATION line, report under /verif/out)
exit 2: the analysis could not be carried out (anchor missing, internal error)
"""

import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.repo import Repo                      # noqa: E402
from sa.result import Result, Anchor          # noqa: E402
from sa.registry import CHECKS                # noqa: E402

FINDINGS = os.path.join(HERE, 'known_findings.txt')


def listed_findings(prop):
    """Findings recorded for a property: (rule, file, construct, text)."""
    out = []
    if not os.path.exists(FINDINGS):
        return out
    with open(FINDINGS) as fd:
        for line in fd:
            line = line.rstrip('\n')
            if not line.startswith('finding: '):
                continue
            head, _, text = line[len('finding: '):].partition(' :: ')
            f = dict(x.split('=', 1) for x in head.split(' | '))
            if f.get('property') == prop:
                out.append((f.get('rule'), f.get('file'), f.get('construct'), text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args()
    prop = a.property
    if prop not in CHECKS:
        print("no check for property %s" % prop)
        return 2
    t0 = time.time()
    res = Result(prop, a.tier)
    try:
        repo = Repo(a.repo)
        mod = importlib.import_module('sa.checks.' + CHECKS[prop])
        mod.run(repo, res)
    except Anchor as e:
        if not res.violations:
            print("ERROR property=%s the rule's subject is missing: %s" % (prop, e))
            return 2
    except SyntaxError as e:
        print("ERROR property=%s source does not parse: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error" % prop)
        return 2
    wall = time.time() - t0

    known, fresh = [], []
    lst = listed_findings(prop)
    for v in res.violations:
        for rule, f, con, text in lst:
            if v['rule'] == rule and v['where'].split(':')[0] == f and v['construct'] == con:
                known.append((v, text))
                break
        else:
            fresh.append(v)
    outdir = os.path.join(HERE, 'out')
    report = os.path.join(outdir, prop + '.json')
    if fresh:
        os.makedirs(outdir, exist_ok=True)
        with open(report, 'w') as fd:
            json.dump(fresh, fd, indent=1)
    elif os.path.exists(report) and not a.no_evidence:
        os.unlink(report)
    for v, text in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, text, v['where']))
    for v in fresh:
        print("%s [%s] %s: %s" % (v['where'], v['rule'], v['construct'], v['message']))
        for p in v['path'][-25:] if a.verbose else []:
            print("      " + p)
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        cov = {'explanation': res.explanation, 'rules': res.rules}
        cov.update(res.counts)
        if res.samples:
            cov['analysed'] = res.samples
        ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'other', 'coverage': cov,
              'wall_s': round(wall, 3), 'violations': len(fresh), 'assumptions': res.assumptions}
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fd:
            json.dump(ev, fd, indent=1)
    if fresh:
        print("VIOLATION property=%s replay=%s" % (prop, report))
        return 1
    print("ok property=%s %s (%.1fs)" % (prop, ' '.join("%s=%s" % kv for kv in sorted(res.counts.items())), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
