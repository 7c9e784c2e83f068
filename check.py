#!/usr/bin/env python3
"""check.py PROPERTY... [--freeze]: decide properties of /repo's current tree by static analysis.

Exit 0: every obligation of the property was discharged (or could not be decided, which is recorded in the evidence).
Exit 1: a line 'VIOLATION property=<id> replay=<file>' names the construct that breaks it."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'analysis'))
import session
import props


def known_findings():
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('KNOWN-FINDING: '):
            rest = line[len('KNOWN-FINDING: '):]
            prop, key, text = rest.split(' ', 2)
            out.setdefault(prop.split('=')[1], {})[key.split('=', 1)[1]] = text
    return out


def run(S, pid, known, tier, seed):
    t = time.time()
    prop = props.PROPS[pid]
    R = session.Report(pid, known.get(pid, {}))
    try:
        prop.check(S, R)
    except session.Broken as e:
        R.fail('unreadable', str(e))
    except session.Unsupported as e:
        R.undecided('analysis', '%s %s' % (e, getattr(e, 'where', '')))
    except Exception as e:
        # the engines met a shape of program they were not built for: nothing was decided
        if os.environ.get('STRICT'):
            raise
        R.undecided('analysis', ''.join(traceback.format_exception_only(type(e), e)).strip() + ' at ' + traceback.format_tb(e.__traceback__)[-1].strip().replace(chr(10), ' '))
    wall = time.time() - t
    EV = os.environ.get('EVIDENCE_DIR') or os.path.join(ROOT, 'evidence')
    os.makedirs(EV, exist_ok=True)
    cov = {
        'obligations': R.obligations,
        'discharged': R.discharged,
        'checker_cmd': 'python3 check.py ' + pid,
        'trusted_base': prop.trusted + props.TRUSTED,
        'rule': prop.rule,
        'undecided': R.open[:20],
        'known_findings': R.seen_known,
        'samples': R.samples,
    }
    cov.update(R.stats)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level, 'coverage': cov,
          'wall_s': round(wall, 3), 'violations': len(R.bad)}
    if prop.assumptions:
        ev['assumptions'] = prop.assumptions
    with open(os.path.join(EV, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write('\n')
    print('%s: %d obligations, %d discharged, %d open, %d violated (%.1f s)' % (pid, R.obligations, R.discharged, len(R.open), len(R.bad), wall))
    for o in R.open[:10]:
        print('UNDECIDED property=%s %s' % (pid, o[:300]))
    for k in R.seen_known:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, R.known[k]))
    if R.bad:
        path = os.path.join(EV, pid + '.violation.txt')
        with open(path, 'w') as fh:
            for k, text in R.bad:
                fh.write('[%s]\n%s\n\n' % (k, text))
        for k, text in R.bad[:5]:
            print('  %s: %s' % (k, text[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    S = session.Session(tier)
    if '--freeze' in args:
        return props.freeze(S, [a for a in args if a != '--freeze'])
    ids = [a for a in args if not a.startswith('-')] or sorted(props.PROPS)
    known = known_findings()
    rc = 0
    for pid in ids:
        rc |= run(S, pid, known, tier, seed)
    return rc


if __name__ == '__main__':
    sys.exit(main())
