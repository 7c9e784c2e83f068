#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from analysis/catalog.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'analysis'))
import catalog, props
NA = getattr(catalog, 'NA', [])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for d, t, n in catalog.P:
        fh.write(json.dumps(d, ensure_ascii=False) + '\n')
    for d, r in NA:
        fh.write(json.dumps(d, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for d, t, n in catalog.P:
    p = d['id']
    assert p in props.PROPS, p
    m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py ' + p,
                        'technique': t, 'level': props.PROPS[p].level, 'level_note': n})
for d, r in NA:
    m['not_applicable'].append({'property': d['id'], 'reason': r})
left = set(props.PROPS) - {d['id'] for d, _, _ in catalog.P}
assert not left, left
m['notes'] = 'No hooks: the checks read the unmodified source through rustc.  Known and fixed findings: known-findings.txt.'
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1, ensure_ascii=False)
    fh.write('\n')
print(len(m['checks']), 'checks', len(NA), 'not applicable')
