#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from props import PROPS, NA
from checks import CHECKS
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in PROPS]
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
na = [dict(property=i, reason=r) for i, r in NA]
assert set(ids) == set(CHECKS) | set(i for i, _ in NA), set(ids) ^ (set(CHECKS) | set(i for i, _ in NA))
from build import VARIANTS
m = dict(version=1, setup_cmd='python3 build.py ' + ' '.join(sorted({s.split(':')[0] if ':' in s else 'vc' for c in CHECKS.values() for s in c['scens']})),
  checks=[dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i, evidence_file='evidence/%s.json' % i,
    technique='deterministic simulation of the whole library with seeded schedules, clock and fault injection', level='exploration',
    level_note=CHECKS[i].get('note', 'Seeded search over instruction-level interleavings, timer and clock behaviour and injected failures of the real library code against an oracle for this property; evidence, not proof. Assumes sequentially consistent memory and a Win32 API that behaves as documented (simulated).')) for i in ids if i in CHECKS],
  not_applicable=na,
  notes='No hooks in /repo: the simulator takes the place of kernel32 and msvcrt below the library and of the CPU scheduler by instrumenting the compiler output, so the repository has only fix: commits. Replay a violation with: python3 check.py --replay <file>.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in PROPS: jsonschema.validate(p, sc)
    print('valid', len(PROPS), 'properties', len(m['checks']), 'checks')
except ImportError: print('not validated (use python3-vt)')
