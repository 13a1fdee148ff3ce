#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import glob, json, re
V = '/verif'
names = []
for f in glob.glob(V + '/harness/props/*.go'):
    names += re.findall(r'^func (C\d\d_\w+)\(\) \{', open(f).read(), re.M)
conf = json.load(open(V + '/tools/checks.json'))
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if not any(n.startswith(i + '_') for n in names):
        na.append({'property': i, 'reason': conf.get(i, {}).get('na', 'no harness yet')})
        continue
    c = conf.get(i, {})
    checks.append({
        'property': i, 'quick_cmd': f'bash check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'SMT-based bounded symbolic execution of the go/ssa form of the real code' + (', schedules explored exhaustively up to a preemption bound' if c.get('conc') else ''),
        'level': 'model_checking',
        'level_note': c.get('note', 'Holds for every input within the bounds stated in the harness comments and DESIGN.md; trusts the executor, its models of the Go runtime and of the standard library parts listed in DESIGN.md, and z3. Counterexamples are reported only after they reproduce against the compiled code.'),
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harnesses use the public API. Known findings and repairs: known-findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
