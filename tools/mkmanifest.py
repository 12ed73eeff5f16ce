#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties registered in the harness."""
import json, re, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
tech, reg = {}, set()
for f in glob.glob(root + '/harness/props/*.go'):
    reg |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
special = {
    'C13': 'grammar-based, mutational and byte-level fuzzing of every parser under memory and time limits',
    'C14': 'generated inputs with injected read faults and truncation at every offset',
    'C22': 'generated concurrent programs under the race detector, against sequential results',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i not in reg:
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} quick',
        'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': special.get(i, 'property-based testing: seeded generators with shrinking against an explicit oracle'),
        'level': 'exploration',
        'level_note': 'holds on every generated case of the run; no proof of absence. Assumptions are in the evidence file and in DESIGN.md.',
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks use the public API. See DESIGN.md and known_findings.txt.'}
open(root + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
