#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the analyzer's registered checks and properties.jsonl."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = subprocess.run([os.environ.get('AN', V + '/.build/ferrycheck'), '-list'], capture_output=True, text=True).stdout.split()
rules = dict(l.split('\t', 1) for l in subprocess.run([os.environ.get('AN', V + '/.build/ferrycheck'), '-rules'], capture_output=True, text=True).stdout.splitlines())
tech = json.load(open(V + '/tools/techniques.json'))
na = json.load(open(V + '/tools/not_applicable.json'))
checks, nal = [], []
for p in props:
    i = p['id']
    if i in have and i not in na:
        t = tech.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i} quick',
            'thorough_cmd': f'bash check.sh {i} thorough',
            'technique': t.get('technique', 'static analysis of the SSA form: ' + rules[i]),
            'level': 'other',
            'level_note': t.get('note', 'Decided from the source on all abstract paths of the analysed entry points; within the modelling assumptions of DESIGN.md (section Trust).'),
        })
    else:
        nal.append({'property': i, 'reason': na.get(i, 'No check built yet for this property.')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': nal}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(nal), 'not applicable')
