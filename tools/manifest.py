#!/usr/bin/env python3
"""Generates MANIFEST.json from the harness directories present."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
NA = {
 'C31': 'GetPredefinedDiskGeometry reads one embedded constant table with csvutil, which is driven entirely by reflection; there is no input to make symbolic except the slug, and go/ssa encodings do not reach reflect.',
 'C32': 'The command line programs are os.Args/os.File/process-exit glue around the codec that C05 decides; what remains (exit status, files) is outside the language-level encoding.',
}
NOTE = {}
checks, na = [], []
for p in props:
    i = p['id']
    d = root + '/harness/' + i.lower()
    if i in NA and not os.path.isdir(d):
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.isdir(d) or not any(f.endswith('.go') for f in os.listdir(d)):
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check %s quick' % i,
        'thorough_cmd': './check %s thorough' % i,
        'technique': 'symbolic execution of the real Go code (go/ssa) with SMT (z3), counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': NOTE.get(i, 'Exhaustive for every input within the bounds stated per harness (evidence: harnesses.*.bounds); nothing is claimed outside them. Trusted: go/ssa, the executor (sampled paths are replayed against the compiled code), z3, and the library models listed in DESIGN.md.'),
    })
m = {'version': 1, 'setup_cmd': 'bash ./setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: harnesses are added with go build -overlay', 'source_commits': []},
     'notes': 'Engine in gosym/, harnesses in harness/. ./check <id> [quick|thorough]; bin/gosym replay -file <replay> reruns a counterexample.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
