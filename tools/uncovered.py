#!/usr/bin/env python3
"""Lists the functions of /repo that no check encodes (from the evidence)."""
import json, glob, re, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
enc = set()
for f in glob.glob(root + '/evidence/C*.json'):
    enc |= set(json.load(open(f))['coverage']['functions_encoded'])
short = set()
for e in enc:
    e = re.sub(r'\$\d+.*', '', e)
    short.add(re.sub(r'github.com/dargueta/disko/', '', e).replace('github.com/dargueta/disko', 'disko'))
for f in subprocess.check_output(['git', '-C', '/repo', 'ls-files', '*.go'], text=True).split():
    if f.endswith('_test.go') or f.startswith('testing'): continue
    pkg = os.path.dirname(f) or 'disko'
    for m in re.finditer(r'^func (?:\((?:\w+ )?(\*?)(\w+)(?:\[[^\]]*\])?\) )?(\w+)', open('/repo/' + f).read(), re.M):
        star, recv, name = m.groups()
        cands = ['%s.%s' % (pkg, name)] if not recv else ['(%s%s.%s).%s' % (s, pkg, recv, name) for s in ('', '*')]
        if not any(c in short for c in cands): print(f, (recv or '') + '.' + name)
