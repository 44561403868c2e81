#!/usr/bin/env python3
"""Lists the sym.Cover labels no explored path reached (vacuity check), from the
evidence of the last runs."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(root + '/harness/c[0-9]*')):
    i = os.path.basename(d).upper()
    src = ''.join(open(f).read() for f in glob.glob(d + '/*.go'))
    want = set(re.findall(r'sym\.Cover\("([^"]*)"\)', src))
    try:
        hs = json.load(open('%s/evidence/%s.json' % (root, i)))['coverage']['harnesses']
    except OSError:
        print(i, 'no evidence'); continue
    got = {l for h in hs.values() for l in h['covered']}
    asserts = {l for h in hs.values() for l in h['assertions']}
    a = set(re.findall(r', "([^"\n]*)"\)$', "\n".join(l for l in src.splitlines() if "sym.Assert(" in l), re.M))
    if want - got: print(i, 'never covered:', sorted(want - got))
    if a - asserts: print(i, 'never asserted:', sorted(a - asserts))
