#!/usr/bin/env python3
"""fixed.py PROP 'what' : record /repo HEAD as the fix in known_findings.json"""
import json,subprocess,sys
p='/verif/known_findings.json'
d=json.load(open(p))
h=subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
d['fixed'].append('fixed: property=%s %s %s'%(sys.argv[1],h,sys.argv[2]))
json.dump(d,open(p,'w'),indent=1)
