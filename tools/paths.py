#!/usr/bin/env python3
import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for h,v in e['coverage']['harnesses'].items():
    print(h,'paths',v['paths'],'time',v['path_time_s'],'exh',v['exhaustive'],'cov',v['covered'],v['bounds'],'cut',v['cut_by_assumption'],v.get('unsupported',''))
