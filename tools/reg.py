#!/usr/bin/env python3
"""reg.py ID RULE REQUIRE_JSON [SUBJECT=PROP ...]  (development tool): rule and required counters of a check, new fixes"""
import json, sys
f='/verif/checks.json'; d=json.load(open(f))
d[sys.argv[1]]['rule']=sys.argv[2]; d[sys.argv[1]]['require']=json.loads(sys.argv[3])
json.dump(d,open(f,'w'),indent=1); open(f,'a').write('\n')
f='/verif/tools/fix_map.json'; d=json.load(open(f))
for a in sys.argv[4:]:
    s,p=a.rsplit('=',1)
    if [s,p] not in d: d.append([s,p])
json.dump(d,open(f,'w'),indent=1)
