#!/usr/bin/env python3
"""addcheck.py ID JSON  (development tool): add an entry to checks.json"""
import json,sys
f='/verif/checks.json'; d=json.load(open(f)); d[sys.argv[1]]=json.loads(sys.argv[2])
d=dict(sorted(d.items())); json.dump(d,open(f,'w'),indent=1); open(f,'a').write('\n')
