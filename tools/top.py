#!/usr/bin/env python3
import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
p=d['coverage']['parts']
for k,v in sorted(p.items(),key=lambda kv:-kv[1].get('executions',kv[1].get('cases',0)))[:int(sys.argv[2]) if len(sys.argv)>2 else 15]:
    print(k,v.get('executions',v.get('cases')),v.get('steps',v.get('transitions')),v.get('max_points'),'b',v.get('bound'))
print(d['wall_s'])
