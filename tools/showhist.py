#!/usr/bin/env python3
import json,sys
d=json.load(open(sys.argv[1])); print(d['what']); print(json.dumps(d['replay']['program']))
for i,e in enumerate(d['replay']['history'],1):
    print(i, 't%s'%e.get('t','-'), e['k'], {k:v for k,v in e.items() if k not in('t','k')})
