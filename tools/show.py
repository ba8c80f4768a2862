#!/usr/bin/env python3
"""show.py ID [n]: the last events of the violations in evidence/ID.replay.json"""
import json, sys
d=json.load(open('/verif/evidence/%s.replay.json'%sys.argv[1]))
n=int(sys.argv[2]) if len(sys.argv)>2 else 20
for v in d['violations'][:int(sys.argv[3]) if len(sys.argv)>3 else 2]:
    print(v['at'], json.dumps(v['scenario'])[:1500])
    for e in v['trace'][-n:]: print('  ', json.dumps(e)[:600])
