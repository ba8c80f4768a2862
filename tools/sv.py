#!/usr/bin/env python3
"""sv.py ID [k] [from]: cluster violations in short"""
import json, sys
d=json.load(open('/verif/evidence/%s.replay.json'%sys.argv[1]))
a=int(sys.argv[3]) if len(sys.argv)>3 else 0
if d.get("none"): sys.exit()
for v in d['violations'][a:a+int(sys.argv[2]) if len(sys.argv)>2 else a+2]:
    print(v['scenario']['id'], v['at'], json.dumps(v['scenario'].get('cfg'))[:1200])
    for e in v['trace']:
      if e['e']=='view':
        n=e['byid'][0]['v'] if e['byid'] else ''
        print('  VIEW', [(b['v'],b['id'],b['n']) for b in e['byid'] if b['f']], [(b['ty'],[x['id']+x['n'] for x in b['l']]) for b in e['byty'] if b['v']==n], [(w['n'],w['tot'],w['per'],'in' if w['in'] else '','key' if w['key'] else '') for w in e['ws']], e['alive'], [ (l['v'],l['n']) for l in e['low']])
      else:
        x={k:e[k] for k in e if k not in ('n',)}
        ev=x.pop('e'); print('  ',ev, ' '.join('%s=%s'%(k,str(v)[:90]) for k,v in x.items() if v not in ('',)))
