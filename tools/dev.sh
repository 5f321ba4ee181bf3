#!/bin/bash
# tools/dev.sh PROP CONTRACT : one contract, condensed
cd /verif && DGA_NO_EVIDENCE=1 /opt/venv/bin/python check.py $1 --dev --only $2 $3 > /tmp/dev_$1_$2.json 2>/tmp/dev_$1_$2.err
python3 - /tmp/dev_$1_$2.json <<'P'
import json,sys
t=open(sys.argv[1]).read()
if not t.startswith('{') and chr(10)+'{' in t: t=t[t.index(chr(10)+'{'):]
try: r=json.loads(t)
except Exception: print(t[-1200:]); print(open(sys.argv[1].replace('.json','.err')).read()[-3000:]); sys.exit()
print(r['name'],'| con',r['concrete']['status'],str(r['concrete'].get('info',''))[:1500],r['concrete'].get('evals'))
s=r.get('symbolic')
if s:
    print('  sym',s['status'],len(s['obl']),'obl',s.get('paths'),'paths','%.1fs'%s['wall'],str(s['info'])[:2500])
    for o in [o for o in s['obl'] if o['status']!='proved'][:4]: print('   ',o['label'],o['status'],o['info'][-500:],o['model'])
if 'replayed' in r: print('replayed',r['replayed'])
P
