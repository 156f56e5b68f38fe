#!/bin/bash
# development helper: prove + sample the given contracts
cd "$(dirname "$0")/.."
for c in "$@"; do echo "== $c"; PYTHONHASHSEED=${HS:-0} python3-vt -m hvc.prove $c 2>&1 | python3 -c "
import sys,json
for l in sys.stdin:
    if l.startswith('HVCJSON'):
        r=json.loads(l[8:]); print(r['status'],len(r['obligations']),'paths',r.get('paths'),round(r.get('secs',0),1),'used',r.get('used'),'assumed',r.get('assumed'))
        for k in ('reason','budget','trace'):
            if r.get(k): print(k,r[k])
        for u in r.get('unsupported') or []: print('   UNSUP',u)
        bad=[o for o in r['obligations'] if o['status']!='proved']
        print('   ',len(bad),'not proved')
        for o in bad[:10]:
            if o['status']!='proved': print('   ',o['status'],o['name'],'|',o['detail'][:250].replace('\n',' '),str(o['model'])[:200])
    elif l.strip(): print(l.rstrip())
"; /opt/venv/bin/python -m hvc.conc $c 1 ${N:-30} 2>&1| cut -c1-${W:-900}; done
