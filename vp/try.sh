#!/bin/bash
# developer aid: one cbmc run of a unit with readable output
python3 - "$@" <<'P'
import sys; sys.path.insert(0,'/verif/vp'); import run,time
name=sys.argv[1]; u=[x for x in run.all_units() if x.name==name][0]
import tempfile; w=tempfile.mkdtemp(); b=run.Builder(w)
mode='BOUNDED' if (u.kind!='proof' or 'b' in sys.argv[2:]) else 'PROOF'
gb=b.goto(u,mode,mode=='PROOF')
t=time.time(); q=run.run_cbmc(u,gb,mode!='PROOF',int(sys.argv[3]) if len(sys.argv)>3 else 300)
print(mode,q['err'],round(time.time()-t,1),'s nobody',q.get('nobody'))
for p in q['results'] or []:
    if run.is_cover(p):
        if p['status']=='SUCCESS': print('VACUOUS',p['description'])
    elif p['status']!='SUCCESS': print(p['status'],p['property'],p['description'],run.where(p))
print(len(q['results'] or []),'obligations')
import shutil; shutil.rmtree(w)
P
