#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when the harness directory has a harness for it."""
import json,os,re,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have=set()
for f in glob.glob(root+'/harness/**/*.go',recursive=True):
    have|=set(re.findall(r'^func VF_([A-Z0-9]+)_',open(f).read(),re.M))
na={}
p=root+'/tools/not_applicable.json'
if os.path.exists(p): na=json.load(open(p))
conc={'C10','C11','C12','C13','C14','C15','C16','C17','C18','C19','C20','C24','C25'}
checks=[];nas=[]
for d in props:
    i=d['id']
    if i in have and i not in na:
        c=i in conc
        checks.append({'property':i,'quick_cmd':'bash check.sh %s quick'%i,'thorough_cmd':'bash check.sh %s thorough'%i,
          'technique':'symbolic execution of the Go SSA of /repo'+(' over all interleavings up to a preemption bound' if c else '')+', assertions decided by z3 over bit-vectors, counterexamples replayed',
          'level':'model_checking',
          'level_note':'All values of the symbolic inputs'+(' and all schedules up to the preemption bound (2 quick, deeper thorough)' if c else '')+' within the bounds listed in DESIGN.md for %s; nothing is claimed beyond them. Trusts the engine\'s model of Go, reflect, sync and time (sampled paths are re-run natively) and z3.'%i})
    else:
        nas.append({'property':i,'reason':na.get(i,'no check built yet')})
m={'version':1,'setup_cmd':'bash check.sh setup','checks':checks,'not_applicable':nas}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
print('claimed',[c['property'] for c in checks]); print('not',[n['property'] for n in nas])
