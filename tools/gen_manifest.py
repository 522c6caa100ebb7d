#!/usr/bin/env python3
# Writes MANIFEST.json from specs/*.json and tools/levels.json
import json,os,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)['id'] for l in open(root+'/properties.jsonl')]
na=json.load(open(root+'/tools/not_applicable.json'))
checks=[];nas=[]
for p in props:
    f=f'{root}/specs/{p}.json'
    if p in na:
        nas.append({'property':p,'reason':na[p]})
    elif os.path.exists(f):
        s=json.load(open(f))
        checks.append({'property':p,'quick_cmd':f'./check.sh {p} quick','thorough_cmd':f'./check.sh {p} thorough',
            'evidence_file':f'evidence/{p}.json',
            'technique':s.get('technique','bounded symbolic execution of the Go SSA of the real code, assertions decided by z3'),
            'level':s.get('level','model_checking'),'level_note':s.get('level_note','')})
    else:
        nas.append({'property':p,'reason':'no check built yet'})
m={'version':1,'setup_cmd':'./build.sh','checks':checks,'not_applicable':nas,
 'notes':'engine/ is a symbolic executor for Go SSA; harness/ holds the harnesses, specs/ the bounds. See DESIGN.md.'}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
