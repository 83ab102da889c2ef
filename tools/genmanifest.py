#!/usr/bin/env python3
"""Write MANIFEST.json from checks.list, conc.list and properties.jsonl."""
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
have=open('checks.list').read().split()
conc=set(open('conc.list').read().split())
na={}
if os.path.exists('tools/na.json'): na=json.load(open('tools/na.json'))
PURE=('bounded exhaustive enumeration of inputs and operation histories on the real code',
 'Every input, history or argument combination of the stated bounded alphabet is run on the real code and compared with an independently written reference model; nothing is sampled.')
CONC=('bounded exhaustive exploration of histories, peer behaviours and thread schedules on the real code',
 'The real code runs on a cooperative scheduler with a simulated network and clock; every choice of the environment and every schedule up to the stated number of deviations from the default schedule is executed.')
m={'version':1,'setup_cmd':'./setup.sh','hooks':{'guard':'none','enable':'no change to /repo is needed: the checks instrument a copy of the sources with go build -overlay','source_commits':[]},
 'checks':[],'not_applicable':[],
 'notes':'Set VERIF_BUDGET_S to change the time budget of a check; ./run.sh <id> replay <file> repeats a reported violation.'}
for p in props:
    i=p['id']
    if i in have:
        t,n=CONC if i in conc else PURE
        m['checks'].append({'property':i,'quick_cmd':'./run.sh '+i,'thorough_cmd':'./run.sh '+i,'evidence_file':'evidence/%s.json'%i,'technique':t,'level':'model_checking','level_note':n})
    else:
        m['not_applicable'].append({'property':i,'reason':na.get(i,'check not finished yet')})
json.dump(m,open('MANIFEST.json','w'),indent=1)
