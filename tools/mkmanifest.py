#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. Claimed properties are those with a scenario.
import json,re,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
scen=set(re.findall(r'"(C\d\d)":\s*\{main', open(here+'/sim/harness/scenarios.go').read()))
NA={
 'C18':'pure function of one value: no schedule, time, I/O, fault or second party for a simulation to decide (values crossing the link are covered by C14 and C07)',
 'C19':'pure function of one object: no schedule, time, I/O, fault or second party for a simulation to decide',
 'C20':'pure function of a level and a message: no schedule, time, fault or second party for a simulation to decide',
 'C21':'pure function of one element: no schedule, time, I/O, fault or second party for a simulation to decide',
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in scen:
        checks.append({'property':i,'quick_cmd':f'bash check.sh {i} quick','thorough_cmd':f'bash check.sh {i} thorough',
          'technique':'deterministic simulation with fault injection: seeded schedules, network behaviour and faults over the real code, judged by an executable reference model',
          'level':'exploration',
          'level_note':'seeded random search over schedules, segmentations, faults and inputs of the instrumented real library; every run repeatable from its seed, violations minimised to a replay file; clean runs are evidence, not proof'})
    else:
        na.append({'property':i,'reason':NA.get(i,'check not built yet')})
m={'version':1,'setup_cmd':'bash check.sh warm','checks':checks,'not_applicable':na}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
open(here+'/MANIFEST.json','a').write('\n')
