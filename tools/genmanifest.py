#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. A property is claimed when the analyser has a check for it and it is not listed in NOT."""
import json, subprocess
V='/verif'
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
have=set(subprocess.run([V+'/bin/sa','-list'],stdout=subprocess.PIPE,text=True).stdout.split())
exec(open(V+'/tools/manifest_notes.py').read())
checks=[]; na=[]
for i in ids:
    if i in have and i not in NOT:
        checks.append(dict(property=i,
            quick_cmd='./check.sh '+i, thorough_cmd='./check.sh '+i+' thorough',
            evidence_file='evidence/%s.json'%i,
            technique=TECH.get(i, TECH['*']), level='other',
            level_note=NOTE.get(i, NOTE['*'])))
    else:
        na.append(dict(property=i, reason=NOT.get(i, 'No check has been built for it yet.')))
m=dict(version=1, setup_cmd='./build.sh', checks=checks, not_applicable=na,
  notes='All checks are static analyses of /repo\'s current source by /verif/sa (see DESIGN.md); no code of the repository is run. No hooks are needed.')
json.dump(m, open(V+'/MANIFEST.json','w'), indent=1)
print(len(checks),'claimed',len(na),'not')
