#!/usr/bin/env python3
"""Writes MANIFEST.json from settings.json and properties.jsonl."""
import json
S=json.load(open('settings.json'))
P=[json.loads(l) for l in open('properties.jsonl')]
claimed=S['claimed']
TECH="contract-based deductive verification: contracts on the real Go code, verification conditions from go/ssa discharged by z3 and cvc5"
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[])
for p in P:
    i=p['id']
    if i in claimed:
        c=S['properties'][i]
        m['checks'].append(dict(property=i,quick_cmd="python3 check.py %s --tier quick"%i,thorough_cmd="python3 check.py %s --tier thorough"%i,
          technique=c.get('technique',TECH),level=c['level'],level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i,reason=S['not_applicable'][i]))
json.dump(m,open('MANIFEST.json','w'),indent=1)
