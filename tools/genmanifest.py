#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import plan
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in plan.PLAN: continue
    P = plan.PLAN[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i, technique=P.get('tech', plan.TECH), level=P['level'], level_note=P.get('note', plan.NOTE)))
na = [dict(property=i, reason=plan.NA.get(i, 'the check for this property is not built yet')) for i in ids if i not in plan.PLAN]
json.dump(dict(version=1, setup_cmd='make -s -j8', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
