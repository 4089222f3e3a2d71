#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import props
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
checks = []
for i in ids:
    p = props.PROPS.get(i)
    if not p:
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                       thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique=p.get('technique', 'contract-based deductive verification (VC generation over the real code, SMT)'),
                       level=p['level'], level_note=p.get('note', '')[:2000] or 'see DESIGN.md'))
na = [dict(property=i, reason=props.NA.get(i, 'check not built yet')) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd='python3 engine/selftest.py', checks=checks, not_applicable=na)
if props.HOOKS:
    m['hooks'] = props.HOOKS
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
