#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and tools/registry.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, registry
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py",
     "checks": [], "not_applicable": []}
for p in props.PROPS:
    i = p['id']
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "technique": c['technique'], "level": c.get('level', 'model_checking'),
                            "level_note": c['note'] + ' Bounds: ' + c['bounds'] + '.'})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NA.get(i, "not claimed: no check has been built for it yet")})
if getattr(registry, 'HOOKS', None): m['hooks'] = registry.HOOKS
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
