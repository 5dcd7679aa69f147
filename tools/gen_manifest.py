#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the harness sources present.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/technique.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/harness/%s.cpp' % (V, i.lower())) and i in notes:
        t = notes[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
