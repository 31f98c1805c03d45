#!/usr/bin/env python3
# Regenerates MANIFEST.json from the list of claimed checks below and properties.jsonl.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl') if l.strip()]
claimed = json.load(open(here + '/tools/claims.json'))
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    c = claimed.get(p['id'])
    if not c or 'na' in c:
        out['not_applicable'].append({"property": p['id'], "reason": (c or {}).get('na', 'check not built yet')})
        continue
    out['checks'].append({
        "property": p['id'],
        "quick_cmd": "./run.sh %s quick" % p['id'],
        "thorough_cmd": "./run.sh %s thorough" % p['id'],
        "evidence_file": "evidence/%s.json" % p['id'],
        "technique": c['technique'], "level": "model_checking", "level_note": c['note']})
out['notes'] = "No hooks in /repo: the concurrency checks rewrite the packages under test through a build overlay. Known findings and repaired defects are listed in KNOWN_FINDINGS.txt."
json.dump(out, open(here + '/MANIFEST.json', 'w'), indent=1)
