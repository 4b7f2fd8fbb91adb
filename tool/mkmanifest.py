"""writes MANIFEST.json from the rule registry and the list of properties"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import lib, rules_all, na  # noqa
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
nas = []
for p in props:
    i = p['id']
    if i in lib.RULES:
        r = lib.RULES[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': r['technique'], 'level': 'other', 'level_note': r['note']})
    else:
        nas.append({'property': i, 'reason': na.REASONS.get(i, 'The rule for this property is not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tool/facts.py', 'checks': checks, 'not_applicable': nas,
           'notes': 'All checks analyse the MIR of /repo as it is at the time of the run; nothing of /repo is executed. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(nas), 'not applicable')
