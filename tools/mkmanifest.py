"""Writes MANIFEST.json from properties.jsonl and the check modules that exist (maintenance tool, not a check)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    path = os.path.join(V, 'checks', p.lower() + '.py')
    if os.path.exists(path):
        checks.append(dict(property=p, quick_cmd='./run.sh {} --tier quick'.format(p),
                           thorough_cmd='./run.sh {} --tier thorough'.format(p),
                           technique=TECH[p], level='exploration',
                           level_note='Monitored executions of the real code; reach is the generated workload, counted in the evidence file.'))
    else:
        na.append(dict(property=p, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
