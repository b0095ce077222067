#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'default': 'runtime monitoring: recorded histories against an executable reference model',
}
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read())

checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    prop = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'checks', prop.lower() + '.py')):
        checks.append({
            'property': prop,
            'quick_cmd': 'python3 run.py %s --tier quick' % prop,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % prop,
            'technique': TECH[prop],
            'level': 'exploration',
            'level_note': NOTES.get(prop, 'Held on the executions explored (counts in the evidence '
                                    'file); nothing is claimed about executions not driven.'),
        })
    else:
        missing.append({'property': prop, 'reason': NA.get(prop, 'No check has been built yet.')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
               'not_applicable': missing,
               'notes': 'No hooks in /repo are needed: monitors use its public interfaces.'},
              f, indent=1)
    f.write('\n')
