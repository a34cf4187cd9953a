#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in mc/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json'), encoding='utf-8'))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'props', i.lower() + '.py')):
        n = NOTES.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python -B check.py %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python -B check.py %s --tier thorough' % i,
            'technique': n.get('technique', 'model checking: exhaustive bounded exploration of the real code against a reference model'),
            'level': n.get('level', 'model_checking'),
            'level_note': n.get('note', NOTES['default'])})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -m mc.build', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks explore the real code of /repo (extensions rebuilt out of tree by content hash); no hooks in /repo are needed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(checks), len(na))
