#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check module and the not-applicable reasons below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, 'tools'))
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
NOTE = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    pid = p['id']
    if os.path.exists(os.path.join(V, 'sa', 'props', pid.lower() + '.py')):
        n = NOTE.get(pid, NOTE['default'])
        checks.append({'property': pid, 'quick_cmd': 'python3 sa/check.py %s quick' % pid, 'thorough_cmd': 'python3 sa/check.py %s thorough' % pid,
                       'technique': n.get('technique', NOTE['default']['technique']), 'level': n.get('level', 'other'), 'level_note': n.get('note', NOTE['default']['note'])})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No static check has been built for this property yet; nothing is claimed.')})
json.dump({'version': 1, 'setup_cmd': 'python3 sa/check.py setup', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
