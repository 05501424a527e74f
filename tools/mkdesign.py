#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.txt, tools/notes.json, properties.jsonl and tools/caught.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = open(os.path.join(V, 'tools', 'design.txt')).read()
N = json.load(open(os.path.join(V, 'tools', 'notes.json')))
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
out = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    n = N.get(p['id'])
    if n:
        a, b, c, d = n['design']
        out += ['### %s %s' % (p['id'], p['title']), '', '%s.' % n['technique'][17:].rstrip('.').capitalize(), '', '* analysed: ' + a, '* oracle: %s.' % b.rstrip('.'), '* bound: ' + c, '* beyond the tests: %s.' % d.rstrip('.'), '']
    elif p['id'] in NA:
        out += ['### %s %s' % (p['id'], p['title']), '', 'Not applicable: ' + NA[p['id']], '']
s = []
C = json.load(open(os.path.join(V, 'tools', 'caught.json')))
S = os.path.join(V, 'seeded')
s += ['| planted bug | what it breaks | caught by |', '|---|---|---|']
for i in sorted(os.listdir(S)) if os.path.isdir(S) else sorted(C):
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    s.append('| %s | %s | %s |' % (i, m['what_it_breaks'].replace('|', '/').replace('\n', ' '), C.get(i, '?')))
open(os.path.join(V, 'DESIGN.md'), 'w').write(T.replace('@PROPS@', '\n'.join(out)).replace('@SEEDED@', '\n'.join(s)))
