#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as o:
    for p in props.P:
        o.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
for p in props.P:
    for f in p['files'] + [w for _, w in p['mech'] if w.endswith(('.c', '.h', '.cpp'))]:
        assert os.path.exists('/repo/' + f), (p['id'], f)
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in props.P:
    if p.get('check'):
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 checks/%s' % p['check'], 'thorough_cmd': 'python3 checks/%s' % p['check'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

# DESIGN.md: the text of tools/design.tmpl.md with the tables of planted bugs and of what is not applicable
if os.path.isdir(V + '/seeded'):
    rows = ['| bug | property | needs | breaks |', '|---|---|---|---|']
    for d in sorted(os.listdir(V + '/seeded')):
        k = json.load(open(V + '/seeded/%s/meta.json' % d))
        rows.append('| %s | %s | %s | %s |' % (d, k['property'], k['needs'], k['what_it_breaks']))
    t = open(V + '/tools/design.tmpl.md').read().replace('@@SEEDED@@', '\n'.join(rows))
    t = t.replace('@@NA@@', '\n'.join('* %s %s: %s.' % (p['id'], p['title'], p['na']) for p in props.P if not p.get('check')))
    for x in ('@@TABLE@@\n', '@@DETAILS@@\n', '@@FINDINGS@@\n'):
        t = t.replace(x, '')
    open(V + '/DESIGN.md', 'w').write(t)
