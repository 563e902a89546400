"""Write properties.jsonl and MANIFEST.json from the table below (a maintenance aid)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level='model_checking',
         note='', observe=None, state=None, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, level=level, note=note,
                  observe=observe, state=state, claimed=claimed, na=na))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'hook_needed': None}}
        if p['state']:
            d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        if p['observe']:
            d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(d) + '\n')

ready = set(open(os.path.join(HERE, 'tools', 'ready')).read().split())
m = {'version': 1,
     'setup_cmd': "sh ./setup.sh",
     'checks': [{'property': p['id'],
                 'quick_cmd': './check %s --tier quick' % p['id'],
                 'thorough_cmd': './check %s --tier thorough' % p['id'],
                 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']}
                for p in P if p['id'] in ready],
     'not_applicable': [{'property': p['id'], 'reason': p['na'] or 'check under construction'}
                        for p in P if p['id'] not in ready]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(m['checks']), 'checks')

# The table of planted bugs in DESIGN.md
import glob
import re
rows = ['| bug | property | needs |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    x = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), x['property'], x['needs'].replace('|', '/')))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'@@PLANTED@@|\| bug \| property.*?\n(?=\n)', lambda _: '\n'.join(rows) + '\n', s, count=1, flags=re.S)
open(p, 'w').write(s.replace('|\n\n\nThe ones', '|\n\nThe ones'))
