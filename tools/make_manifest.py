"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(here, 'tools', 'level_notes.json')))
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique='property-based testing (Hypothesis): ' + NOTES[i][0],
                           level='exploration', level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason='the check is not written yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='One runner (check.py) drives Hypothesis strategies over the real library imported from /repo; '
                     'the oracles are independent computations in /verif/pbt. See DESIGN.md.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
