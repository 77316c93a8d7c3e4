"""Writes known_findings.json: the findings left in the code (none so far) and the defects repaired in /repo."""
import json, os, subprocess
PROPS = dict(e4dfd66='C14', **{'465035a': 'C12', '80f77c4': 'C12 C13', 'f0f93a8': 'C12', 'a4706f2': 'C12 C08', 'c3ea429': 'C02 C11', 'bb9b7f9': 'C06',
    '8e8a37c': 'C18', 'f6c58a6': 'C18', 'd320009': 'C18', 'cfb05a9': 'C18 C21', '981b3e1': 'C20', '9aafb46': 'C20', 'fed6b21': 'C22', '8cc6242': 'C12 C08',
    '0e49bbe': 'C08 C22 C23', 'd726bba': 'C23', 'de220b0': 'C23', 'a4587b4': 'C23', 'c7b4055': 'C22', 'fcc34cc': 'C22', '8aaf587': 'C22', '7cd479b': 'C22',
    '2a66bcf': 'C28 C22', 'f3d60a6': 'C22', '779d9a7': 'C13', 'e317ea3': 'C28', 'e5d1e1f': 'C16', '5a47c53': 'C16', '80dfc0b': 'C04 C06', '98bdbae': 'C13',
    '56fe66d': 'C10', 'e3acc65': 'C13', 'f6ead3a': 'C27', 'f14c396': 'C27', 'f1431d4': 'C24 C10', '6ff6fa7': 'C25 C01', '479b4bd': 'C21 C01',
    '9fa59f5': 'C17 C01 C04', '23c6955': 'C17 C01 C05', '16b12ce': 'C05 C17', '42313f8': 'C03', 'f3d0669': 'C17 C04', '81eb1a1': 'C06', '021be8b': 'C12 C08',
    '59149a9': 'C12', '9aa51ef': 'C17 C04', '36c0562': 'C22 C01', 'dc91ceb': 'C23', '7a32691': 'C27', '7671c26': 'C13',
    'e89ae6e': 'C29', 'a08fd1d': 'C29 C24', 'c76207c': 'C29 C22', 'a07d0cb': 'C27 C12', 'd5c729f': 'C26', '4325f9e': 'C11 C02', '054e2c8': 'C13 C01', '26a76cd': 'C05 C01 C17', 'e58bf4e': 'C29', '84402a7': 'C13', '60263b8': 'C13'})
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = []
for line in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        for p in PROPS[h[:7]].split():
            fixed.append('fixed: property=%s %s %s' % (p, h[:7], s[5:]))
json.dump(dict(findings=[], fixed=fixed), open(os.path.join(here, 'known_findings.json'), 'w'), indent=1, ensure_ascii=False)
print(len(fixed))
