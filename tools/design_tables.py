#!/usr/bin/env python3
"""design_tables.py: rewrites the generated tables of DESIGN.md (between <!-- x --> and <!-- /x -->) from known_findings.txt and seeded/."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
fixes = []
for l in open('known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixes.append('| %s | %s | %s |' % m.groups())
seeds = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    seeds.append('| %s | %s | %s | %s |' % (f.split('/')[1], d.get('caught_by', d['property']), d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
t = {'fixes': '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fixes),
     'seeds': '| bug | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(seeds)}
s = open('DESIGN.md').read()
for k, v in t.items():
    s, n = re.subn(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (k, k), lambda m: m.group(1) + '\n' + v + '\n\n' + m.group(2), s, flags=re.S)
    assert n == 1, k
open('DESIGN.md', 'w').write(s)
