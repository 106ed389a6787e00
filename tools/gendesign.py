#!/usr/bin/env python3
"""Assembles DESIGN.md from docs/, KNOWN_FINDINGS.txt and seeded/."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(root, *p)).read()
out = [rd('docs', 'method.md').rstrip(), '', rd('docs', 'properties.md').rstrip(), '']
for l in rd('KNOWN_FINDINGS.txt').splitlines():
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        out.append('* %s `%s`: %s' % m.groups())
missed = {l.split()[0]: l.split()[1:] for l in rd('docs', 'seeds.txt').splitlines() if l.strip()}
out += ['', '## 5. Planted bugs', '',
        'Each is in seeded/, compiles, passes the tests and has a demonstration. "Caught" is the',
        'quick tier of the check of its property. Those marked were missed when they were planted;',
        'the checks were then strengthened by a general space, never by the planted case.', '',
        '| planted bug | property | breaks | caught |', '|---|---|---|---|']
d = os.path.join(root, 'seeded')
for s in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = json.load(open(os.path.join(d, s, 'meta.json')))
    how = ' '.join(missed.get(s, [])) or 'yes'
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '\\|').replace('\n', ' '), how))
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
