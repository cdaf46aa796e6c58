#!/usr/bin/env python3
"""Rewrites section 5 of DESIGN.md from the output of tools/seedtest.py -all."""
import json, re, sys
rows = []
for l in open(sys.argv[1]):
    m = re.match(r'(CAUGHT|MISSED|undecided)\s+(c\d\S*)\s+(C\d+)\s+(.*)', l)
    if m:
        rows.append(m.groups())
doc = open('/verif/DESIGN.md').read()
head = '## 5. Planted bugs and the checks that catch them'
doc = doc.split(head)[0].rstrip() + '\n\n' + head + '\n\n'
doc += 'A check followed by `?` leaves part of its obligations undecided with the change (it does not raise an alarm for them).\n\n'
doc += '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
for st, sid, prop, by in rows:
    meta = json.load(open('/verif/seeded/%s/meta.json' % sid))
    needs = re.sub(r'\s+', ' ', str(meta.get('needs', ''))).replace('|', '/')
    if len(needs) > 130:
        needs = needs[:127].rsplit(' ', 1)[0] + ' …'
    own = '' if st == 'CAUGHT' else ' (not by its own check)'
    doc += '| `%s` | %s | %s | %s%s |\n' % (sid, prop, needs, by.strip(), own)
open('/verif/DESIGN.md', 'w').write(doc)
