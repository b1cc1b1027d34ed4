#!/usr/bin/env python3
"""Print the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
MISSED = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'missed_at_first.json')))
print('| planted bug | what it does | caught by | missed at first: what was added |')
print('|---|---|---|---|')
for i in sorted(os.listdir(R)):
    m = json.load(open(os.path.join(R, i, 'meta.json')))
    print('| %s | %s | %s | %s |' % (i, ' '.join(m['what_it_breaks'].split())[:150], m['property'], MISSED.get(i, '')))
