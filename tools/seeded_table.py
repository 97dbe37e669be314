#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(here + '/tools/first_missed.json'))
rows = ['| planted bug | breaks | caught by | needs |', '|---|---|---|---|']
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{i}/meta.json'))
    by = m['property'] + (' (after strengthening: ' + missed[i] + ')' if i in missed else '')
    rows.append(f"| {i} | {m['what_it_breaks']} | {by} | {m['needs']} |")
p = here + '/DESIGN.md'
s = open(p).read()
table = '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->'
s = s.replace('SEEDED-TABLE', '<!-- planted -->\n<!-- /planted -->')
s = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: table, s, flags=re.S)
open(p, 'w').write(s)
