#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()
rows = []
for name in os.listdir(os.path.join(ROOT, 'seeded')):
    meta = json.load(open(os.path.join(ROOT, 'seeded', name, 'meta.json')))
    rows.append((meta['property'], name, meta['needs'], 'missed' if name in MISSED else meta['property']))
text = open(os.path.join(ROOT, 'DESIGN.md')).read()
start, end = '<!-- seeds -->\n', '<!-- /seeds -->\n'
table = '| property | planted bug | needs | caught by |\n|---|---|---|---|\n' + ''.join('| {} | {} | {} | {} |\n'.format(*r) for r in sorted(rows))
text = text[:text.index(start) + len(start)] + table + text[text.index(end):]
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(text)
