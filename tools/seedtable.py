#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = set(open(os.path.join(root, 'tools/missed-first.txt')).read().split())
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d['needs']} | {d['property']} | {'after strengthening' if i in late else 'at once'} |")
p = root + '/DESIGN.md'; s = open(p).read()
head = '<!-- seeds -->\n'
s = s[:s.index(head) + len(head)] + '\n| planted bug | needs | caught by | |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
