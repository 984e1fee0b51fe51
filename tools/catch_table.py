#!/usr/bin/env python3
""" Write the table of planted bugs (section 6 of DESIGN.md) from seeded/*/meta.json and the results of `seedtool.py verify` (tools/bugs/results.json). """
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res_path = os.path.join(VERIF, 'tools', 'bugs', 'results.json')
res = json.load(open(res_path)) if os.path.exists(res_path) else {}
rows = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
    m = json.load(open(os.path.join(VERIF, 'seeded', i, 'meta.json')))
    caught = res.get(i)
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {'%s quick check (%s)' % (m['property'], caught) if caught else 'not caught'} |")
p = os.path.join(VERIF, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- catch table -->\n', '<!-- end of catch table -->'
head, tail = s.split(a)[0], s.split(b)[1]
open(p, 'w').write(head + a + '\n'.join(rows) + '\n' + b + tail)
