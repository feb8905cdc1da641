"""rewrites the table of planted bugs at the end of DESIGN.md from
seeded/*/meta.json and the last results of runseeds.py (tools/seeds.json)"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs'
res = json.load(open(os.path.join(HERE, 'tools', 'seeds.json')))
rows = []
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    sid = f.split('/')[-2]
    rows.append(f"| {sid} | {m['property']} | {m['what_it_breaks']} | "
                f"{res.get(sid, 'not run')} |")
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read().split(MARK)[0]
s += MARK + '''

Each was written from the property and the code, confirmed with
`tools/mkseed.py` (applies, 974 tests pass, demonstration fails only with the
change) and run with `tools/runseeds.py` (the result column: label of the
violation reported by the check of the property).

| id | property | what it breaks | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
