'''Developer tool: DESIGN.md from DESIGN.in.md, properties.jsonl and the catch matrix (tools/matrix.txt).'''
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(f'{HERE}/tools/DESIGN.in.md').read()
rows = {}
mfile = f'{HERE}/tools/matrix.txt'
if os.path.exists(mfile):
    for line in open(mfile):
        w = line.split()
        if w and w[0] != 'MISSED':
            rows[w[0]] = [x for x in w[1:] if ':' not in x]
table = ['| planted bug | property | needs | reported by |', '|---|---|---|---|']
for b in sorted(os.listdir(f'{HERE}/seeded')):
    m = json.load(open(f'{HERE}/seeded/{b}/meta.json'))
    got = rows.get(b)
    got = '(not run)' if got is None else ' '.join(got) if got else 'none'
    needs = ' '.join(str(m['needs']).split()).replace('|', '/')
    table.append(f"| {b} | {m['property']} | {needs} | {got} |")
out = out.replace('@MATRIX@', '\n'.join(table))
open(f'{HERE}/DESIGN.md', 'w').write(out)
