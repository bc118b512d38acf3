#!/usr/bin/env python3
# tools/seedtable.py: rewrite the table of seeded bugs in DESIGN.md from
# seeded/*/meta.json and, if given, the lines "ID C01:0 C02:1 ..." of a run of
# every check against every bug (file named by the argument).
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = open(V + '/DESIGN.md').read()
old = dict(re.findall(r'^\| (\S+) \| .* \| ([^|]*) \|$', D[D.index('<!-- seeds'):], re.M))
caught = {k: v for k, v in old.items()}
for f in sys.argv[1:]:
    for l in open(f):
        p = l.split()
        if len(p) > 1 and ':' in p[1]:
            caught[p[0]] = ' '.join(x.split(':')[0] for x in p[1:] if x.endswith(':1'))
rows = ['| Bug | What it breaks | Needs | Caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, m['property'])} |")
a, b = D.index('<!-- seeds -->'), D.index('<!-- /seeds -->')
open(V + '/DESIGN.md', 'w').write(D[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + D[b:])
