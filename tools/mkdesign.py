"""fills the generated parts of DESIGN.md from tools/design.json and seeded/*/meta.json (idempotent: works on DESIGN.in.md)"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/tools/DESIGN.in.md').read()
D = json.load(open(V + '/tools/design.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
N = json.load(open(V + '/tools/notes.json'))
out = []
for p in props:
    i = p['id']
    out.append('### %s %s\n%s' % (i, p['title'], D['props'].get(i) or ('Not claimed: ' + N.get(i, {}).get('reason', 'no check built yet'))))
s = s.replace('@PROPS@', '\n\n'.join(out))
s = s.replace('@FINDINGS@', '\n'.join(D.get('findings', [])))
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], D['caught'].get(i, 'not run yet')))
s = s.replace('@SEEDED@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(s)
