"""addprop.py ID: reads technique, note and design text from stdin (three paragraphs separated by empty lines)"""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
t, n, x = [' '.join(p.split()) for p in sys.stdin.read().strip().split('\n\n')]
f = os.path.join(d, 'notes.json')
j = json.load(open(f)); j[sys.argv[1]] = dict(technique=t, note=n); json.dump(j, open(f, 'w'), indent=1)
f = os.path.join(d, 'design.json')
j = json.load(open(f)); j['props'][sys.argv[1]] = x; json.dump(j, open(f, 'w'), indent=1)
for s in ('mkprops', 'mkdesign', 'mkmanifest'):
    subprocess.run([sys.executable, os.path.join(d, s + '.py')], check=True)
