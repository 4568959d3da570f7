"""MANIFEST.json from the checks that exist"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTES = json.load(open(V + '/tools/notes.json'))
commits = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--grep=^hooks:'], capture_output=True, text=True).stdout.split('\n')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/checks/%s.py' % i):
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd='python3 checks/%s.py --quick' % i, thorough_cmd='python3 checks/%s.py --thorough' % i,
                           technique=n['technique'], level=n.get('level', 'model_checking'), level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('reason', 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='IOX_VERIF_HOOKS',
         enable='lib/ioxbuild.py compiles /repo\'s sources with -DIOX_VERIF_HOOKS and -I/verif/harness (which provides iox_verif_atomic.hpp)',
         source_commits=[c.split()[0] for c in commits if c]), checks=checks, not_applicable=na)
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
