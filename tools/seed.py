"""writes a planted change: tools/seed.py ID PROPERTY NEEDS BREAKS < patch  (demo.cpp is put beside it by hand)"""
import json, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, needs, breaks = sys.argv[1:5]
d = V + '/seeded/' + i
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(sys.stdin.read())
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# compiles demo.cpp against the tree in the current directory and its build products, and runs it
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
INC=()
for d in _build/generated/*/include iceoryx_hoofs/*/include iceoryx_hoofs/*/*/include iceoryx_posh/include \\
         iceoryx_posh/experimental/include iceoryx_posh/roudi_env/include iceoryx_posh/testing/include \\
         iceoryx_binding_c/include iceoryx_platform/linux/include iceoryx_platform/generic/include; do INC+=(-I"$d"); done
L=()
for l in _build/iceoryx_binding_c/libiceoryx_binding_c.a _build/posh/roudi_env/libiceoryx_posh_roudi_env.a \\
         _build/posh/libiceoryx_posh_roudi.a _build/posh/libiceoryx_posh.a _build/hoofs/libiceoryx_hoofs.a \\
         _build/platform/libiceoryx_platform.a; do L+=("$l"); done
g++ -std=c++17 -O1 -pthread -w "${INC[@]}" "$D/demo.cpp" -o "$S/demo" -Wl,--start-group "${L[@]}" -Wl,--end-group \\
    -lacl -lrt -ldl || exit 3
timeout 120 "$S/demo"
''')
os.chmod(d + '/demo.sh', 0o755)
