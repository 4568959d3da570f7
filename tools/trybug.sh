#!/bin/bash
# tools/trybug.sh ID: on the clean tree and with the change: build of the libraries, demo, checks given as further arguments
i=$1; shift
cd /repo || exit 3
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
T="libiceoryx_posh.a libiceoryx_posh_roudi.a libiceoryx_hoofs.a libiceoryx_platform.a libiceoryx_posh_roudi_env.a libiceoryx_binding_c.a"
b() { GIT_DIR=/nonexistent ninja -C _build $(cd _build && for x in posh/libiceoryx_posh.a posh/libiceoryx_posh_roudi.a hoofs/libiceoryx_hoofs.a platform/libiceoryx_platform.a posh/roudi_env/libiceoryx_posh_roudi_env.a iceoryx_binding_c/libiceoryx_binding_c.a; do echo $x; done) >/tmp/trybug.log 2>&1 || { tail -20 /tmp/trybug.log; exit 3; }; }
b; bash /verif/seeded/$i/demo.sh >/tmp/trybug.clean 2>&1; echo "clean: $? $(tail -1 /tmp/trybug.clean)"
git apply /verif/seeded/$i/patch.diff || exit 3
b; bash /verif/seeded/$i/demo.sh >/tmp/trybug.bug 2>&1; echo "bug: $? $(tail -1 /tmp/trybug.bug)"
for c in "$@"; do VERIF_BUILD=/tmp/mutbuild timeout 900 python3 /verif/checks/$c.py 2>&1 | tail -2 | cut -c1-300; done
