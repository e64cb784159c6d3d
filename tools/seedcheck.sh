#!/bin/bash
# usage: tools/seedcheck.sh <id> [demo|check|all]: confirms a seeded bug in the scratch copy ${MUT:-/tmp/mut}:
# the demo passes without and fails with it, the stable tests pass with it; then runs the check of
# its property against the changed copy.
id=$1; what=${2:-all}
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -d ${MUT:-/tmp/mut} ] || cp -a /repo ${MUT:-/tmp/mut}
git -C ${MUT:-/tmp/mut} checkout -q -- . ; git -C ${MUT:-/tmp/mut} fetch -q /repo HEAD && git -C ${MUT:-/tmp/mut} reset -q --hard FETCH_HEAD
# the demo names /repo only by its working directory
rm -rf /tmp/seeddemo; mkdir -p /tmp/seeddemo; cp -r $d/. /tmp/seeddemo/; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
if [ $what != check ]; then
  (cd ${MUT:-/tmp/mut} && timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seeddemo/out0 2>&1); echo "$id: demo on unchanged: $?"
fi
git -C ${MUT:-/tmp/mut} apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
if [ $what != check ]; then
  (cd ${MUT:-/tmp/mut} && timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seeddemo/out1 2>&1); echo "$id: demo on changed: $?"; tail -2 /tmp/seeddemo/out1
  (cd ${MUT:-/tmp/mut} && cmake -S /opt/vp/core -B ${MUT:-/tmp/mut}/_build -G Ninja -DREPO=${MUT:-/tmp/mut} -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null && ninja -C ${MUT:-/tmp/mut}/_build all all_verify_interface_header_sets >/tmp/seeddemo/build.log 2>&1; echo "$id: build: $?"; cd _build && ctest 2>&1 | tail -3 | head -1)
fi
if [ $what != demo ]; then
  (cd /verif && VERIF_REPO=${MUT:-/tmp/mut} VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 check.py $prop 2>/dev/null | cut -c1-400; echo "$id: check rc ${PIPESTATUS[0]}")
fi
git -C ${MUT:-/tmp/mut} checkout -q -- .
