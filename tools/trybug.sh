#!/bin/bash
# trybug.sh ID... -- applies each planted change to /repo, runs tests, demo and the check of its property, and reverts.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$prop': print(c['quick_cmd'])")
    [ -n "${NODEMO:-}" ] || { bash "$d/demo.sh" >/tmp/try.demo0 2>&1; c0=$?; }
    git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    t=skip; c1=skip
    if [ -z "${NODEMO:-}" ]; then
        bash /opt/vp/build.sh >/tmp/try.build 2>&1 || echo "$id: build fails"
        bash /opt/vp/test.sh /tmp/try.json >/tmp/try.test 2>&1
        t=$(tail -1 /tmp/try.test)
        bash "$d/demo.sh" >/tmp/try.demo1 2>&1; c1=$?
    fi
    s=$(date +%s)
    (cd /verif && timeout 900 $cmd >/tmp/try.check 2>&1); rc=$?
    e=$(( $(date +%s) - s ))
    git checkout -q -- .
    echo "$id prop=$prop tests=[$t] demo clean=${c0:-skip} bug=$c1 check=$rc (${e}s) $(grep -m1 '^\[' /tmp/try.check | cut -c1-160)"
done
bash /opt/vp/build.sh >/tmp/try.build 2>&1
