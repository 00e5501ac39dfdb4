#!/bin/bash
# seed.sh ID [check...]: dev aid. Tries /verif/seeded/ID in /repo: demo without, demo with, checks with.
id=$1; shift; S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -n "$(git status --short)" ] && { echo dirty; exit 1; }
C=$(mktemp -d); cp -a $S/. $C/; rm -f $C/*.diff $C/meta.json
bash /opt/vp/build.sh >/tmp/b.log 2>&1; timeout 300 bash $C/demo.sh >/tmp/d0.log 2>&1; echo "clean demo: $?"
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo BUILD FAILED
timeout 300 bash $C/demo.sh >/tmp/d1.log 2>&1; echo "patched demo: $?"; tail -3 /tmp/d1.log
if [ "$1" = -t ]; then shift; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json')); print("stable tests failing:", sorted(set(b['stable'])-set(t['passed'])))
Q
fi
if [ "$1" = -c ]; then (cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py $P | tail -3); fi
git checkout -- . ; rm -rf $C
bash /opt/vp/build.sh >/tmp/b.log 2>&1
