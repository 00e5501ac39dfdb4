#!/bin/bash
# mut.sh FILE SED-EXPR TARGET [args]: try a one-line mutation in a scratch copy (development aid)
f=$1; e=$2; t=$3; shift 3
cd /tmp/m/repo && git checkout -q -- . && sed -i -E "$e" $f && git diff --stat | head -1
[ -z "$(git diff)" ] && { echo NOCHANGE; exit 3; }
VERIF_REPO=/tmp/m/repo VERIF_BUILD=/tmp/m/build python3 /verif/tools/vb.py $t || exit 4
mkdir -p /tmp/m/out; rm -f /tmp/m/out/*
/tmp/m/build/bin/$t --out /tmp/m/out --workers 8 --maxviol 3 "$@" | cut -c1-300
head -4 /tmp/m/out/viol.1 2>/dev/null; grep ^message /tmp/m/out/viol.* 2>/dev/null | cut -c1-300
git checkout -q -- .
