#!/bin/bash
# dev aid: run.sh TARGET [time] [seed] [extra]: builds, runs, groups violations
T=$1; shift; t=${1:-15}; shift; s=${1:-1}; shift
B=${VERIF_BUILD:-/verif/build}
rm -rf /tmp/o; mkdir -p /tmp/o
python3 $(dirname $0)/../tools/vb.py $T || exit 2
$B/bin/$T --seed $s --time $t --workers 8 --maxviol 60 --out /tmp/o "$@" 2>/tmp/o/err
for f in /tmp/o/viol.*; do [ -e $f ] && grep -a -m1 "^class" $f | sed "s|\$| |"; done | sort | uniq -c | sort -rn | head -30
