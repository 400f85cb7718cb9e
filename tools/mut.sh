#!/bin/bash
# tools/mut.sh PID FILE 's/sed/expr/' : run one check against a mutated scratch copy of /repo
d=$(mktemp -d /tmp/mut.XXXXXX); mkdir $d/repo; cp -a ${MUTREPO:-/repo}/include $d/repo/
f=$d/repo/include/asyncpp/$2
[ -f $f ] || { echo "no such file $f"; rm -rf "$d"; exit 9; }
cp $f $f.orig; perl -0pi -e "$3" $f; if cmp -s $f $f.orig; then echo "NOT CHANGED"; fi; rm $f.orig
cd /verif; VERIF_EVID=$d VERIF_REPO=$d/repo VERIF_SCRATCH= ./check $1 2>&1 | cut -c1-220 | tail -${4:-4}
rm -rf "$d"
