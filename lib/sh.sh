#!/bin/bash
# sh.sh ID idx...: shrink several in parallel
id=$1; shift
for i in "$@"; do python3 /verif/lib/shrink1.py $id $i $PART $CFG > /tmp/g/s$i.txt 2>&1 & done; wait
for i in "$@"; do echo "=== $i"; python3 - /tmp/g/s$i.txt <<'P'
import sys
t=open(sys.argv[1]).read()
# drop boilerplate of methods
out=[];skip=False
for l in t.split("\n"):
    if "public void run(vp.Out)" in l: skip=True
    if skip and l.startswith("}"): skip=False
    if not skip: out.append(l[:180])
o="\n".join(x for x in out if x.strip())
print(o[:3500])
P
done
