#!/bin/bash
# usage: seed.sh ID   (expects /verif/seeded/ID/{patch.diff,demo.sh,meta.json}); confirms it in a scratch copy.
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/seedcheck-$ID
rm -rf "$W"; cp -a /repo "$W"; 
sed "s#/repo#$W#g" /opt/vp/build.sh > $W.build.sh; sed "s#/repo#$W#g" /opt/vp/test.sh > $W.test.sh
mkdir -p $W.demo; cp $D/* $W.demo/; sed -i "s#/repo#$W#g" $W.demo/*
rm -rf $W/_build
bash $W.build.sh > $W.log 2>&1 || { echo "base build failed"; tail $W.log; }
(cd $W && timeout 300 bash $W.demo/demo.sh) > $W.d0 2>&1; R0=$?
git -C $W apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash $W.build.sh > $W.log 2>&1 || { echo "patched build FAILED"; tail -20 $W.log; }
bash $W.test.sh $W.json > $W.log 2>&1
T=$(python3 - "$W.json" <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def ids(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return set(x[k] if isinstance(x[k],list) else [i for i,v in x[k].items() if v in ('passed','pass',True)])
    return set(x)
bs=ids(b); rs=ids(r)
print("tests missing:",sorted(bs-rs) if bs-rs else "none", len(bs))
P
)
(cd $W && timeout 300 bash $W.demo/demo.sh) > $W.d1 2>&1; R1=$?
echo "$ID demo base=$R0 patched=$R1; $T"
[ $R0 -ne 0 ] && tail -5 $W.d0
[ $R1 -eq 0 ] && tail -5 $W.d1
rm -rf "$W" $W.*
