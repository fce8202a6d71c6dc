#!/bin/bash
# trybugs.sh ID... : for each planted bug: demo on the clean tree, build + stable tests + demo in a patched scratch copy, then the property's check against it
one(){ id=$1
 s=/verif/seeded/$id; w=$(mktemp -d /tmp/bugXXXX); cp -a /repo $w/r
 p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
 cp -a $s $w/demo
 for f in build.sh test.sh conversion_cases.py results.py; do sed "s|/repo|$w/r|g; s|/opt/vp/|$w/|g" /opt/vp/$f > $w/$f; done
 (cd $w/r && bash $w/demo/demo.sh >$w/clean.out 2>&1); c=$?
 (cd $w/r && git apply $s/patch.diff) || { echo "$id PATCH FAILED"; rm -rf $w; return; }
 bash $w/test.sh $w/t.json >$w/t.out 2>&1
 tst=$(python3 -c "
import json;a=json.load(open('/opt/vp/BASELINE.json'))['stable'];b=set(json.load(open('$w/t.json'))['passed']);m=[x for x in a if x not in b];print(len(m),m[:1])")
 (cd $w/r && bash $w/demo/demo.sh >$w/bad.out 2>&1); b=$?
 t0=$(date +%s)
 if [ -z "$NOCHECK" ]; then out=$(cd $w && VP_EVDIR=$w/ev VP_REPO=$w/r timeout 900 python3 /verif/vp/check.py $p ${TIER:-quick} 2>&1); k=$?; else k=-; fi
 echo "$id prop=$p clean=$c patched=$b testsbroken=$tst check=$k ($(( $(date +%s)-t0 ))s) $(echo "$out" | grep -m2 -E 'failed obl|ERROR' | tr '\n' ' ' | cut -c1-200) $(echo "$out" | grep -c 'VIOLATION.*json$')"
 [ $c = 0 ] || head -5 $w/clean.out
 [ $b != 0 ] || echo "   DEMO DOES NOT FAIL"
 rm -rf $w
}
for id in "$@"; do one $id; done
