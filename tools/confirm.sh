#!/bin/bash
# confirm.sh ID : patch applies, stable tests pass with it, demo passes without and fails with it (in a scratch copy)
id=$1; S=/tmp/scratch.$id
rm -rf "$S"; mkdir -p "$S"; cp -a /repo "$S/repo"; cd "$S/repo" && git checkout -q -- . && git clean -qfd
d=/verif/seeded/$id
mkdir -p $S/demo && cp -a $d/. $S/demo/ && rm -f $S/demo/patch.diff $S/demo/meta.json
(timeout 300 bash $S/demo/demo.sh >$S/demo0.log 2>&1); r0=$?
git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$S"; exit 1; }
(timeout 300 bash $S/demo/demo.sh >$S/demo1.log 2>&1); r1=$?
if [ -z "$NOTEST" ]; then
sed "s#/repo#$S/repo#g" /opt/vp/test.sh > $S/test.sh
bash $S/test.sh $S/out.json >$S/test.log 2>&1
miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
print(len(set(b['stable'])-set(o['passed'])), sorted(set(b['stable'])-set(o['passed']))[:4])
P
)
fi
echo "$id: clean demo rc=$r0 patched demo rc=$r1 tests missing=$miss"
[ $r0 = 0 ] || tail -5 $S/demo0.log
[ $r1 != 0 ] || tail -5 $S/demo1.log
rm -rf "$S"
