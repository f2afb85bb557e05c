#!/bin/bash
# seedtest.sh ID : validates a planted bug in a scratch copy of /repo (applies, builds, stable tests pass, demo fails with / passes without)
id=$1; s=/verif/seeded/$id
cp /verif/tools/demo.sh.tmpl $s/demo.sh; chmod +x $s/demo.sh
w=$(mktemp -d /tmp/seedw.XXXX); cp -a /repo $w/repo; cd $w/repo || exit 3
. /verif/env.sh
bash $s/demo.sh > $w/d0 2>&1; d0=$?
git apply $s/patch.diff || { echo "$id: NOAPPLY"; rm -rf $w; exit 1; }
go build ./... > $w/b 2>&1; b=$?
go test -json -vet=off -count=1 -timeout 10m ./... > $w/log 2>/dev/null
python3 /opt/vp/results.py $w/out.json gojson:$w/log >/dev/null 2>&1
python3 - $w/out.json <<'P' > $w/t
import json,sys
o=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
ps=set(o.get('passed',o.get('pass',[])))
m=[x for x in b['stable'] if x not in ps]
print("tests-missing",len(m),m[:3])
P
bash $s/demo.sh > $w/d1 2>&1; d1=$?
echo "$id: demo-clean=$d0 build=$b $(cat $w/t) demo-patched=$d1"
[ $d0 != 0 ] && tail -20 $w/d0; [ $d1 = 0 ] && tail -3 $w/d1; [ -n "$V" ] && tail -15 $w/d1
rm -rf $w
