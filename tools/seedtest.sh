#!/bin/bash
# seedtest.sh ID [full]: confirms a planted bug in a scratch copy (bind-mounted over /repo in a namespace of its own)
# and runs its check against it. "full" also runs the whole stable test list.
id=$1; d=/verif/seeded/$id; w=/tmp/seedw.$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash $d/demo.sh >/tmp/seed.$id.out 2>&1 || { echo "$id: demo FAILS on the unchanged tree: $(tail -1 /tmp/seed.$id.out)"; exit 1; }
rm -rf /tmp/seedw.$id; cp -a /repo $w; rm -rf /tmp/seedv.$id; mkdir /tmp/seedv.$id; cp -a /verif/. /tmp/seedv.$id/ 
git -C $w apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
unshare -Urm bash -c "mount --bind $w /repo; mount --bind /tmp/seedv.$id /verif; cd /repo
bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || { echo '$id: build fails'; exit 1; }
bash $d/demo.sh >/tmp/seed.$id.out 2>&1 && echo '$id: DEMO PASSES with the patch'
if [ '$2' = full ]; then bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.log 2>&1; fi
cd /verif; timeout 900 python3 run.py $p >/tmp/seed.$id.chk 2>&1; echo \"$id: check $p exit \$? \$(grep -c ^VIOLATION /tmp/seed.$id.chk) \$(tail -1 /tmp/seed.$id.chk | cut -c1-150)\""
[ "$2" = full ] && python3 - $id <<'P'
import json,sys
i=sys.argv[1]; t=json.load(open(f'/tmp/seed.{i}.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(t['passed']); m=[x for x in b if x not in p]
print(i,"stable tests failing:",m[:5] or "none")
P
cp -n /tmp/seedv.$id/build/bc/* /verif/build/bc/ 2>/dev/null; rm -rf /tmp/seedw.$id /tmp/seedv.$id; true
