#!/bin/bash
# trybug.sh ID [CHECK...]: confirms seeded bug ID in an overlay: patch applies, builds, stable tests pass, demo 0 -> nonzero, which checks catch it.
# NOTEST=1 skips the repository tests and the demo
id=$1; shift
checks="$*"
[ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
exec /verif/tools/ns.sh bug.$id bash -c '
id=$1; shift
S=/verif/seeded/$id
R="$id:"
cd /repo
git apply --check $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$NOTEST" ]; then
 mkdir /tmp/demo.$$; cp -r $S /tmp/demo.$$/d; rm -f /tmp/demo.$$/d/*.diff /tmp/demo.$$/d/meta.json
 (cd /repo; timeout 300 bash /tmp/demo.$$/d/demo.sh >/tmp/demo.$$/log0 2>&1); a=$?
 R="$R demo_clean=$a"; [ $a = 0 ] || tail -5 /tmp/demo.$$/log0
 git apply $S/patch.diff
 bash /opt/vp/test.sh /tmp/demo.$$/t.json >/tmp/demo.$$/tlog 2>&1
 R="$R tests=$(python3 - /tmp/demo.$$/t.json <<P
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t=json.load(open(sys.argv[1]))
miss=sorted(b-set(t["passed"])); print("ok" if not miss else "FAIL:%d:%s"%(len(miss),miss[:3]))
P
)"
 (cd /repo; timeout 300 bash /tmp/demo.$$/d/demo.sh >/tmp/demo.$$/log1 2>&1); b=$?
 R="$R demo_bug=$b"; tail -3 /tmp/demo.$$/log1 | cut -c1-300
 rm -rf /tmp/demo.$$
else git apply $S/patch.diff; fi
cd /verif
for c in "$@"; do
 s=$(date +%s); timeout 900 bin/check $c > /tmp/ns.bug.$id/clog 2>&1; r=$?
 grep -a -v "^$c " /tmp/ns.bug.$id/clog | tail -3 | cut -c1-400
 v=$(grep -a -c "^VIOLATION property=$c " /tmp/ns.bug.$id/clog)
 R="$R $c=$r/$v($(( $(date +%s)-s ))s)"
done
echo "RESULT $R"
' t "$id" $checks
