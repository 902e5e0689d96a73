#!/bin/bash
# seed.sh <id>: checks one planted bug: demo passes unchanged, patch builds, stable tests pass, demo fails with it
id=$1; d=/verif/seeded/$id
[ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.o 2>&1); a=$?
git -C /repo apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || { echo "$id BUILD FAILS"; tail -5 /tmp/seed.b; git -C /repo checkout -- .; exit 2; }
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.o2 2>&1); b=$?
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - "$id" $a $b <<'E2'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]
ok=sys.argv[2]=="0" and sys.argv[3]!="0" and not m
print(sys.argv[1],"OK" if ok else "BAD","demo unchanged rc",sys.argv[2],"with bug rc",sys.argv[3],"stable tests failing",m)
E2
if [ -n "$2" ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  timeout 900 python3-vt /verif/checks/run.py $p | tail -4 | cut -c1-220
fi
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
