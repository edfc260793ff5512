#!/bin/bash
# tryseed.sh ID [nocheck|notest]: validates one planted bug against /repo (applied, then undone)
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $d/demo.sh >/tmp/w/demo0.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 || { echo "$id: build fails"; tail -5 /tmp/w/build.log; exit 9; }
timeout 300 bash $d/demo.sh >/tmp/w/demo1.log 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/test.log 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/w/t.json'))
s=b if isinstance(b,list) else b.get('passed') or b.get('tests') or b.get('stable');m=set(s)-set(t['passed']);print('ok' if not m else 'MISSING %d %s'%(len(m),sorted(m)[:3]))"); fi
c=-; if [ "$2" != nocheck ]; then s=$(date +%s); timeout 900 python3 /verif/check.py $prop >/tmp/w/chk.log 2>&1; c=$?; e=$(($(date +%s)-s)); fi
echo "$id [$prop]: demo clean=$a patched=$b tests=$t check rc=$c (${e}s)"; grep -E "^VIOL" /tmp/w/chk.log | head -1; grep -B1 "^VIOL" /tmp/w/chk.log | head -1 | cut -c1-250
