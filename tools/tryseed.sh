#!/bin/bash
# dev tool: tryseed.sh ID... : in a scratch copy of /repo, builds the planted change, runs the stable tests and the demo, then the property's check
for id in "$@"; do
  w=/tmp/ts-$id; rm -rf "$w"; cp -a /repo "$w" || exit 3
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  ( cd "$w" && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff ) || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  m=$(mktemp -d); cp -a /verif/seeded/$id/. "$m"
  cat > "$m/in.sh" <<EOS
mount --bind $w /repo && cd /repo && bash /opt/vp/build.sh > $m/build.log 2>&1 || { echo "BUILD FAILS"; tail -5 $m/build.log; exit; }
bash /opt/vp/test.sh $m/o.json > $m/t.log 2>&1; python3 - <<PY
import json
o=json.load(open("$m/o.json")); b=json.load(open("/opt/vp/BASELINE.json"))
s=b.get("stable") or b.get("passed") or b
print("$id: tests", "ok" if set(s)<=set(o["passed"]) else "FAIL", len(o["passed"]))
PY
timeout 300 bash $m/demo.sh > $m/d.log 2>&1; echo "$id: demo with patch exit \$? : \$(tail -1 $m/d.log)"
cd /verif && timeout 900 python3 tools/check.py $p quick > $m/c.log 2>&1; echo "$id: check exit \$? : \$(tail -1 $m/c.log)"; grep -m3 -E "^P[0-9]+\.[0-9]+ " $m/c.log | cut -c1-200
EOS
  ( cd /repo; timeout 300 bash "$m/demo.sh" > $m/d0.log 2>&1; echo "$id: demo clean exit $?" )
  unshare -m bash "$m/in.sh"
  rm -rf "$w" "$m"
done
