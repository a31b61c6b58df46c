#!/bin/bash
# plant.sh ID [seed...] : confirms one planted bug in a scratch copy of /repo that is bound over /repo inside a private
# mount namespace (the real /repo is untouched): demo on the unchanged tree, build, stable tests, demo with the patch,
# and this property's check for every seed (default 1).
set -u
id=$1; shift
seeds=${*:-1}
D=/verif/seeded/$id
W=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$W/repo"
cat > "$W/run.sh" <<IN
set -u
mount --bind "$W/repo" /repo
cd /repo
export HOME=/tmp
git config --global --add safe.directory /repo >/dev/null 2>&1
mkdir "$W/demo"; cp -r $D/. "$W/demo/"; rm -f "$W/demo/"*.diff "$W/demo/meta.json"
if [ "${NOTEST:-}" = "" ]; then
timeout 300 bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1; echo "$id: demo unchanged rc=\$? (want 0)"
fi
git apply $D/patch.diff || { echo "$id: patch does not apply"; exit 3; }
if [ "${NOTEST:-}" = "" ]; then
bash /opt/vp/build.sh >"$W/build.log" 2>&1 || { echo "$id: BUILD FAILED"; tail -5 "$W/build.log"; exit 3; }
bash /opt/vp/test.sh "$W/out.json" >"$W/test.log" 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open("$W/out.json"))
st=set(b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests'))
print("$id: stable tests failing:", sorted(st-set(o['passed'])))
PY
timeout 300 bash "$W/demo/demo.sh" >"$W/demo1.log" 2>&1; echo "$id: demo patched rc=\$? (want nonzero)"; tail -2 "$W/demo1.log"
fi
P=\$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
for s in $seeds; do
  VERIF_SEED=\$s timeout 900 python3 /verif/check.py \${CHECK:-\$P} > "$W/check.log" 2>&1; echo "$id: check \${CHECK:-\$P} seed \$s rc=\$? (want 1) \$(grep VIOLATION "$W/check.log")"
  grep -v VIOLATION "$W/check.log" | tail -3
done
IN
unshare -Urm bash "$W/run.sh"
rm -rf "$W"
