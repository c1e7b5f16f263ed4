#!/bin/bash
# tools/seed.sh ID... : confirm planted bugs in a scratch copy of /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$here/seeded/$id
  s=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$s/repo"
  mkdir "$s/demo"; cp "$d"/* "$s/demo/"; rm -f "$s"/demo/*.diff "$s"/demo/meta.json
  cd "$s/repo"
  PYTHONDONTWRITEBYTECODE=1 bash "$s/demo/demo.sh" >"$s/o0" 2>&1; a=$?
  if ! git apply "$d/patch.diff"; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$s"; continue; fi
  PYTHONDONTWRITEBYTECODE=1 bash "$s/demo/demo.sh" >"$s/o1" 2>&1; b=$?
  echo "$id: demo clean=$a patched=$b ($(tail -1 "$s/o1" | cut -c1-150))"
  [ $a = 0 ] || tail -5 "$s/o0"
  cd /; rm -rf "$s"
  if [ -z "$NOTEST" ]; then
    git -C /repo apply "$d/patch.diff"
    bash /opt/vp/test.sh /tmp/seed_o.json >/dev/null 2>&1
    python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('/tmp/seed_o.json'))['passed'])
m=[x for x in b if x not in o];print("   missing stable tests:",m[:4])
P
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    (cd $here && timeout 900 ./check.sh $p 2>&1 | grep -m3 "VIOL\|harness=\|^$p" ; echo "   rc=${PIPESTATUS[0]}")
    git -C /repo checkout -q -- .
  fi
done
