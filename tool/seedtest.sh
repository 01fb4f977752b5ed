#!/bin/bash
# seedtest.sh ID...: applies each planted change to /repo, builds, runs tests (unless NOTEST), demo and the check, then undoes it.
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  r="$id $p:"
  if bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1; then
    if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1; r="$r tests $(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/seed_t.json'));print('ok' if b<=set(t['passed']) else 'BROKEN %s'%sorted(b-set(t['passed']))[:3])")"; fi
    (cd /repo; bash $s/demo.sh >/tmp/seed_d.log 2>&1); r="$r; demo(buggy)=$?"
    if [ -z "$NOCHECK" ]; then (cd /verif; timeout 900 python3 tool/check.py $p >/tmp/seed_c_$id.log 2>&1); r="$r; check=$? $(grep -h '^VIOLATION' /tmp/seed_c_$id.log | sed 's/.*replay=[^ ]*//')"; fi
  else r="$r BUILD FAILS"; fi
  git -C /repo checkout -- .
  if [ -n "$LAST" ]; then :; fi
  echo "$r"
done
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do (cd /repo; bash /verif/seeded/$id/demo.sh >/tmp/seed_d.log 2>&1); echo "$id demo(clean)=$?"; done
