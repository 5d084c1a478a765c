#!/bin/bash
# trybug.sh ID...: demo without and with the patch, and the check with the patch, on /repo (undone afterwards)
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); b=$?
  (cd /verif && python3 check.py $p >/tmp/check1.log 2>&1); c=$?
  [ -n "$WITH_TESTS" ] && { bash /opt/vp/build.sh >/tmp/bt.log 2>&1 && bash /opt/vp/test.sh /tmp/bt.json >/tmp/bt2.log 2>&1; t=$(python3 /verif/tools/cmptests.py /tmp/bt.json); }
  git -C /repo checkout -- .
  python3 - $id $p $c <<'PY'
import json, sys, os
i, p, c = sys.argv[1:]; f = '/verif/tools/design/caught.json'; d = json.load(open(f)) if os.path.exists(f) else {}
v = json.load(open(f'/verif/evidence/{p}.json'))['coverage']['violation_details']
pr = sorted({x.split('obligation ')[1].split(' of unit')[0] for x in v if x.startswith('obligation ')}); ex = sorted({x.split(': ')[0] for x in v if not x.startswith('obligation ')})
d[i] = 'missed' if c != '1' else '; '.join(([f"proof ({', '.join(pr[:3])})"] if pr else []) + ([f"failing input ({', '.join(ex[:3])})"] if ex else []))
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
PY
  echo "$id ($p): demo clean=$a patched=$b check=$c tests=$t: $(grep -E 'VIOLATION|note:' /tmp/check1.log | head -3 | tr '\n' ' ') $(tail -1 /tmp/demo1.log | cut -c1-150)"
done
