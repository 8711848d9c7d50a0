#!/bin/bash
# tools/plant.sh ID...: confirms planted bugs in a scratch copy of /repo mounted over /repo in its own mount namespace:
# the patch builds, the stable tests pass, demo.sh exits 0 without it and nonzero with it.
# tools/plant.sh -c ID PROP...: runs the quick checks against the patched tree
V=$(cd "$(dirname "$0")/.." && pwd)
check=
if [ "$1" = -c ]; then check=1; id=$2; shift 2; props=$*; set -- $id; fi
for id in "$@"; do
  d=/tmp/plant-$id-$$; rm -rf /tmp/plant-$id-$$; cp -a /repo $d; git -C $d checkout -q -- . 
  s=/tmp/plantdemo-$id-$$; rm -rf $s; cp -r $V/seeded/$id $s; rm -f $s/*.diff $s/meta.json
  if [ -z "$check" ]; then
  unshare -m bash -c "
    mount --bind $d /repo && cd /repo || exit 9
    bash /opt/vp/build.sh >/tmp/plant-$id.log 2>&1 || { echo '$id: base build fails'; exit 1; }
    timeout 300 bash $s/demo.sh >/tmp/plant-$id.demo0 2>&1 || { echo '$id: BAD demo fails on the unchanged tree'; tail -5 /tmp/plant-$id.demo0; exit 1; }
    git apply $V/seeded/$id/patch.diff || { echo '$id: BAD does not apply'; exit 1; }
    bash /opt/vp/build.sh >/tmp/plant-$id.log 2>&1 || { echo '$id: BAD does not build'; tail -5 /tmp/plant-$id.log; exit 1; }
    timeout 300 bash $s/demo.sh >/tmp/plant-$id.demo1 2>&1 && { echo '$id: BAD demo passes with the patch'; exit 1; }
    bash /opt/vp/test.sh /tmp/plant-$id.json >/tmp/plant-$id.log 2>&1
    python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/plant-$id.json'))['passed'])
m=sorted(b-p)
print('$id: BAD breaks %d stable tests: %s' % (len(m), m[:5]) if m else '$id: ok')
P
  "
  else
    git -C $d apply $V/seeded/$id/patch.diff || exit 1
    for p in $props; do ( cd $V; SLAT_REPO=$d timeout 900 python3 run.py $p --tier quick >/tmp/plant-$id.$p 2>&1; r=$?; echo "$id $p exit $r $(grep -c ^VIOLATION /tmp/plant-$id.$p) violations, $(tail -1 /tmp/plant-$id.$p | cut -c1-60)" ); done
  fi
  rm -rf /tmp/plant-$id-$$ /tmp/plantdemo-$id-$$
done
