#!/bin/bash
# trytests.sh ID... : which of the repository's stable tests fail with the planted bug
for s in "$@"; do
  cd /repo || exit 1
  git apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/trytests.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/trytests.json >/tmp/trytests.log 2>&1
  git checkout -q -- .
  python3 - $s $b <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); got=json.load(open('/tmp/trytests.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return names(x[k])
        return set(x)
    return set(t if isinstance(t,str) else t.get('name') or t.get('id') for t in x)
print(sys.argv[1],'build',sys.argv[2],'failing',sorted(names(base)-names(got)))
P
done
bash /opt/vp/build.sh >/dev/null 2>&1
