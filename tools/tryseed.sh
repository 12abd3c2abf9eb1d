#!/bin/bash
# tryseed.sh ID... : demo on the clean tree, then with the patch applied to /repo: demo, and the property's quick check
for s in "$@"; do
  D=/verif/seeded/$s
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo || exit 1
  bash $D/demo.sh >/tmp/try.out 2>&1; a=$?
  git apply $D/patch.diff || { echo "$s: patch does not apply"; continue; }
  if [ -n "$NEEDBUILD" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
  bash $D/demo.sh >/tmp/try.out2 2>&1; b=$?
  C=/verif/checks/$(echo $P | tr C c).py
  r=-; if [ -f $C ]; then python3 $C > /tmp/try.chk 2>&1; r=$?; fi
  git checkout -q -- .
  if [ -n "$NEEDBUILD" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
  echo "$s $P demo clean=$a patched=$b check=$r $(grep -h '^property' /tmp/try.chk | cut -c1-220)"
done
