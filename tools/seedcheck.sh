#!/bin/bash
# development aid: run the check of each planted bug's property on a copy of the sources with the bug
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*}; do d=seeded/$(basename $d)
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/sc.XXXXXX); cp -a /repo/source $t/; (cd $t && git init -q . && git apply --include='source/*' /verif/$d/patch.diff) || echo "does not apply"
  BINDER_REPO=$t BINDER_UNIT_CACHE=/tmp/unitcache bash run.sh $p quick > $t/log 2>&1; r=$?
  echo "$(basename $d) $p exit $r $(grep -c UNDECIDED $t/log) undecided"; rm -rf "$t"
done
