# which planted bugs the checks of their properties catch (in scratch copies)
for d in /verif/seeded/*/; do
  i=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf /tmp/pl_$i; cp -a /repo /tmp/pl_$i; (cd /tmp/pl_$i && git checkout -q -- . && git apply $d/patch.diff)
  python3 /verif/check.py --property $p --repo /tmp/pl_$i >/tmp/pl_$i.log 2>&1; echo "$i $p rc=$?"
  rm -rf /tmp/pl_$i /tmp/pl_$i.log
done
