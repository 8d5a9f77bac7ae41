#!/bin/bash
# seedtest.sh ID [tests|notests] [CHECK...]: tries one seeded bug in a private mount namespace (development aid).
# Runs: demo on the unchanged tree, demo with the patch, the stable tests, and the checks (default: the bug's property).
ID=$1; T=${2:-tests}; shift; shift
S=$(mktemp -d /tmp/seed_XXXXXX)
cp -a /repo "$S/repo"; mkdir "$S/verif"; (cd /verif && tar c --exclude=.git --exclude=seeded --exclude=replays . | tar x -C "$S/verif"); mkdir -p "$S/verif/evidence" "$S/verif/replays"
cp -a /verif/seeded/$ID "$S/demo"
PROP=$(/usr/bin/python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
CHECKS=${*:-$PROP}
cat > "$S/run.sh" <<R
mount --bind $S/repo /repo; mount --bind $S/verif /verif
cd /repo
if [ $T = tests ]; then timeout 300 bash $S/demo/demo.sh >$S/d0 2>&1; echo "$ID demo-clean rc=\$?"; fi
git apply $S/demo/patch.diff || { echo "$ID APPLY FAILED"; exit; }
if [ $T = tests ]; then timeout 300 bash $S/demo/demo.sh >$S/d1 2>&1; echo "$ID demo-bug rc=\$? \$(tail -1 $S/d1 | cut -c1-150)"
bash /opt/vp/test.sh $S/o.json >$S/t 2>&1; echo "$ID tests: \$(tail -3 $S/t | tr '\n' ' ' | cut -c1-200)"; fi
cd /verif
for c in $CHECKS; do /usr/bin/time -f %es -o $S/tm timeout 900 ./check \$c quick >$S/c 2>$S/e; echo "$ID check \$c rc=\$? \$(cat $S/tm) \$(grep -c ^VIOLATION $S/c) \$(grep -m1 ^VIOLATION -A2 $S/c | tr '\n' ' ' | cut -c1-300)"; done
R
unshare -Urm bash "$S/run.sh" 2>&1
rm -rf "$S"
