#!/bin/bash
# tools/tryseed.sh ID [tier]: confirm a planted bug in a scratch copy and run the property's check on it
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/sw.$$
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp -a /repo $W
cd $W || exit 2
PYTHONDONTWRITEBYTECODE=1 bash $S/demo.sh >/dev/null 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 2; }
PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 timeout 200 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests >/tmp/sw.$$.log 2>&1; t=$?
timeout 300 env PYTHONDONTWRITEBYTECODE=1 bash $S/demo.sh >/tmp/sw.$$.demo 2>&1; b=$?
cd /verif
VERIF_REPO=$W timeout 900 python3 check.py $PROP ${2:-quick} >/tmp/sw.$$.out 2>&1; c=$?
echo "$ID [$PROP]: demo clean=$a tests=$t demo patched=$b check=$c $(grep -h VIOLATION /tmp/sw.$$.out | head -1) $([ $c = 1 ] && grep -h '^violation' /tmp/sw.$$.out | cut -c1-${COLS:-160})"
rm -rf "/tmp/sw.$$" "/tmp/sw.$$.log" "/tmp/sw.$$.demo" "/tmp/sw.$$.out"
