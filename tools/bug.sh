#!/bin/bash
# bug.sh ID [MS]: on a private copy of /repo: demo on the clean tree, apply, build, tests, demo, the property's quick check.
if [ -z "$IN_NS" ]; then
  IN_NS=1 exec unshare -Urm bash "$0" "$@"
fi
id="$1"; d=/verif/seeded/$id; w=/tmp/bug.$id; rm -rf "/tmp/bug.$id"; mkdir -p "$w"
trap 'rm -rf "/tmp/bug.'"$id"'"' EXIT
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git clone -q /repo $w/repo && mount --bind $w/repo /repo || exit 2
mkdir $w/rex $w/evx; for v in replays evidence; do mkdir -p ${D:-/verif}/$v; mount --bind $w/${v:0:2}x ${D:-/verif}/$v; done
cp -r "$d" $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
cd /repo
bash $w/demo/demo.sh > $w/clean.log 2>&1; echo "$id demo clean: $?"
[ -n "$V" ] && tail -3 $w/clean.log
git apply "$d/patch.diff" || exit 2
bash /opt/vp/build.sh > $w/build.log 2>&1 || { echo "BUILD FAILED"; tail -5 $w/build.log; exit 1; }
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $w/t.json 2>&1 | tail -1; fi
bash $w/demo/demo.sh > $w/bad.log 2>&1; echo "$id demo patched: $?"; tail -2 $w/bad.log | cut -c1-300
if [ -z "$NOCHECK" ]; then VERIF_SEED=1 VERIF_TIER=quick VERIF_BUDGET_MS=${2:-45000} timeout 600 ${D:-/verif}/check.sh $p quick > $w/check.log 2>&1; echo "$id check $p: $?"; grep -m3 VIOLATION $w/check.log; fi
