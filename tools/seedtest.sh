#!/bin/bash
# tools/seedtest.sh <seeded id> [nocheck]: validates one planted bug in a private mount namespace with a
# scratch copy of /repo, and tells whether the check of its property catches it. Never touches /repo itself.
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); sd=$here/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")
W=$(mktemp -d /tmp/seedtest.XXXXXX)
cp -a "${SRC:-/repo}" "$W/repo"; mkdir "$W/demo"; cp -a "$sd"/. "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/*.patch "$W/demo/meta.json"
export W sd prop here
unshare -Urm bash -c '
mount --bind $W/repo /repo || exit 9
git config --global --get-all safe.directory | grep -q . || export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0="*"
cd /repo
bash /opt/vp/build.sh >$W/b.log 2>&1 || { echo "  base build failed"; exit 1; }
timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; a=$?
git apply $sd/patch.diff || { echo "  patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$W/b.log 2>&1 || { echo "  patched build failed"; tail -20 $W/b.log; exit 1; }
t=$(bash /opt/vp/test.sh $W/o.json | tail -1)
timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; b=$?
echo "  demo unchanged=$a patched=$b; tests: $t"
[ $a = 0 ] || cat $W/d0.log
[ $b != 0 ] || cat $W/d1.log
'
if [ "$2" != nocheck ]; then
unshare -Urm bash -c 'mount --bind $W/repo /repo; cd $here; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.py $prop --tier quick >$W/c.log 2>&1; rc=$?; e=$(date +%s); grep -q "^VIOLATION property=$prop " $W/c.log && [ $rc = 1 ] && echo "  CAUGHT by $prop in $((e-s)) s" || { echo "  MISSED by $prop rc=$rc"; tail -5 $W/c.log; }; [ -n "$SHOW" ] && tail -40 $W/c.log'
fi
rm -rf "$W"
