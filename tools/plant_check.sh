#!/bin/bash
# Development only: confirms a planted bug in a scratch copy.
#   tools/plant_check.sh ID [checks...]
# Applies seeded/ID/patch.diff to a copy of /repo (bind-mounted over /repo in a
# private mount namespace), rebuilds, runs the stable tests and demo.sh with and
# without it, then the named checks (default: the property in meta.json).
id=$1; shift
D=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
checks=${*:-$prop}
S=${PLANT_DIR:-/tmp/plant}
mkdir -p $S
[ -d $S/build ] || cp -a /opt/nisaba-build $S/build
rsync -a --delete /repo/ $S/repo/ 2>/dev/null || { /usr/bin/rm -rf $S/repo; cp -a /repo $S/repo; }
export S D id checks
unshare -m bash -c '
mount --bind $S/repo /repo; mount --bind $S/build /opt/nisaba-build
cd /repo
bash /opt/vp/build.sh >$S/b0.log 2>&1 || { echo "clean build failed"; exit 1; }
cp -r $D $S/demo_$id
if [ -z "$NODEMO" ]; then (cd /repo && timeout 300 bash $S/demo_$id/demo.sh >$S/d0.log 2>&1); echo "demo clean: $?"; fi
git -C /repo apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >$S/b1.log 2>&1; echo "build: $?"
(cd /repo && timeout 300 bash $S/demo_$id/demo.sh >$S/d1.log 2>&1); echo "demo patched: $?"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $S/t.json >$S/t.log 2>&1
python3 - <<P
import json,os
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open(os.environ["S"]+"/t.json"))
def passed(x):
  x=x.get("tests",x)
  if isinstance(x,dict) and "stable" in x: return set(x["stable"])
  if isinstance(x,dict):
    if "passed" in x: return set(x["passed"])
    return {k for k,v in x.items() if v in ("pass","passed",True)}
  return set(x)
bp=passed(b); tp=passed(t); print("stable tests missing:", len(bp-tp), sorted(bp-tp)[:5], "of", len(bp))
P
fi
for c in $checks; do (cd /verif && timeout 900 /verif/chk $c 2>&1 | tail -4 | cut -c1-600); done
'
/usr/bin/rm -rf $S/demo_$id
