#!/bin/bash
# seed.sh ID PROPERTY "needs" "breaks": takes the uncommitted change in /repo as
# the planted bug ID (demo_test.go already in seeded/ID), confirms it and runs the check.
# seed.sh ID: confirms an existing one again.
ID=$1 D=/verif/seeded/$1
mkdir -p $D
trap 'git -C /repo checkout -q -- .' EXIT
if [ -n "$2" ]; then
  git -C /repo diff > $D/patch.diff
  git -C /repo checkout -q -- .
  [ -e $D/demo.sh ] || cp /verif/tools/demo.sh.tmpl $D/demo.sh
  chmod +x $D/demo.sh
  python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
fi
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -s $D/patch.diff ] || { echo EMPTY PATCH; exit 1; }
( cd /repo && bash $D/demo.sh > /tmp/demo0.log 2>&1 ) && echo "$ID demo clean: ok" || { echo "$ID DEMO FAILS ON CLEAN"; tail -30 /tmp/demo0.log; exit 1; }
git -C /repo apply $D/patch.diff || { echo "NO APPLY"; exit 1; }
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { echo "$ID DOES NOT BUILD"; tail /tmp/b.log; exit 1; }
( cd /repo && bash $D/demo.sh > /tmp/demo1.log 2>&1 ) && { echo "$ID DEMO PASSES WITH BUG"; tail /tmp/demo1.log; exit 1; } || { echo "$ID demo bug: fails"; grep -m3 -E 'demo_test.go|panic' /tmp/demo1.log; }
if [ -z "$NOTESTS" ]; then
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def s(d):
    for k in ('stable','passed','pass'):
        if k in d: return set(d[k])
    return None
S,T=s(b),s(t)
print('tests broken:', sorted(S-T)[:5] if S is not None and T is not None else (list(b)[:5],list(t)[:5]))
P
fi
if [ -z "$NOCHECK" ]; then
o=$(VERIF_SEED=1 VERIF_TIER=quick bash /verif/run.sh $PROP 2>&1); rc=$?
echo "$ID check rc=$rc"; echo "$o" | grep -E 'VIOLATION|KNOWN|no answer|not build' | head -5
fi
git -C /repo status --short
