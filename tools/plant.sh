#!/bin/bash
# plant.sh ID [checks...]: confirms a planted bug in a scratch copy and runs the given checks (default: its property's) on it
id=$1; shift
V=/verif; S=$V/seeded/$id; W=/tmp/pl/$id
mkdir -p $W; [ -d $W/repo ] && (cd $W/repo && git checkout -q -- . ) || cp -a /repo $W/repo
cd $W/repo && git fetch -q /repo && git reset -q --hard FETCH_HEAD
mkdir -p $W/vp; for f in env.sh build.sh test.sh results.py Cargo.lock; do sed "s#/repo#$W/repo#g; s#/opt/vp/env.sh#$W/vp/env.sh#" /opt/vp/$f > $W/vp/$f; done
if [ -z "$SKIP" ]; then
  timeout 300 bash $S/demo.sh > $W/demo0.log 2>&1; echo "demo on clean: $?"
fi
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$SKIP" ]; then
  bash $W/vp/build.sh > $W/build.log 2>&1 || { echo "BUILD FAILS"; tail -20 $W/build.log; exit 1; }
  bash $W/vp/test.sh $W/test.json > $W/test.log 2>&1
  python3 - $W/test.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
st=set(b.get('stable') or b.get('passed') or [])
bad=st-set(t['passed'])
print('stable tests:', len(st), 'broken:', len(bad), sorted(bad)[:5])
P
  timeout 300 bash $S/demo.sh > $W/demo1.log 2>&1; echo "demo on patched: $?"
  tail -4 $W/demo1.log
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for c in ${@:-$P}; do
  VERIF_REPO=$W/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 $V/check.py $c > $W/check_$c.log 2> $W/check_$c.err; rc=$?
  echo "check $c -> $rc: $(grep -h VIOLATION $W/check_$c.log) $(tail -1 $W/check_$c.err | cut -c1-300)"
  python3 - $V/evidence/$c.json <<'P'
import json,sys
e=json.load(open(sys.argv[1]))['coverage']
print('   failed:', [(f['fn'],f['kind'],f['clause'][:80]) for f in e['failed_obligations']][:6], 'degraded:', e['degraded'][:4], {k:(v['verified'],v['errors'],v['attempts'],(v['out_of_reach'] or '')[:300]) for k,v in e['units'].items()})
P
done
[ -n "$KEEP" ] || rm -rf $W
