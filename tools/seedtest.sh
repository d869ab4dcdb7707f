#!/bin/bash
# seedtest.sh [-t] [-c "C01 C02"] ID...   confirm planted bugs in a scratch copy of /repo (bind mounted over
# /repo in a private mount namespace): -t run the stable tests, always run the demo with and without
# the patch, -c run these checks (default: the property of meta.json) with the patch, from a copy of /verif.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
S=/tmp/seedtest.$$
tests=0; checks=
while getopts tc: o; do case $o in t) tests=1;; c) checks="$OPTARG";; *) exit 2;; esac; done
shift $((OPTIND-1))
if [ -z "$SEEDTEST_NS" ]; then
    mkdir -p $S/repo $S/verif $S/seeds
    cp -a /repo/. $S/repo/
    git -C $S/repo checkout -q -- .
    cp -a $V/check.sh $V/mc $S/verif/
    for d in sys known_findings.jsonl; do [ -e $V/$d ] && cp -a $V/$d $S/verif/; done
    mkdir -p $S/verif/evidence $S/verif/replays
    cp -a $V/seeded/. $S/seeds/
    a=(); [ $tests = 1 ] && a+=(-t); [ -n "$checks" ] && a+=(-c "$checks")
    SEEDTEST_NS=$S unshare -m bash "${BASH_SOURCE[0]}" "${a[@]}" "$@"
    rc=$?
    rm -rf "$S"
    exit $rc
fi
S=$SEEDTEST_NS
mount --bind $S/repo /repo && mount --bind $S/verif /verif || exit 2
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build failed"; exit 2; }
for id in "$@"; do
    d=$S/seeds/$id
    git -C /repo checkout -q -- .
    out="$id:"
    (cd /repo && timeout 300 bash $d/demo.sh >$S/demo0.log 2>&1); r0=$?
    out="$out demo-clean=$r0"
    git -C /repo apply $d/patch.diff || { echo "$out patch does not apply"; continue; }
    bash /opt/vp/build.sh >$S/build.log 2>&1 || { echo "$out DOES NOT BUILD"; tail -5 $S/build.log; continue; }
    (cd /repo && timeout 300 bash $d/demo.sh >$S/demo1.log 2>&1); r1=$?
    out="$out demo-patched=$r1"
    [ $r0 != 0 ] && tail -5 $S/demo0.log
    [ $r1 = 0 ] && tail -5 $S/demo1.log
    cs="$checks"; [ -z "$cs" ] && cs=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    for c in $cs; do
        timeout 900 /verif/check.sh $c quick >$S/check.log 2>&1; rc=$?
        out="$out $c=$rc[$(grep -c VIOLATION $S/check.log)]"
        [ $rc != 1 ] && [ $rc != 0 ] && tail -5 $S/check.log
        [ $rc = 1 ] && grep VIOLATION -B2 -A1 $S/check.log | head -3 | cut -c1-400
    done
    if [ $tests = 1 ]; then
        bash /opt/vp/test.sh $S/out.json >$S/test.log 2>&1
        out="$out tests: $(python3 - $S/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); 
try: o=json.load(open(sys.argv[1]))
except Exception as e: print('no result'); sys.exit()
def names(x):
    return set(x) if isinstance(x,list) else set()
st=names(b.get('stable') or b.get('passed') or b.get('stable_passing') or b.get('tests'))
ok=names(o.get('passed'))
m=sorted(st-ok)
print('PASS %d'%len(st) if st and not m else 'FAIL '+','.join(m)[:300])
P
)"
    fi
    echo "$out"
done
git -C /repo checkout -q -- .
