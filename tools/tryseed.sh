#!/bin/bash
# tryseed.sh SEED [CHECK...]: confirms a planted bug in a scratch copy (tests pass, demo distinguishes), then
# applies it to /repo, runs the checks (default: that of its property) and undoes it.
verif="$(cd "$(dirname "$0")/.." && pwd)"
cd /
seed="$verif/seeded/$1"; name="$1"; shift
work=/tmp/tryseed.$$
mkdir -p $work
trap 'rm -rf /tmp/tryseed.'$$'; git -C /repo checkout -q -- .' EXIT
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
if [ -z "$SKIP_CONFIRM" ]; then
cp -a /repo $work/repo
rm -rf $work/repo/target/vp*
sed "s#/repo#$work/repo#g" /opt/vp/test.sh > $work/test.sh
(cd $work/repo && "$seed/demo.sh" > $work/demo0 2>&1) || { echo "$name: DEMO FAILS UNPATCHED"; tail -5 $work/demo0; exit 1; }
git -C $work/repo apply "$seed/patch.diff" || { echo "$name: NO APPLY"; exit 1; }
(ulimit -v 12000000; timeout 120 bash $work/test.sh $work/out.json >/dev/null 2>&1)
python3 - "$work/out.json" "$name" <<'END' || exit 1
import json, sys
base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open(sys.argv[1]))
def passed(o):
    for k in ('passed', 'stable', 'pass', 'tests'):
        if isinstance(o, dict) and k in o:
            v = o[k]
            return set(v) if isinstance(v, list) else {a for a, b in v.items() if b in ('pass', 'passed', True)}
    raise SystemExit('format? %s' % list(o)[:5])
missing = passed(base) - passed(out)
if missing:
    print(sys.argv[2], 'TESTS FAIL', sorted(missing)[:5]); sys.exit(1)
END
(cd $work/repo && "$seed/demo.sh" > $work/demo1 2>&1) && { echo "$name: DEMO PASSES PATCHED"; exit 1; }
grep -q '^error' $work/demo1 && { echo "$name: demo does not build"; head $work/demo1; exit 1; }
echo "$name: confirmed: $(tail -1 $work/demo1)"
fi
checks="$*"
[ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('$seed/meta.json'))['property'])")
git -C /repo apply "$seed/patch.diff" || exit 1
for c in $checks; do
    s=$(date +%s)
    timeout 900 "$verif/run.sh" $c quick > $work/log 2>&1; rc=$?
    echo "$name: $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION $work/log)"
done
