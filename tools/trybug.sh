#!/bin/bash
# trybug.sh DIR [--tests] [--checks "C01 C02"] : tries a planted bug in a private
# mount namespace, in which a scratch copy stands for /repo.
if [ -z "$IN_NS" ]; then
    exec env IN_NS=1 unshare -mn bash "$0" "$@"
fi
DIR=$(realpath "$1"); shift
ip link set lo up
W=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'cd /; umount /repo /verif/evidence 2>/dev/null; rm -rf "$W"' EXIT
mkdir "$W/repo" "$W/ev" "$W/demo"
cp -a /repo/. "$W/repo/"
mount --bind "$W/repo" /repo
mount --bind "$W/ev" /verif/evidence
cp "$DIR"/* "$W/demo/"
rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cd /repo || exit 2
PID=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$DIR/meta.json")
TESTS=; CHECKS="$PID"
while [ $# -gt 0 ]; do
    case "$1" in
        --tests) TESTS=1 ;;
        --checks) CHECKS="$2"; shift ;;
    esac
    shift
done
N=$(basename "$DIR")
timeout 300 bash "$W/demo/demo.sh" > "$W/out0" 2>&1; d0=$?
git apply "$DIR/patch.diff" || { echo "$N: does not apply"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" > "$W/out1" 2>&1; d1=$?
bash /opt/vp/build.sh > "$W/build" 2>&1; b=$?
echo "$N [$PID]: demo clean=$d0 patched=$d1 build=$b"
[ $d0 = 0 ] && [ $d1 != 0 ] || { tail -n 5 "$W/out0"; tail -n 5 "$W/out1"; }
for c in $CHECKS; do
    cd /verif
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick bash ./check.sh "$c" quick > "$W/chk" 2>&1
    echo "  check $c exit=$? $(( $(date +%s) - s ))s $(grep -m1 VIOLATION "$W/chk")"
    cd /repo
done
if [ -n "$TESTS" ]; then
    bash /opt/vp/test.sh "$W/t.json" > "$W/tlog" 2>&1
    python3 - "$W/t.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
now=json.load(open(sys.argv[1]))
def passed(x):
    for k in('passed','pass','stable'):
        if k in x: return set(x[k])
    return set(t for t,r in x.get('tests',x).items() if r in('pass','passed',True))
print('  tests: missing from baseline:', sorted(passed(base)-passed(now)))
P
fi
