#!/bin/bash
# tools/trybug.sh DIR [notest]: judges a planted bug in a private copy of /repo (bind mounted in a namespace of its own):
# demo on the unchanged tree, build, stable tests, demo with the patch, and the check of its property
DIR=$(realpath "$1"); NAME=$(basename "$DIR"); W=/tmp/bug-$NAME
/bin/rm -rf "/tmp/bug-$NAME"; mkdir -p "$W"; cp -a /repo "$W/repo"; cp -a "$DIR" "$W/demo"
cp -a "$W/repo" "$W/orig"
mkdir -p "$W/verif"; (cd /verif && tar c --exclude=./.git --exclude=./seeded . ) | tar x -C "$W/verif"
git -C "$W/repo" apply "$DIR/patch.diff" || { echo "$NAME: DOES NOT APPLY"; exit 1; }
in_ns() { unshare -Urnm bash -c "ip link set lo up; mount --bind $1 /repo; mount --bind $W/verif /verif; cd /repo; $2"; }
PROP=$(/opt/venv/bin/python -c "import json;print(json.load(open('$DIR/meta.json'))['property'])")
in_ns "$W/orig" "bash $W/demo/demo.sh" > "$W/demo0.log" 2>&1; D0=$?
in_ns "$W/repo" "bash /opt/vp/build.sh" > "$W/build.log" 2>&1; B=$?
in_ns "$W/repo" "bash $W/demo/demo.sh" > "$W/demo1.log" 2>&1; D1=$?
T=skipped
if [ "$2" != notest ]; then
  in_ns "$W/repo" "bash /opt/vp/test.sh $W/t.json" > "$W/test.log" 2>&1
  T=$(/opt/venv/bin/python - "$W/t.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('stable','passed','pass','tests'):
        if k in d:
            v=d[k]
            return set(v) if isinstance(v,list) else {t for t,r in v.items() if r in ('pass','passed',True)}
    raise SystemExit('keys %s' % list(d)[:9])
missing=passed(base)-passed(out)
print('ok' if not missing else 'FAIL %s' % sorted(missing)[:5])
P
)
fi
in_ns "$W/repo" "cd /verif && bash check.sh $PROP" > "$W/check.log" 2>&1; C=$?
V=$(grep -c "^VIOLATION property=$PROP" "$W/check.log")
OK=GOOD; [ $D0 = 0 ] && [ $B = 0 ] && [ $D1 != 0 ] && { [ "$T" = ok ] || [ "$T" = skipped ]; } || OK=BAD
echo "$NAME $PROP: $OK demo0=$D0 build=$B demo1=$D1 tests=$T check=$C violation=$V $(grep -m1 "^$PROP: shard" "$W/check.log" | cut -c1-180)"
[ "$OK" = GOOD ] || for f in demo0 demo1; do tail -n 5 "$W/$f.log" | cut -c1-300; done
[ -n "$KEEP" ] || /bin/rm -rf "/tmp/bug-$NAME"
