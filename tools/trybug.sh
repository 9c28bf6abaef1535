#!/bin/bash
# trybug.sh ID [FILE OLD NEW]: (make and) try a planted bug in a scratch copy of /repo: build, tests, demo, this property's check
id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/trybug.XXXXXX); trap 'rm -rf -- "$w"' EXIT
cp -a /repo "$w/r"; cd "$w/r" || exit 1
if [ -n "$2" ]; then
python3 - "$2" "$3" "$4" <<'P' || exit 1
import sys
f,o,n=sys.argv[1:4]
s=open(f).read()
assert s.count(o)==1,(f,s.count(o))
open(f,'w').write(s.replace(o,n))
P
git diff > "$d/patch.diff"
else git apply "$d/patch.diff" || exit 1; fi
mk() { make CC=gcc variant=debug "$@"; }
find include ir scripts -newer "$d/patch.diff" -name '*.c' -exec touch {} +; git diff --name-only | xargs touch
mk -j1 gen >"$w/log" 2>&1 && mk -j8 firm >>"$w/log" 2>&1 || { echo "$id: BUILD FAILED"; tail -5 "$w/log"; exit 1; }
n=0; tot=0; for t in unittests/*.c; do t=$(basename $t .c); mk build/debug/$t.exe >>"$w/log" 2>&1; tot=$((tot+1)); timeout 60 build/debug/$t.exe >/dev/null 2>&1 && n=$((n+1)) || echo "  test $t fails"; done
timeout 300 bash "$d/demo.sh" >"$w/demo.log" 2>&1; drc=$?
tail -2 "$w/demo.log"
P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
REPO=$w/r /verif/sim/build.sh "$w/b" >"$w/blog" 2>&1 || { echo "$id: SIM BUILD FAILED"; tail -5 "$w/blog"; exit 1; }
mkdir -p "$w/v"; cp /verif/known_findings.txt "$w/v/"; s=$(date +%s)
timeout 900 "$w/b/sim" $P --seed ${SEED:-1} --verif "$w/v" >"$w/c.log" 2>&1; crc=$?
grep -h VIOLATION "$w/c.log" | head -3; grep -h -A3 VIOLATION "$w/c.log" | sed -n 2,4p | cut -c1-200
echo "$id: property $P tests $n/$tot demo rc $drc check rc $crc ($(( $(date +%s)-s )) s)"
