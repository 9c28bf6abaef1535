#!/bin/bash
# check.sh ID [--thorough] [--replay FILE] [sim options] -- rebuild from /repo's working tree, decide property ID
cd "$(dirname "$0")" || exit 2
V=$PWD; ID=$1; shift
T=; [ "$VERIF_TIER" = thorough ] && T=--thorough
mkdir -p "$V/build"
exec 9>"$V/build/lock"; flock 9
# judge by content, not by time stamps: any change of a source file makes a clean build
H=$( (cd /repo && find . -path ./build -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha1sum; cd "$V/sim" && sha1sum *) | sha1sum)
[ "$(cat "$V/build/stamp" 2>/dev/null)" = "$H" ] || rm -rf -- "$V/build/b" "$V/build/stamp"
if ! "$V/sim/build.sh" "$V/build/b" >"$V/build/build.log" 2>&1; then echo "check.sh: build failed" >&2; tail -30 "$V/build/build.log" >&2; exit 2; fi
echo "$H" >"$V/build/stamp"
cp "$V/build/b/sim" "$V/build/b/sim.$$" && flock -u 9; exec 9>&-
"$V/build/b/sim.$$" "$ID" --seed "${VERIF_SEED:-1}" --verif "$V" $T "$@"; rc=$?
rm -f "$V/build/b/sim.$$"
exit $rc
