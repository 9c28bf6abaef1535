#!/bin/bash
# build.sh OUT [extra: debug] -- builds libfirm from /repo's working tree and the simulator into OUT
set -e
mkdir -p "$1"; OUT=$(cd "$1" && pwd); REPO=${REPO:-/repo}; SRC=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C PYTHONDONTWRITEBYTECODE=1
mkdir -p "$OUT"
J=${JOBS:-8}
FL="CC=gcc variant=debug top_builddir=$OUT/fb REVISION=sim QUICKCHECK=true PICFLAG="
MK="make -s -C $REPO CC=gcc variant=debug top_builddir=$OUT/fb REVISION=sim QUICKCHECK=true PICFLAG="
$MK "CFLAGS_debug=${FBFLAGS:--O1 -g1 -fno-omit-frame-pointer}" -j1 gen >"$OUT/gen.log" 2>&1 || { cat "$OUT/gen.log" >&2; exit 1; }
INC="-I$REPO/include -I$OUT/fb/gen/include/libfirm -I$OUT/fb/gen/include"
IINC="$INC -I$OUT/fb/gen -I$OUT/fb/gen/ir/ir -I$REPO/include/libfirm -I$REPO/include/libfirm/adt $(for d in adt ana be common debug ident ir kaps libcore lower lpp obstack opt stat statev tr tv; do echo -I$REPO/ir/$d; done)"
cc_sim() {
	local pids=()
	{ g++ -std=gnu++17 -O1 -g1 -w -fpermissive -fno-omit-frame-pointer -fno-pie -DDEBUG_libfirm $IINC -c "$SRC/p_adt.cc" -o "$OUT/p_adt.o" && objcopy --redefine-sym malloc=sim_malloc --redefine-sym free=sim_free --redefine-sym __assert_fail=sim_assert_fail "$OUT/p_adt.o"; } & pids+=($!) # inline functions of the library: always
	for f in "$SRC"/*.cc; do b=$(basename "$f" .cc); [ $b = p_adt ] && continue
		if [ "$OUT/$b.o" -nt "$f" ] && [ -z "$(find "$SRC" -name '*.h' -newer "$OUT/$b.o")" ]; then continue; fi
		g++ -std=c++17 -O1 -g1 -fno-omit-frame-pointer -fno-pie $INC -c "$f" -o "$OUT/$b.o" & pids+=($!)
	done
	gcc -O1 -fno-pie -std=c99 -D_GNU_SOURCE -DDEBUG_libfirm $IINC -c "$SRC/shim.c" -o "$OUT/shim.o" & pids+=($!)
	{ gcc -O1 -fno-pie -c "$REPO/support/libfirmprof/instrument.c" -o "$OUT/instrument.o" && objcopy --redefine-sym fopen=sim_fopen --redefine-sym malloc=sim_malloc --redefine-sym free=sim_free --redefine-sym atexit=sim_atexit --redefine-sym __init_firmprof=prof_init_firmprof "$OUT/instrument.o"; } & pids+=($!)
	gcc -m64 -O1 -ffreestanding -fno-pic -fno-pie -fno-stack-protector -fno-builtin -fcf-protection=none -c "$SRC/nrt.c" -o "$OUT/nrt64.o" & pids+=($!)
	gcc -m32 -DSOFTFLOAT -O1 -ffreestanding -fno-pic -fno-pie -fno-stack-protector -fno-builtin -fcf-protection=none -msse2 -mfpmath=sse -c "$SRC/nrt.c" -o "$OUT/nrt32s.o" & pids+=($!)
	gcc -m32 -O1 -ffreestanding -fno-pic -fno-pie -fno-stack-protector -fno-builtin -fcf-protection=none -msse2 -mfpmath=sse -c "$SRC/nrt.c" -o "$OUT/nrt32.o" & pids+=($!)
	for p in "${pids[@]}"; do wait $p || return 1; done
}
cc_sim & CS=$!
$MK "CFLAGS_debug=${FBFLAGS:--O1 -g1 -fno-omit-frame-pointer}" -j$J "$OUT/fb/debug/libfirm.a" >"$OUT/fb.log" 2>&1 || { cat "$OUT/fb.log" >&2; wait $CS; exit 1; }
wait $CS || exit 1
R=
for s in malloc free realloc calloc fopen qsort rand srand gettimeofday time getenv getpid sched_get_priority_max sched_getaffinity sched_setaffinity sched_getparam sched_setparam sched_getscheduler sched_setscheduler exit abort; do R="$R --redefine-sym $s=sim_$s"; done
R="$R --redefine-sym __assert_fail=sim_assert_fail"
objcopy $R "$OUT/fb/debug/libfirm.a" "$OUT/libfirm-sim.a"
OBJS=$(for f in "$SRC"/*.cc; do echo "$OUT/$(basename "$f" .cc).o"; done)
g++ -static -no-pie -o "$OUT/sim.tmp" $OBJS "$OUT/shim.o" "$OUT/instrument.o" "$OUT/libfirm-sim.a" -lm
mv "$OUT/sim.tmp" "$OUT/sim"
