#!/bin/bash
# build.sh: compiles /repo's working tree and the simulator; prints the path of sbcsim.
# SBC_ASAN=1: /repo's code is compiled with the address sanitizer.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); R=${SBC_REPO:-/repo}; S=$V/sim; A=""; [ -n "$SBC_ASAN" ] && A="-fsanitize=address"
SRCS=$(cd $R && find source -name '*.c' ! -path '*/nds/*' | LC_ALL=C sort)
HDRS=$(cd $R && find source -name '*.h' | LC_ALL=C sort)
key=$( (cd $R && sha256sum $SRCS $HDRS; cd $S && sha256sum $(ls *.c *.cpp *.h build.sh | LC_ALL=C sort); echo "$A") | sha256sum | cut -c1-20)
B=$V/build/$key
if [ -x $B/sbcsim ] && [ -f $B/ok ]; then echo $B/sbcsim; exit 0; fi
mkdir -p $V/build
exec 9>$V/build/.lock; flock 9
if [ -x $B/sbcsim ] && [ -f $B/ok ]; then echo $B/sbcsim; exit 0; fi
# keep only a few old builds
ls -dt $V/build/*/ 2>/dev/null | grep -v '/h-' | tail -n +6 | while read d; do case "$d" in $V/build/*) rm -rf "$d";; esac; done
mkdir -p $B/o
INC="-I$R/source -I$R/source/graphics/pc -I$R/source/graphics -I$R/source/interpreter -I$R/source/subsystem -I$R/source/extension"
CF="-std=gnu11 -O1 -g -fsanitize=bounds -fsanitize-trap=bounds -DPC -w -fno-pie -fsanitize-coverage=trace-pc -fno-inline-small-functions $A -include $S/seam.h $INC"
{
for f in $SRCS; do
  o=$B/o/$(echo $f | tr / _ | sed 's/\.c$/.o/'); x=""; [ $f = source/main.c ] && x="-Dmain=sbc_main"
  if [ -z "$A" ]; then case $f in */graphics/*) ;; *) x="$x -fsanitize=thread";; esac; fi # a call for every memory write, see core.cpp
  echo "gcc $CF $x -c $R/$f -o $o"
done
echo "gcc -std=gnu11 -O1 -g -DPC -w -fno-pie $INC -c $S/probe.c -o $B/o/probe.o"
for f in $S/*.cpp; do
  n=$(basename $f .cpp); hk=$(cat $f $S/*.h | sha256sum | cut -c1-16); ho=$V/build/h-$n-$hk.o
  [ -f $ho ] || { ls $V/build/h-$n-*.o 2>/dev/null | while read q; do rm -f "$q"; done; echo "g++ -std=gnu++17 -O2 -g -w -fno-pie -I$S -c $f -o $ho.tmp$$ && mv $ho.tmp$$ $ho"; }
done
} > $B/cmds
xargs -P 8 -d '\n' -I{} bash -c '{}' < $B/cmds > $B/log 2>&1 || { cat $B/log >&2; exit 2; }
HO=""; for f in $S/*.cpp; do n=$(basename $f .cpp); hk=$(cat $f $S/*.h | sha256sum | cut -c1-16); HO="$HO $V/build/h-$n-$hk.o"; done
WR=""; for s in thrd_create thrd_join thrd_detach thrd_yield thrd_current thrd_equal thrd_sleep nanosleep usleep sleep mtx_init mtx_destroy mtx_lock mtx_trylock mtx_unlock time gettimeofday clock_gettime timespec_get clock puts putchar fopen fopen64 rename remove unlink fileno fsync opendir readdir closedir rewinddir init_system display_draw_all sbc_malloc sbc_calloc; do WR="$WR -Wl,--wrap=$s"; done
g++ -no-pie -g $A $WR -Wl,-Map=$B/map $B/o/*.o $HO -lm -lpthread -o $B/sbcsim.tmp >> $B/log 2>&1 || { cat $B/log >&2; exit 2; }
python3 - $B <<'PY'
import re,sys
B=sys.argv[1]; t=open(B+'/map').read()
m=re.findall(r'^ \.text[^\n]*\n?\s+0x([0-9a-f]+)\s+0x([0-9a-f]+)\s+\S*runner\.o$',t,re.M) or re.findall(r'^ \.text\s+0x([0-9a-f]+)\s+0x([0-9a-f]+)\s+\S*runner\.o$',t,re.M)
open(B+'/sbcsim.run','w').write('%x %x\n'%(int(m[0][0],16),int(m[0][0],16)+int(m[0][1],16)) if m else '0 0\n')
PY
nm $B/sbcsim.tmp | grep -i ' t ' > $B/sbcsim.syms || true
mv $B/sbcsim.tmp $B/sbcsim; rm -rf $B/o $B/map; touch $B/ok
echo $B/sbcsim
