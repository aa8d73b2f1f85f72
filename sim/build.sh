#!/bin/bash
# build.sh OUTDIR : builds the simulator from /repo's current working tree.
#   OUTDIR/sim        optimised build
#   OUTDIR/sim-asan   with AddressSanitizer
# The stage-1 runtime compiles /repo's standard library into a fresh image, in
# a scratch copy of the sources, so /repo itself is not touched.
set -e
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1
export HOME=/root LC_ALL=C.UTF-8 PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
mkdir -p "$OUT"; OUT=$(cd "$OUT" && pwd)
exec 9>"$OUT/lock"; flock 9
KEY=$( { cd "$REPO"; find lib bin stdlib stdlib_modules binlib bootstrap tools third-party mk -type f \( -name '*.c' -o -name '*.h' -o -name '*.nuj' -o -name '*.mk' \) ! -path '*/.deps/*' -print0 | sort -z | xargs -0 sha256sum; cd "$HERE"; sha256sum ./*.c ./*.h ./*.xz build.sh; } | sha256sum | cut -c1-40)
if [ -f "$OUT/key" ] && [ "$(cat "$OUT/key")" = "$KEY" ] && [ -x "$OUT/sim" ] && [ -x "$OUT/sim-asan" ]; then exit 0; fi
SRC="$OUT/src"
if [ -d "$SRC" ]; then find "$SRC" -delete; fi
mkdir -p "$SRC/tmp"
for d in lib bin stdlib stdlib_modules binlib bootstrap tools third-party; do
	[ -d "$REPO/$d" ] && cp -r "$REPO/$d" "$SRC/$d"
done
find "$SRC" -name '*.o' -delete
cd "$SRC"
WRAPS="strdup strndup lstat malloc calloc realloc free exit abort atexit fopen fileno ioctl tcgetattr tcsetattr stat access unlink remove mkdir rmdir rename chdir getcwd opendir readdir closedir popen pclose getaddrinfo freeaddrinfo socket connect fdopen close clock_gettime time gettimeofday clock lApply lGarbageCollect"
LW=""; for w in $WRAPS; do LW="$LW -Wl,--wrap=$w"; done
INC="-Ithird-party -Ithird-party/fasthash -Ilib -Ibin"
CF="-g -fno-omit-frame-pointer -fno-optimize-sibling-calls -D_GNU_SOURCE -std=gnu99 -U_FORTIFY_SOURCE -w -fno-builtin-malloc -fno-builtin-calloc -fno-builtin-realloc -fno-builtin-free"
# stage 1: the runtime as shipped, with the image from the repository
mkdir -p o1 o2 o3
( for f in lib/*.c bin/*.c bootstrap/image.c; do echo "$f"; done ) | xargs -P 8 -I{} sh -c 'gcc -g -D_GNU_SOURCE -std=c99 -O1 -w -c {} -o o1/$(echo {} | tr / _).o'
gcc -o stage1 o1/*.o -lm -lrt
# Should that fail, the failure is C18's to report; everything else is still
# checked, on a reference image built from a tree where it did not fail.
if [ -f "$OUT/image-fallback" ]; then find "$OUT/image-fallback" -delete; fi
if ! timeout 120 ./stage1 tools/build-image.nuj >stage1.log 2>&1 </dev/null || [ ! -s tmp/init.nuji ]; then
	cat stage1.log >&2; echo "note: no image was built, using the reference image" >&2
	tail -c 2000 stage1.log > "$OUT/image-fallback"; echo "(no image was built)" >> "$OUT/image-fallback"
	xz -dc "$HERE/reference.nuji.xz" > tmp/init.nuji
fi
python3 - <<'P'
d = open('tmp/init.nuji','rb').read()
with open('tmp/image.c','w') as f:
    f.write('unsigned long long int bootstrap_image_len = %d;\n' % len(d))
    f.write('unsigned char bootstrap_image[] __attribute__((aligned(16))) = {' + ','.join(map(str,d)) + '};\n')
P
comp() { # dir flags
	( for f in lib/*.c bin/*.c tmp/image.c "$HERE/sim.c" "$GCCHECK" "$CANON"; do echo "$f"; done ) | \
	xargs -P 8 -I{} sh -c "MAINDEF=; case {} in bin/*) MAINDEF='-Dmain=nujel_main -include stdlib.h';; esac; gcc $CF $2 \$MAINDEF -DNUJEL_SIM $INC -I$HERE -c {} -o $1/\$(basename {} | sed s/image.c/bootimage.c/).o"
}
# The collector oracle names the runtime's internal structures. Should these have
# been renamed, everything else is still checked, through a stub of the oracle.
GCCHECK="$HERE/gccheck.c"
if ! gcc $CF -O1 -DNUJEL_SIM $INC -I"$HERE" -c "$GCCHECK" -o o2/try.o 2>gccheck.log; then
	echo "note: the collector oracle does not fit these sources, running without it" >&2
	GCCHECK="$HERE/gcstub.c"
fi
CANON="$HERE/canon.c"
if ! gcc $CF -O1 -DNUJEL_SIM $INC -I"$HERE" -c "$CANON" -o o2/try.o 2>canon.log; then
	echo "note: the canonical description does not fit these sources, running without it" >&2
	CANON="$HERE/canonstub.c"
fi
find o2 -name try.o -delete
comp o2 "-O2" & P1=$!
comp o3 "-O1 -fsanitize=address -fno-omit-frame-pointer" & P2=$!
wait $P1; wait $P2
gcc -o "$OUT/sim.new" o2/*.o $LW -lm -lrt & P1=$!
gcc -fsanitize=address -o "$OUT/sim-asan.new" o3/*.o $LW -lm -lrt & P2=$!
wait $P1; wait $P2
cp tmp/init.nuji "$OUT/init.nuji"
mv "$OUT/sim.new" "$OUT/sim"; mv "$OUT/sim-asan.new" "$OUT/sim-asan"
echo "$KEY" > "$OUT/key"
