#!/bin/bash
# build.sh OUTDIR [REPO]: build the simulator, the harness and the instrumented
# library from REPO's current headers into OUTDIR.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1; REPO=${2:-/repo}
mkdir -p "$OUT"
J=${VERIF_JOBS:-$(nproc)}
W=""
for s in __cxa_atexit __cxa_thread_atexit malloc free calloc realloc aligned_alloc posix_memalign memcpy memmove memset memcmp memchr strlen strncmp strtol abort exit _exit __assert_fail __cxa_allocate_exception pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort; do W="$W -Wl,--wrap=$s"; done
TF="-std=gnu++11 -O1 -DNDEBUG -fopenmp -fsanitize=thread -fPIC -fno-stack-protector -U_FORTIFY_SOURCE -fno-builtin -fvisibility-inlines-hidden -include $HERE/harness/adapters/pre.hpp -w -I$REPO/include"
HF="-std=gnu++17 -O2 -fno-stack-protector -U_FORTIFY_SOURCE -w"
{
  for f in "$HERE"/harness/adapters/*.cpp; do
    case $f in */f11.cpp|*/f12.cpp) X=-fno-openmp;; *) X=;; esac # (the library built without OpenMP)
    echo "g++ $TF $X -c $f -o $OUT/t_$(basename $f .cpp).o"
  done
  if [ -z "$TARGET_ONLY" ]; then # (mutation campaigns reuse the compiled harness)
  for f in "$HERE"/sim/*.cpp; do echo "g++ $HF -c $f -o $OUT/s_$(basename $f .cpp).o"; done
  for f in "$HERE"/harness/*.cpp; do echo "g++ $HF -c $f -o $OUT/h_$(basename $f .cpp).o"; done
  fi
} > "$OUT/cmds"
xargs -P "$J" -I{} sh -c '{} 2>"$0/err.$$" || { cat "$0/err.$$" >&2; rm -f "$0/err.$$"; echo "BUILD-FAILED: {}" >&2; exit 255; }; rm -f "$0/err.$$"' "$OUT" < "$OUT/cmds"
# the target library is complete without libtsan and libgomp: the simulator provides both
g++ -shared -fPIC -o "$OUT/libtarget.so" "$OUT"/t_*.o $W -Wl,-Bsymbolic -Wl,-z,now -nostdlib -lstdc++ -lm -lc -lgcc_s
g++ -no-pie -rdynamic -o "$OUT/pigosim" "$OUT"/s_*.o "$OUT"/h_*.o -L"$OUT" -ltarget -Wl,-rpath,'$ORIGIN' -Wl,--no-as-needed -ldl -lm
