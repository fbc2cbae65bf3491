# Compiles demo.cc against the repository's headers in $PWD (plus $DEMO_SRCS) and runs it.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
srcs="tcmalloc/internal/logging.cc tcmalloc/internal/environment.cc tcmalloc/internal/util.cc tcmalloc/internal/allocation_guard.cc tcmalloc/malloc_hook.cc tcmalloc/internal/hook_list.cc $DEMO_SRCS"
libs="$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | grep -vE 'test|mock|benchmark|gtest')"
s=""
for f in $srcs; do s="$s $repo/$f"; done
g++ -std=c++17 -O1 -DSpinLock=VerifSpinLock -DSpinLockHolder=VerifSpinLockHolder -w -fno-strict-aliasing -U_FORTIFY_SOURCE ${DEMO_PAGES--DTCMALLOC_INTERNAL_8K_PAGES} ${DEMO_FLAGS--DNDEBUG} -I"$here/shim" -I"$repo" -I"$here" "$here/demo.cc" $s $libs -lpthread -Wl,--unresolved-symbols=ignore-in-object-files -o "$tmp/demo"
set +e
timeout 120 "$tmp/demo"
rc=$?
echo "demo exit code $rc"
exit $rc
