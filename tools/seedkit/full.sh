# Builds the whole allocator from $PWD (the repository) with demo.cc and runs it.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/gen" "$tmp/o"
(cd "$repo" && protoc --cpp_out="$tmp/gen" tcmalloc/internal/profile.proto)
flags="-std=c++17 -O1 -fsized-deallocation -DSpinLock=VerifSpinLock -DSpinLockHolder=VerifSpinLockHolder -w -fno-strict-aliasing -U_FORTIFY_SOURCE -fno-builtin -DTCMALLOC_INTERNAL_8K_PAGES ${DEMO_FLAGS--DNDEBUG} -I$here/shim -I$repo -I$tmp/gen -I$here"
srcs="$(cd "$repo" && ls tcmalloc/*.cc tcmalloc/internal/*.cc | grep -vE '(_test|_fuzz|_benchmark|_helper)\.cc$|/(mock_|want_|enable_heap)[^/]*$|percpu_rseq_unsupported')"
(for s in $srcs tcmalloc/internal/percpu_rseq_asm.S; do echo "$repo/$s"; done; echo "$here/demo.cc") |
  xargs -P 8 -I{} sh -c 'g++ '"$flags"' -c "{}" -o "'"$tmp"'/o/$(echo "{}" | tr / _).o"'
(cd "$tmp/gen" && g++ $flags -c tcmalloc/internal/profile.pb.cc -o "$tmp/o/pb.o")
libs="$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | grep -vE 'test|mock|benchmark|gtest')"
g++ "$tmp"/o/*.o $libs -lprotobuf -lpthread -ldl -o "$tmp/demo"
set +e
GLIBC_TUNABLES="${DEMO_TUNABLES-glibc.pthread.rseq=0}" timeout 120 "$tmp/demo"
rc=$?
echo "demo exit code $rc"
exit $rc
