#!/bin/bash
# build.sh [-v plain|asan|tsan] [-c] ID...   builds harness binaries from /repo's
# working tree into /verif/build (content-addressed objects, no mtimes trusted).
# -c also builds the command-line program. Prints the directory of the binaries.
set -euo pipefail
HERE=$(cd "$(dirname "$0")/.." && pwd)
R=${MINIMC_REPO:-/repo}
VAR=plain; CLI=0
while getopts "v:c" o; do case $o in v) VAR=$OPTARG;; c) CLI=1;; *) exit 2;; esac; done
shift $((OPTIND-1))
CXX=g++
CF="-std=c++17 -g1 -I$R/src -I$HERE/harness -isystem /usr/include/hdf5/serial -pthread -Wno-return-type"
LF="-lxerces-c -lpugixml -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lpthread"
case $VAR in
 plain) CF="$CF -O2";;
 asan) CF="$CF -O1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=undefined,float-cast-overflow -fno-omit-frame-pointer";;
 tsan) CF="$CF -O1 -fsanitize=thread";;
 fuzz) CXX=clang++; CF="$CF -O1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=undefined -DPBT_FUZZ"; LF="$LF -fsanitize=fuzzer";;
 cov) CF="$CF -O0 --coverage";;
esac
OBJ=$HERE/build/obj; mkdir -p "$OBJ"
H=$({ cat "$R"/src/*.hpp; find "$R/src" -mindepth 2 -name '*.hpp' | sort | xargs -r cat; echo "$CF $CXX" | sed "s#$R#REPO#g"; } | sha256sum | cut -c1-16)
HH=$(cat "$HERE"/harness/*.hpp | sha256sum | cut -c1-16)
jobs=$(mktemp); trap 'rm -f "$jobs"' EXIT
key() { sha256sum < "$1" | cut -c1-16; }
libobjs=()
for f in "$R"/src/*.cpp; do
  b=$(basename "$f" .cpp)
  o=$OBJ/$VAR-$b-$H-$(key "$f").o
  if [ "$b" = minimc ]; then [ $CLI = 1 ] || continue; main=$o; else libobjs+=("$o"); fi
  [ -f "$o" ] || printf '%s\0%s\0' "$o" "$f" >> "$jobs"
done
pbt=$OBJ/$VAR-pbt-$H-$HH-$(key "$HERE/harness/pbt.cpp").o
[ -f "$pbt" ] || printf '%s\0%s\0' "$pbt" "$HERE/harness/pbt.cpp" >> "$jobs"
hobjs=()
for id in "$@"; do
  f=$HERE/harness/$id.cpp
  o=$OBJ/$VAR-$id-$H-$HH-$(key "$f").o
  hobjs+=("$o")
  [ -f "$o" ] || printf '%s\0%s\0' "$o" "$f" >> "$jobs"
done
export CXX CF
if [ -s "$jobs" ]; then
  xargs -0 -n 2 -P 8 bash -c '$CXX $CF -c "$1" -o "$0.$$.tmp" && mv "$0.$$.tmp" "$0"' < "$jobs" >&2 || { echo "build failed" >&2; exit 2; }
fi
LK=$(printf '%s\n' "${libobjs[@]}" "$pbt" | sha256sum | cut -c1-16)
BIN=$HERE/build/bin-$VAR-$LK; mkdir -p "$BIN"
i=0
for id in "$@"; do
  k=$(basename "${hobjs[$i]}" .o)
  if [ ! -f "$BIN/$k" ]; then
    $CXX $CF "${hobjs[$i]}" "$pbt" "${libobjs[@]}" $LF -o "$BIN/$k.$$.tmp" >&2 && mv "$BIN/$k.$$.tmp" "$BIN/$k"
  fi
  ln -sfn "$k" "$BIN/$id"
  i=$((i+1))
done
if [ $CLI = 1 ]; then
  k=cli-$(basename "$main" .o)
  [ -f "$BIN/$k" ] || { $CXX $CF "$main" "${libobjs[@]}" $LF -o "$BIN/$k.$$.tmp" >&2; mv "$BIN/$k.$$.tmp" "$BIN/$k"; }
  ln -sfn "$k" "$BIN/runminimc"
fi
# forget objects and binaries unused for long
find "$HERE/build" -maxdepth 1 -name 'bin-*' -mmin +2880 -exec rm -r -- {} + 2>/dev/null || true
echo "$BIN"
