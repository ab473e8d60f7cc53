#!/bin/bash
# Build the simulator against /repo's current working tree, once with and once without debug
# assertions, and once with every memory access intercepted (build.sh PROPERTY: if the property
# needs that). Output in /verif/.build (ignored by git).
cd "$(dirname "$0")"
export PATH="$PATH:/root/.cargo/bin"
export CARGO_TARGET_DIR="$PWD/.build/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER
# every atomic access becomes a call into sim/rt/atomics.c
export RUSTFLAGS="-C passes=function(tsan) -C llvm-args=-tsan-instrument-func-entry-exit=0 -A warnings"
atomics_only=" -C llvm-args=-tsan-instrument-memory-accesses=0 -C llvm-args=-tsan-instrument-memintrinsics=0"
host="$(rustc -vV | sed -n 's/^host: //p')" # naming the target keeps the flags off the build script
mkdir -p .build/traced
ln -sfn "$host" .build/traced/host
make_one() {
  cargo build --profile "$2" --offline --manifest-path sim/Cargo.toml >".build/build-$1.log" 2>&1
}
make_traced() {
  case "$1" in C0[2-9] | C1*) ;; *) make_one traced plain ;; esac
}
# and once with plain accesses intercepted too: reader threads only. The pass leaves plain accesses
# alone in functions without the attribute, so they are all given it first
RUSTFLAGS="${RUSTFLAGS/function(tsan)/forceattrs,function(tsan)} -C llvm-args=-force-attribute=sanitize_thread" \
CARGO_TARGET_DIR="$PWD/.build/traced" CARGO_BUILD_TARGET="$host" make_traced "$1" & third=$!
RUSTFLAGS+="$atomics_only"
make_one plain plain & other=$!
make_one release release; a=$?
wait $other; b=$?
wait $third; c=$?
if [ $a -ne 0 ] || [ $b -ne 0 ] || [ $c -ne 0 ]; then
  cat .build/build-*.log >&2
  echo "build failed" >&2
  exit 2
fi
