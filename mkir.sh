#!/bin/sh
set -e
cd /verif/harness/$1
[ -f Cargo.lock ] || cp /repo/Cargo.lock .
rm -f /verif/.build/$1/release/deps/ir-*.bc
CARGO_TARGET_DIR=/verif/.build/$1 RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp" cargo +stable rustc --offline --release --bin ir -- -C opt-level=0 -C save-temps -C linker=/verif/fakelink.sh >/tmp/mkir.log 2>&1 || { grep -E "^error|panicked" -A12 /tmp/mkir.log; exit 1; }
LL=$(rustc +stable --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
$LL/opt -strip-debug -passes='globaldce,strip-dead-prototypes' -S /verif/.build/$1/release/deps/ir-*.lto.after-restriction.bc -o /verif/.build/$1.ll
