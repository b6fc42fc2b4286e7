#!/bin/bash
# debugging aid: run.sh h1,h2 entry [more driver options]
hs=$1; e=$2; shift 2
export RUST_BACKTRACE=0
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
D=/verif/sa/harness; H=$D/api.rs
for h in ${hs//,/ }; do H=$H,$D/$h.rs; done
/verif/sa/target/release/jsa --lib ${LIB-/repo/src/lib.rs} --edition 2021 --features "${FEAT-simd,std}" --harness $H --entry $e "$@" | python3 /verif/sa/pp.py $PP
