#!/bin/bash
# wasm.sh OUTDIR VENDOR [cargo args]: builds the harness for the symbolic executor
out=$1; vend=$2; shift 2
cd "$(dirname "$0")/../harness"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly
exec cargo build --release --lib --target wasm32-unknown-unknown --target-dir "$out" \
  -Zbuild-std=std,panic_abort -Zbuild-std-features= -Zpanic-immediate-abort \
  --config 'profile.release.panic="immediate-abort"' \
  --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$vend\"" "$@"
