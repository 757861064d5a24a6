#!/bin/bash
# Builds the THIR extractor (rustc_private, nightly). Offline, no dependencies.
set -e
cd "$(dirname "$0")"
out="${1:?usage: build.sh OUTFILE}"
export PATH=/root/.cargo/bin:$PATH
mkdir -p "$(dirname "$out")"
rustc +nightly --edition 2021 -O -C debuginfo=0 -Z unstable-options \
  -L "$(rustc +nightly --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/lib" \
  src/main.rs -o "$out.tmp.$$"
mv "$out.tmp.$$" "$out"
