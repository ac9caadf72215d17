#!/bin/bash
# builds the MIR exporter and exports the std models; idempotent.  usage: build.sh
set -e
V=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true
B=$V/build
mkdir -p "$B"
SR=$(rustc +nightly --print sysroot)
if [ ! -x "$B/mirdump" ] || [ "$V/driver/main.rs" -nt "$B/mirdump" ]; then
  rustc +nightly --edition 2021 -O "$V/driver/main.rs" -o "$B/mirdump.tmp.$$"
  mv "$B/mirdump.tmp.$$" "$B/mirdump"
fi
if [ ! -s "$B/models.json" ] || [ "$V/models/models.rs" -nt "$B/models.json" ] || [ "$B/mirdump" -nt "$B/models.json" ]; then
  VERIF_MIR_OUT="$B/models.json.tmp.$$" LD_LIBRARY_PATH=$SR/lib "$B/mirdump" "$SR/bin/rustc" \
     --crate-type lib --crate-name models --edition 2021 --emit=metadata --out-dir "$B" "$V/models/models.rs"
  mv "$B/models.json.tmp.$$" "$B/models.json"
fi
