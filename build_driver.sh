#!/bin/bash
# Builds into /verif/build, which git ignores: the MIR exporter (a rustc_private driver), and, when asked for or set up, serde for the same compiler.
set -e
cd "$(dirname "$0")"
mkdir -p build
exec 9>build/.lock
flock 9
if ! { [ -x build/yamd-mir ] && [ build/yamd-mir -nt driver/src/main.rs ] && [ build/yamd-mir -nt driver/src/json.rs ]; }; then
  D="$(mktemp -d build/tmp.XXXXXX)"
  rustc +nightly --edition 2024 -O driver/src/main.rs -o "$D/yamd-mir"
  mv "$D/yamd-mir" build/yamd-mir
  rm -r "$PWD/$D"
fi
if [ "$1" = serde ]; then
  (cd driver/serde && cargo +nightly build --offline --locked --message-format=json --target-dir ../../build/serde 2>/dev/null) > build/serde.json.$$
  mv build/serde.json.$$ build/serde.json
fi
