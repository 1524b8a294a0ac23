#!/bin/bash
# builds the extractor and the harnesses (the checks rebuild whatever is out of date)
cd "$(dirname "$0")/.." || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p build evidence
(cd vlift && CARGO_TARGET_DIR="$PWD/../build/vlift" cargo build --offline --release) || exit 1
for h in harness/*/Cargo.toml; do
  (cd "$(dirname "$h")" && CARGO_TARGET_DIR="$PWD/../../build/harness" cargo build --offline --release) || exit 1
done
