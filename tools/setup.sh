#!/bin/bash
# builds the MIR dumper and the dependencies of the analysed crate (offline)
set -e
cd "$(dirname "$0")/.."
(cd analysis/driver && cargo +nightly build --release --offline -q)
python3 analysis/check.py C16 >/dev/null || true
test -x analysis/driver/target/release/mirdump
