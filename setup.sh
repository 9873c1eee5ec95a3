#!/bin/bash
# Builds the MIR dumper; the checks build it themselves when this was not run.
set -e
cd "$(dirname "$0")"
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}"
unset RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_TARGET_DIR
mkdir -p build evidence
rustc +nightly --edition 2021 -O driver/driver.rs -o build/mirdump
sha256sum driver/driver.rs | cut -d' ' -f1 > build/mirdump.sha
