#!/bin/bash
# Builds the harness once from the committed files (each check builds what it needs again).
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-nightly-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
exec cargo build --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/harness/target" --offline --release --lib
