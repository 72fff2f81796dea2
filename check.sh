#!/bin/bash
# check.sh <ID> <quick|thorough>          run one check
# check.sh <ID> --replay <file>           re-run the failing case recorded in <file>
# exit: 0 held, 1 violation, 2 the machinery could not run (e.g. the crate does not build)
id="$1"; shift
here="$(cd "$(dirname "$0")" && pwd)"
export HV_ROOT="$here"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-nightly-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
bin="$(printf '%s' "$id" | tr 'A-Z' 'a-z')"
tgt="$here/harness/target"
log="$(mktemp)"
feat=""
profile=release
# this one counts instructions
[ "$id" = P24 ] && profile=cost
SECONDS=0
[ "$1" = thorough ] && feat="--features deep"
if ! cargo build --manifest-path "$here/harness/Cargo.toml" --target-dir "$tgt" --offline --profile $profile $feat --bin "$bin" >"$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -60 >&2
    echo "check.sh: $id does not build" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
if [ "$1" = "--replay" ]; then
    exec "$tgt/$profile/$bin" quick --replay "$2"
fi
export HV_BUILD_SECONDS=$SECONDS
exec "$tgt/$profile/$bin" "${1:-quick}"
