#!/bin/bash
# build.sh BIN...: builds the check binaries from /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
unset RUSTC_WRAPPER CARGO_BUILD_RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cap-lints allow"
export CARGO_TARGET_DIR="${MC_TARGET:-$here/target}" CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
cd "$here/harness" || exit 2
args=(); feat=()
for b in "$@"; do args+=(--bin "$b"); case "$b" in c25|c26) feat=(--features serde);; esac; done
[ ${#args[@]} -eq 0 ] && args=(--bins)
old=$(cat "$CARGO_TARGET_DIR/release/deps"/libmcstd-*.rlib 2>/dev/null | cksum)
cargo build --offline --release -q -p mcstd || exit 2
new=$(cat "$CARGO_TARGET_DIR/release/deps"/libmcstd-*.rlib 2>/dev/null | cksum)
# the stand-in changed: cargo does not know that the crate under test depends on it
[ "$old" = "$new" ] || cargo clean --offline --release -q -p futures-signals 2>/dev/null
export MCSTD_DEPS="$CARGO_TARGET_DIR/release/deps" RUSTC_WRAPPER="$here/rustc-wrap.sh"
cargo build --offline --release -q "${args[@]}" "${feat[@]}" || exit 2
