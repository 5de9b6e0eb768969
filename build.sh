#!/bin/bash
# Build the simulator from /repo's current working tree, hooks on. Writes only under /verif/target.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/target" RUSTFLAGS="--cfg ellecs_sim"
unset CARGO_INCREMENTAL CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
cd "$here/sim" && cargo build --offline --quiet "$@"
