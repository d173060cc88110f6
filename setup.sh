#!/bin/bash
# builds both harness binaries (plain and AddressSanitizer)
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
. "$here/tools/build.sh"
build_plain && build_asan
