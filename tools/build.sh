#!/bin/bash
# Builds the harness against /repo's current working tree, outside /repo.
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_RESOLVER_LOCKFILE_PATH RUSTC_WRAPPER
here=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_TARGET_DIR="$here/target"
# the hook of the header step: hash function recorded and replaceable
export RUSTFLAGS="--cfg verif_hash"
cd "$here/harness" || exit 2

# Timestamps are never trusted. The build is skipped only if the content of everything that goes into it
# (every file of /repo but .git and build output, and the harness) is what the present binary was built from.
digest() {
  { rustc --version; cat "$here/tools/build.sh"
    find /repo -path /repo/.git -prune -o -path /repo/target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
    find "$here/harness" -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum
}
stamp="$here/target/built-from"; bin="$here/target/release/vharness"
now=$(digest)
if [ -x "$bin" ] && [ "$(cat "$stamp" 2>/dev/null)" = "$now $(sha256sum <"$bin")" ]; then echo "up to date"; exit 0; fi
rm -f "$stamp" "$bin"
# otherwise the code under test is always recompiled
cargo clean --release --offline -p validate-btc-header >/dev/null 2>&1
cargo build --release --offline 2>&1 || exit 1
[ "$(digest)" = "$now" ] && echo "$now $(sha256sum <"$bin")" >"$stamp"
exit 0
