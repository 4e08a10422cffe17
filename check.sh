#!/bin/sh
# check.sh PROPERTY - rebuild the library and the simulator from /repo's working tree, then search.
cd "$(dirname "$0")" || exit 2
root=$(pwd)
export CARGO_TARGET_DIR="$root/target" RUSTC_WRAPPER="$root/sim/rustc_wrapper.sh" CARGO_NET_OFFLINE=true SIM_ROOT="$root"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$root/target" || exit 2
log="$root/target/build-$$.log"
if ! cargo build --offline --release --quiet --manifest-path "$root/sim/Cargo.toml" >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"; echo "harness error: the simulator does not build against /repo" >&2; exit 2
fi
rm -f "$log"
[ $# -eq 0 ] && exit 0
exec "$root/target/release/sim" run "$1"
