#!/bin/bash
# run.sh ID [TIER]: build the simulator against /repo's working tree and run one check.
# run.sh build: only build.  run.sh replay FILE: re-execute a recorded violation.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
log="$(mktemp)"
if ! (cd "$here/sim" && cargo build --release --offline) >"$log" 2>&1; then
  tail -60 "$log" >&2
  rm -f "$log"
  echo "build failed" >&2
  exit 2
fi
rm -f "$log"
bin="$here/sim/target/release/sim"
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
esac
tier="${2:-${VERIF_TIER:-quick}}"
exec "$bin" check "$1" "$tier" "${VERIF_SEED:-1}" "$here"
