#!/bin/bash
# Builds the simulator against /repo's working tree and runs it: run.sh check C01, run.sh replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PPPSIM_VERIF="$here"
cd "$here/sim" || exit 2
log="$(mktemp)"
if ! cargo build --offline --quiet >"$log" 2>&1; then
    # Should the crate no longer build with its span markers on, do without them.
    if ! cargo build --offline --quiet --no-default-features >"$log" 2>&1; then
        tail -40 "$log" >&2
        rm -f "$log"
        echo "run.sh: the simulator does not build" >&2
        exit 2
    fi
fi
rm -f "$log"
cd "$here" || exit 2
[ $# -eq 0 ] && exit 0
exec "$here/sim/target/debug/pppsim" "$@"
