#!/bin/bash
# check.sh PROPERTY [quick|thorough] -- build the harness against /repo's working tree and run one check.
# Exit 0: held on everything explored; 1: VIOLATION printed; anything else: the check could not be made.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
export VERIF_DIR=$PWD
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_TARGET_DIR
id=$1
tier=${2:-${VERIF_TIER:-quick}}
build() { # target-dir features...
    local dir=$1
    shift
    mkdir -p "harness/$dir"
    # (cd: harness/.cargo/config.toml sets tokio_unstable, for a seeded select!)
    (cd harness && cargo build --quiet --offline --target-dir "$dir" "$@" >"$dir/build.log" 2>&1)
}
bin=
if [ "$id" = setup ]; then
    build target/hook --features hook
    build target || { cat harness/target/build.log >&2; exit 2; }
    exit 0
fi
if [ "$id" = C19 ]; then
    # The codec itself is reached through the cfg(verif) hook in /repo.
    if build target/hook --features hook; then
        bin=harness/target/hook/debug/vh
    else
        echo "the hooked build failed; deciding C19 at the sockets alone" >&2
    fi
fi
if [ -z "$bin" ]; then
    if ! build target; then
        cat harness/target/build.log >&2
        echo "$id: the harness does not build against /repo" >&2
        exit 2
    fi
    bin=harness/target/debug/vh
fi
exec "$bin" check "$id" "$tier"
