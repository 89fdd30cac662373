#!/bin/bash
# check.sh build            build the simulator against /repo's working tree
# check.sh check ARGS       build, then hbsim check ARGS
# check.sh replay FILE      build, then hbsim replay FILE
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
cd "$here/sim" || exit 3
build() {
    exec 9>"$here/sim/.lock"
    flock 9
    mkdir -p "$CARGO_TARGET_DIR"
    # cargo looks at modification times only; a copied tree may have any
    local now stamp="$CARGO_TARGET_DIR/repo.sha256"
    now="$(cd /repo && { find src -type f; echo build.rs; } | LC_ALL=C sort | xargs sha256sum | sha256sum)"
    if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
        rm -f "$stamp"
        cargo clean --offline --locked -p hyperbee -p hbsim >/dev/null 2>&1
    fi
    if ! cargo build --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1; then
        grep -E "^error" -A12 "$CARGO_TARGET_DIR/build.log" | head -80 >&2
        tail -3 "$CARGO_TARGET_DIR/build.log" >&2
        echo "HARNESS: the simulator does not build against /repo" >&2
        return 3
    fi
    echo "$now" >"$stamp"
    flock -u 9
}
cmd="${1:-build}"
shift
build || exit 3
case "$cmd" in
build) exit 0 ;;
check | replay | show | selftest) exec "$CARGO_TARGET_DIR/debug/hbsim" "$cmd" "$@" ;;
*)
    echo "usage: check.sh build|check|replay|show|selftest" >&2
    exit 2
    ;;
esac
