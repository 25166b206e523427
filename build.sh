#!/bin/bash
# Build the simulator against /repo's current working tree, hooks on: once as
# shipped, once with the assertions development builds turn on.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/sim/target" RUSTFLAGS="--cfg zksql_sim"
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET_DIR
T=$CARGO_TARGET_DIR
mkdir -p "$T/bin"
exec 9>"$T/.verif-lock"
flock 9
# never trust timestamps: the tree under test may have been swapped in place
for d in "$T"/release/.fingerprint/zk_sql-*; do
    [ -d "$d" ] && rm -rf "$d"
done
one() {
    local name=$1
    shift
    (cd "$here/sim" && cargo build --offline --release "$@" >"$T/build-$name.log" 2>&1) || {
        grep -E '^error' -A12 "$T/build-$name.log" | head -80 >&2
        tail -3 "$T/build-$name.log" >&2
        return 1
    }
    rm -f "$T/bin/$name"
    cp "$T/release/zksql-sim" "$T/bin/$name"
}
one zksql-sim || exit 1
[ "${1:-all}" = release ] || one zksql-sim-checked \
    --config profile.release.package.zk_sql.debug-assertions=true \
    --config profile.release.package.zk_sql.overflow-checks=true
