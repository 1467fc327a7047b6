#!/bin/bash
# Builds the simulator against /repo's current working tree (offline; everything goes to /verif/build).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
repo=$(cd "$here/../repo" && pwd)
export RUSTC_WRAPPER="$here/bin/rustc-cov" CARGO_TARGET_DIR="$here/build" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WORKSPACE_WRAPPER
mkdir -p "$here/build"
cd "$here/sim/dsim"

# By content, not by file times: a tree put back in place may carry older times than the last build.
sum=$(cd "$repo" && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$here/build/tree.sum" 2>/dev/null)" != "$sum" ]; then
    rm -f "$here/build/tree.sum"
    for p in release shipped; do
        [ -d "$here/build/$p" ] && cargo clean --profile $p --offline -p rusty_genes -p dsim > /dev/null 2>&1 || true
    done
fi

# Twice: with debug assertions and overflow checks, and as shipped.
both() {
    cargo build --profile shipped --offline --quiet "$@" 2> "$here/build/shipped.log" & other=$!
    local rc=0
    cargo build --profile release --offline --quiet "$@" 2> "$here/build.log" || rc=1
    wait $other || { rc=1; cat "$here/build/shipped.log" >> "$here/build.log"; }
    return $rc
}
if ! both --locked; then
    # a changed dependency list of the crate needs another lock file: resolve in place, then put ours back
    cp Cargo.lock "$here/build/Cargo.lock.ours"
    ok=0
    both || ok=1
    cp "$here/build/Cargo.lock.ours" Cargo.lock
    if [ $ok != 0 ]; then
        cat "$here/build.log" >&2
        echo "the simulator could not be built against $repo" >&2
        exit 3
    fi
fi
echo "$sum" > "$here/build/tree.sum"
