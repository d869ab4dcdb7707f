#!/bin/bash
# check.sh <property> [quick|thorough] [extra args]     decide one property on /repo's working tree
# check.sh build                                        build every check (setup)
# exit 0: held on everything explored; 1: VIOLATION; anything else: the check could not answer
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="${1:?usage: check.sh <property> [quick|thorough]}"
tier="${2:-${VERIF_TIER:-quick}}"
shift; shift || true

export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.71.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE CARGO_INCREMENTAL
for v in $(env | sed -n 's/^\(CARGO_PROFILE_[A-Z0-9_]*\)=.*/\1/p'); do unset "$v"; done

# Artifacts are keyed by the contents of /repo (never by timestamps): what was built from other
# contents is removed before building.
hash="$( { cat /repo/Cargo.toml; find /repo/src -type f | LC_ALL=C sort | while read -r f; do echo "$f"; cat "$f"; done; find /repo -maxdepth 1 -name build.rs -exec cat {} +; } | sha256sum | cut -d' ' -f1)"

build() { # crate, cargo args...
    local crate="$1"; shift
    local td="$V/target/$crate"
    local stamp="$td/.repo-hash"
    mkdir -p "$td"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
        rm -f "$stamp"
        (cd "$V/$crate" && cargo clean --offline --release --target-dir "$td" -p merkletree) >/dev/null 2>&1
    fi
    (cd "$V/$crate" && cargo build --offline --release --target-dir "$td" "$@") >"$td/build.log" 2>&1 || {
        grep -E "^(error|warning: unused)" -A6 "$td/build.log" | head -40
        tail -n 5 "$td/build.log"
        return 1
    }
    echo "$hash" >"$stamp"
}

crate_of() {
    case "$1" in
        C11|C16|C18|C19|C22) echo sys ;;
        *) echo mc ;;
    esac
}

if [ "$id" = build ]; then
    for c in mc sys; do
        [ -d "$V/$c" ] || continue
        build "$c" --bins || exit 2
    done
    exit 0
fi

crate="$(crate_of "$id")"
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
build "$crate" --bin "$bin" || { echo "check $id: build failed"; exit 2; }
exec env VERIF_TIER="$tier" "$V/target/$crate/release/$bin" --verif "$V" --tier "$tier" "$@"
