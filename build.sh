#!/bin/bash
# Builds the simulator and packetc (from /repo's working tree) into /verif/.build.
# Prints the path of the packetc binary (and, on the line before, of a program that embeds its library, or "-" if the
# library does not build into it). Safe to run from several checks at once.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO=/repo
B="$HERE/.build"
mkdir -p "$B/bin" || exit 2
exec 9>"$B/lock"
flock 9
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$B/target"
SH=$(cat "$HERE/sim/shim.c" "$HERE/sim/simrun.c" "$HERE/sim/proto.h" "$HERE/sim/thr.c" "$HERE/sim/build.sh" | sha256sum | cut -c1-16)
if [ ! -x "$B/simrun" ] || [ ! -f "$B/libsimshim.so" ] || [ ! -f "$B/libthr.so" ] || [ "$(cat "$B/sim.hash" 2>/dev/null)" != "$SH" ]; then
    bash "$HERE/sim/build.sh" >&2 || exit 2
    echo "$SH" > "$B/sim.hash"
fi
# the key is the content of everything a build can read
KEY=$(cd "$REPO" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
BIN="$B/bin/packetc-$KEY"
HKEY=$(cat "$HERE/sim/libhost/Cargo.toml" "$HERE/sim/libhost/src/main.rs" | sha256sum | cut -c1-8)
HOST="$B/bin/libhost-$KEY-$HKEY"
build_host() {
    mkdir -p "$B/libhost/src" && cp "$HERE/sim/libhost/Cargo.toml" "$B/libhost/" && cp "$HERE/sim/libhost/src/main.rs" "$B/libhost/src/" || return 1
    cp "$REPO/Cargo.lock" "$B/libhost/Cargo.lock" && cd "$B/libhost" || return 1
    export CARGO_TARGET_DIR="$B/hosttarget"
    cargo clean -p packetc -p libhost --offline >"$B/host.log" 2>&1
    cargo build --offline >>"$B/host.log" 2>&1 && cp "$B/hosttarget/debug/libhost" "$HOST.$$" && mv "$HOST.$$" "$HOST"
}
HPID=
if [ ! -x "$HOST" ]; then build_host & HPID=$!; fi
if [ ! -x "$BIN" ]; then
    cd "$REPO" || exit 2
    # file times in a copied tree may be older than the last build: never trust them for packetc itself
    cargo clean -p packetc --offline >"$B/build.log" 2>&1
    if ! cargo build --bin packetc --locked --offline >>"$B/build.log" 2>&1; then
        tail -40 "$B/build.log" >&2
        echo "build of /repo failed" >&2
        exit 2
    fi
    ls -t "$B/bin"/packetc-* 2>/dev/null | tail -n +6 | while read -r f; do rm -f -- "$f"; done
    cp "$B/target/debug/packetc" "$BIN.$$" && mv "$BIN.$$" "$BIN" || exit 2
fi
[ -z "$HPID" ] || wait "$HPID" || { tail -20 "$B/host.log" >&2; HOST=-; }
ls -t "$B/bin"/libhost-* 2>/dev/null | tail -n +6 | while read -r f; do rm -f -- "$f"; done
[ "$HOST" = - ] || touch "$HOST"
touch "$BIN"
echo "$HOST"
echo "$BIN"
