#!/bin/bash
# Builds the simulator and the real libraries from /repo's current working tree.  Output goes to /verif/target only.
# build.sh sim: the simulator in its two builds; build.sh c: the simulator and the C libraries; build.sh r: the simulator
# in its two builds and the Rust interface as a shared library; build.sh all: everything.
set -u
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN CARGO_PROFILE_DEV_DEBUG
V=/verif/target
what=${1:-all}
mkdir -p $V/so || exit 2
tmp=$(mktemp -d /tmp/shogi_sim_build.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
run() { # name, directory, command...
    local name=$1 dir=$2 log; shift 2
    log=$(mktemp "$tmp/log.XXXXXX")
    if ! ( cd "$dir" && "$@" ) >"$log" 2>&1; then
        echo "build of $name failed:" >&2
        grep -E -A12 '^error' "$log" | head -60 >&2
        tail -5 "$log" >&2
        return 2
    fi
}
exec 9>$V/.lock
flock 9
jobs=()
go() { "$@" & jobs+=($!); }
go run "the simulator" /verif/sim cargo +nightly build --release --offline --locked --target-dir $V/sim
if [ "$what" != c ]; then
    go run "the simulator (plain build)" /verif/sim cargo +nightly build --profile plain --no-default-features --offline --locked --target-dir $V/sim_plain
fi
if [ "$what" = r ] || [ "$what" = all ]; then
    shim() {
        run "the Rust interface as a shared library" /verif/shim cargo +stable build --release --offline --locked --target-dir $V/so_shim &&
            cp $V/so_shim/release/libshogi_shim.so $V/so/
    }
    go shim
fi
if [ "$what" = c ] || [ "$what" = all ]; then
    c_std() {
        run "the std C library" /repo/shogi_core_c cargo +stable build --release --offline --locked --target-dir $V/so_std &&
            cp $V/so_std/release/libshogi_core_c.so $V/so/libshogi_core_c_std.so
    }
    # the eh personality is never called in a library that aborts; defining it spares the loader an unresolved symbol
    P=-Clink-arg=-Wl,--defsym=rust_eh_personality=memcpy
    c_nostd() {
        RUSTFLAGS='--cfg shogi_sim' run "the no-std C library" /repo/shogi_core_c cargo +nightly rustc --lib --release --offline --locked \
            --no-default-features --features alloc --target-dir $V/so_nostd -- $P &&
            cp $V/so_nostd/release/libshogi_core_c.so $V/so/libshogi_core_c_nostd.so
    }
    # and the same without `alloc`: no allocator, no `Position`
    c_core() {
        run "the no-std C library without alloc" /repo/shogi_core_c cargo +nightly rustc --lib --release --offline --locked \
            --no-default-features --target-dir $V/so_core -- $P &&
            cp $V/so_core/release/libshogi_core_c.so $V/so/libshogi_core_c_core.so
    }
    go c_std
    go c_nostd
    go c_core
fi
ok=0
for j in "${jobs[@]}"; do wait "$j" || ok=2; done
exit $ok
