export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=nightly-2026-02-15 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cfg oak_mc -Awarnings" CARGO_TARGET_DIR=/verif/target
unset RUST_BACKTRACE CARGO_INCREMENTAL
