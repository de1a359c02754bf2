export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$VERIF_DIR/build/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
mkdir -p "$VERIF_DIR/build" "$VERIF_DIR/evidence"
