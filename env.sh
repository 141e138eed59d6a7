# Toolchain settings shared by the scripts.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS
