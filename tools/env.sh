# Sourced by the scripts here: offline toolchain settings and our own build folder.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export CARGO_TARGET_DIR=$VERIF_DIR/target
export RUSTC_WRAPPER=$VERIF_DIR/tools/rustc-wrap.sh
export RUSTFLAGS="-Clink-arg=-Wl,--export-dynamic-symbol=getrandom"
