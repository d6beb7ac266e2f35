# sourced by setup.sh and check.sh: offline toolchain and shared target folder
export HOME=/root LANG=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export SKIP_WASM_BUILD=1 RUST_LOG=off
VERIF_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_ROOT
export CARGO_TARGET_DIR=$VERIF_ROOT/target
unset RUSTFLAGS
