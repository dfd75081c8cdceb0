# sourced by the scripts
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF/sim/target"
export RUSTC_WRAPPER="$VERIF/sim/rustc-wrapper.sh"
