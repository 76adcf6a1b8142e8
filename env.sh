# Sourced by setup.sh and check.sh (cwd: this directory).
export HOME="${HOME:-/root}" CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= VERIF_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/target"
mkdir -p evidence
# Cargo goes by modification times: make it look at financelib's sources again even if a file came back with an old one.
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/financelib-*
