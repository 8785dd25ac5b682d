# Environment for building the harness: the toolchain that builds /repo, offline.
export HOME=/root LANG=C.UTF-8
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.81.0-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
export SKIP_WASM_BUILD=1
export CARGO_TARGET_DIR=${VERIF_TARGET:-/verif/target}
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
