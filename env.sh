# Sourced by setup.sh and check.sh: the toolchain the repository itself is built with, offline.
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly
export RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/target"
export VH_ROOT="$here"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG PROPTEST_RNG_SEED PROPTEST_CASES RAYON_NUM_THREADS
export RUSTFLAGS="-Awarnings"
