# Common environment of the checks. Sourced.
export RUSTUP_TOOLCHAIN=nightly-2024-09-05
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target
# Makes the guarded hook in /repo visible (MANIFEST.json: hooks).
export RUSTFLAGS="--cfg ozverif"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
