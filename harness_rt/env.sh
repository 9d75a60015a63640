export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PROTOC=/usr/bin/protoc CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=/verif/harness_rt/target RUSTFLAGS="--cap-lints allow"
