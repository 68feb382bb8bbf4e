cd /verif/replay; export RUSTUP_TOOLCHAIN=1.71.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR=/verif/build/target RUSTC_WRAPPER=/verif/mirv/rustc_wrapper.sh CARGO_TERM_COLOR=never
cargo build --offline --bin $1 2>&1 | grep -E "^(error|warning: unused|  *-->)|^error" -A7 | head -${2:-60}
