# sourced: build environment shared by every command
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg zok_verif" CARGO_TARGET_DIR=/verif/target
