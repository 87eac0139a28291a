#!/bin/bash
# builds a scratch copy of the crate with an extra test module and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$t"' EXIT
mkdir "$t/r" && cp -a Cargo.toml Cargo.lock src "$t/r/" || exit 9
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$t/target"
unset RUSTFLAGS RUSTC_WRAPPER
mkdir "$t/r/src/vp_demo" && cp "$here/kit.rs" "$t/r/src/vp_demo/kit.rs" && cp "$here/demo.rs" "$t/r/src/vp_demo/mod.rs" || exit 9
echo '#[cfg(test)] mod vp_demo;' >> "$t/r/src/lib.rs"
cd "$t/r" || exit 9
timeout 280 cargo test --offline --lib vp_demo -- --test-threads 4 > "$t/log" 2>&1
rc=$?
grep -E "^(test |error|thread|  .*panicked|assertion)|demo:" "$t/log" | head -20
# the demo itself must have run
grep -q "^test vp_demo::" "$t/log" || { tail -20 "$t/log"; exit 9; }
exit $rc
