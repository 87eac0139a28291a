#!/bin/bash
# run.sh <property> <quick|thorough>   |   run.sh replay <file>
# Builds the engine together with /repo's current working tree (only the
# harness of the property asked for is compiled) and runs it.
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ "$1" = replay ]; then p=$(sed -n 's/^property //p' "$2" | head -1); else p=$1; fi
feat=$(echo "$p" | tr 'A-Z' 'a-z')
log=$(mktemp /tmp/zokv-build.XXXXXX)
if ! (cd engine && cargo build --offline --locked --no-default-features --features "$feat" >"$log" 2>&1); then
  tail -40 "$log"; rm -f "$log"; echo "BUILD-FAILED"; exit 2
fi
rm -f "$log"
if [ "$1" = replay ]; then exec "$CARGO_TARGET_DIR/debug/zokv" replay "$2"; fi
exec "$CARGO_TARGET_DIR/debug/zokv" check "$p" "${2:-quick}"
