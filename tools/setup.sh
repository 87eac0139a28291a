#!/bin/bash
# builds the engine once so that the checks only recompile what changed
cd "$(dirname "$0")/.." || exit 2
. ./env.sh
cd engine && cargo build --offline --locked
