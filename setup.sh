#!/usr/bin/env bash
# Build the simulator, the command line tool and the bindings under test, offline.
set -eu
cd "$(dirname "$0")/sim"
cargo build --offline --features web --bin sim
cargo build --offline --features textfirst --bin sim
cargo build --offline --features cli --bin sim --bin cli-under-test
cargo build --offline --bin sim
cc -O1 -shared -fPIC -o target/debug/libvsim.so shim/vsim.c
cd ../pyhost
cargo build --offline
