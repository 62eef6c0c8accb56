#!/bin/bash
# Nothing is kept between runs: each check builds what it needs. This only shows that the harness builds offline.
cd "$(dirname "$0")" && mkdir -p evidence out && cd harness && CARGO_TARGET_DIR=$PWD/target RUSTFLAGS="-A warnings" cargo +stable build --offline
