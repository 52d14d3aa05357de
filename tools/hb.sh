#!/bin/bash
# build the harness (development helper)
cd /verif/harness && RUSTFLAGS="--cfg jinja_verif" CARGO_TARGET_DIR=/verif/.build/harness cargo build --offline 2>&1 | grep -E '^error|Finished' -A6
