#!/bin/bash
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/dvc
cd /verif/dvc && cargo build --release 2>&1 | grep -E "^error|^  *-->|^error\[" -A6 | grep -v warning | head -${1:-40}
