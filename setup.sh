#!/bin/bash
# Builds what the checks share; each check rebuilds what it needs by itself.
set -e
cd "$(dirname "$0")"
mkdir -p work evidence
python3 - <<'PY'
import sys; sys.dont_write_bytecode = True
sys.path.insert(0, "lib")
import common
common.java_classes()
PY
cd harness/base
RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../../target cargo build --offline
echo setup done
