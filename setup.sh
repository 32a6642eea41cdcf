#!/bin/bash
# Builds the framework from the committed files (the checks rebuild whatever is missing or changed).
cd "$(dirname "$0")" || exit 2
python3 -c 'import sys; sys.path.insert(0,"lib"); sys.dont_write_bytecode=True; import vp; vp.build_java()' || exit 2
cd harness && ./sync.sh || exit 2
RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true cargo build --offline -p sim 2>&1 | tail -5
rc=${PIPESTATUS[0]}
RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true cargo build --offline -p service-mango-fills -p service-mango-orderbook 2>&1 | tail -3
exit $rc
