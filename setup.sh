#!/bin/bash
# builds the extractor and the harness ahead of the checks (which build them themselves when missing)
cd "$(dirname "$0")"
(cd extractor && cargo build --offline --release -q 2>&1 | tail -3) &
(cd harness && CARGO_TARGET_DIR="$PWD/target" cargo build --offline -q 2>&1 | grep -E '^error' -A5 | tail -5) &
wait
exit 0
