#!/bin/bash
cd /verif/extractor && cargo build --offline --release 2>&1 | grep -E "^error" -A5
