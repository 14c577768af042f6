#!/bin/bash
# dev.sh [--nopq] -- verus args
cd /verif
P=""; [ "$1" = --nopq ] && { P=--nopq; shift; }
python3 verus/gen.py build/contracts $P || exit 1
extractor/target/release/extractor /repo/src build/contracts/*.vc -- build/o.rs build/i.json || exit 1
cd build && time verus o.rs --triggers-mode silent --num-threads 8 "$@" 2>&1
