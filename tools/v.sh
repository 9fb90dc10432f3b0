#!/bin/bash
cd /verif/extract && CARGO_TARGET_DIR=/verif/target cargo build --offline --release 2>&1 | grep -E "^error" -A8
STUB_UNLISTED=${STUB_UNLISTED-1} /tmp/ex.sh --triggers-mode silent "$@" | grep -vE "^(warning|$)" | grep -v "^ *[0-9]*: \|Internal Verus\|stack backtrace\|thread 'rustc'\|omitted\|^             at \|^ *|$" | head -${N:-80}
