#!/bin/bash
# usage: ex.sh [verus args]
mkdir -p /verif/build/dev
/verif/target/release/extract /repo/src /verif/contracts /verif/contracts/prelude.rs /verif/build/dev/k.rs /verif/build/dev/k.json ${STUB:+--stub $STUB} || exit 1
cd /verif/build/dev && verus k.rs --smt-option smt.case_split=0 --multiple-errors 20 "$@" 2>&1
