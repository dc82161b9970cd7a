#!/bin/bash
# development aid: sweep.sh SEED N extra-args...
cd /verif; S=$1; N=$2; shift 2
for p in ${PROFILES:-all choice look seq repeat error label range wrap tokens}; do echo "== $p"; target/debug/cvh parse --seed $S --n $N --profile $p --out work/t.ndjson "$@"; python3 tools/dev.py work/t.ndjson ParseTrace.cfg ParseTrace.tla 2 2>&1 | grep -v "behavior up to\|initial states" | cut -c1-900; done
