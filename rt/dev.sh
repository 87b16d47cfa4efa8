#!/bin/bash
# dev.sh cNN entry [time] [opts]
cd /verif
id=$1; e=$2; t=${3:-60}; shift 3
if [ -z "$NOBUILD" ]; then python3 vp.py build $id | tail -40 || exit 1; fi
.build/engine/release/symx --split 1 --ll .build/$id.ll --entry $e --out /tmp/o.$e --jobs 8 --time $t --samples 3 "$@" 2>&1 | tail -5
python3 /tmp/sum.py /tmp/o.$e
