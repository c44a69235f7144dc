#!/bin/bash
# Run a check while developing; prints one line for every kind of failure.
cd "$(dirname "$0")/.."
time python3 check.py "$@" -k > /tmp/k.log 2>&1
grep -v "^  \|^$\|ABORTING\|^\[" /tmp/k.log | awk '{k=$1" "$2" "$5; if(!(k in s)){s[k]=1; print substr($0,1,420)}}' | head -${N:-25}
