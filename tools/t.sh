#!/bin/bash
# t.sh EXE SCENARIO [SHARD]: run one scenario, and show the failing execution.
cd "$(dirname "$0")/.."
timeout 40 ./build/bin/$1 --scenario $2 --shard ${3:-0/1} --out /tmp/t.out.json $4 > /tmp/t.out 2>&1
python3 - <<'P'
import json
try:
    d=json.load(open('/tmp/t.out.json')); print(d.get('message')); print(str(d.get('trace',d.get('sample','')))[-1500:]); p=d.get('path')
    print(p)
except Exception as e: print(e)
P
python3 -c "
import json;print(' '.join(str(x) for x in json.load(open('/tmp/t.out.json'))['path']))" > /tmp/t.path && timeout 20 ./build/bin/$1 --scenario $2 --replay "$(cat /tmp/t.path)" 2>&1 | tail -${T:-30}
