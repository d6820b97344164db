#!/bin/bash
# usage: all.sh PID... : run batteries and print a summary (development helper)
cd "$(dirname "$0")"
for p in "$@"; do /opt/venv/bin/python run.py $p --seed ${SEED:-1} --tier ${TIER:-quick} >/tmp/bat.out 2>/tmp/bat.err || { tail -n 12 /tmp/bat.err; continue; }
python3 -c "
import json,sys; d=json.load(open('/tmp/bat.out')); print(d['property'],d['evaluations'],d['distinct'],d['wall_s'])
for v in d['violations']: print('   ',v)"; done
