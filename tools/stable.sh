#!/bin/bash
# Runs the repository's tests and compares them with the baseline.
bash /opt/vp/test.sh /dev/shm/stable.json >/dev/null 2>&1
/opt/venv/bin/python - <<'P'
import json
o = json.load(open('/dev/shm/stable.json')); b = json.load(open('/opt/vp/BASELINE.json'))
miss = [t for t in b['stable'] if t not in o['passed']]
print('stable tests failing:', miss)
raise SystemExit(1 if miss else 0)
P
