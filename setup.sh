#!/bin/bash
# Nothing to build: checks that the interpreter, eth_abi from /repo and the monitors import.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "/repo"); sys.path.insert(1, ".")
import eth_abi, hypothesis, mon.monitor
assert sys.version_info >= (3, 12), "sys.monitoring is needed"
print("ok", eth_abi.__file__)
P
