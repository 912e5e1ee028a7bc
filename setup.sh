#!/bin/bash
# Nothing to build: the checks run the committed Python files against /repo.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys; sys.path.insert(0, ".")
from sim import registry
print(len(registry.CHECKS), "checks")
P
/opt/veriftools/pyvenv/bin/python3 -c "import mypy" 2>/dev/null || true
rm -rf "$PWD/sim/__pycache__"
mkdir -p evidence replays
