#!/bin/bash
# builds the run-time monitor once (checks rebuild it from /repo's current tree, incrementally)
cd "$(dirname "$0")/.." && python3 - <<'P'
import sys
sys.path.insert(0, 'tools')
import run_check
b, f, n = run_check.build_monitor()
print(b, f, n)
sys.exit(0 if b else 1)
P
