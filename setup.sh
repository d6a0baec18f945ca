#!/bin/sh
# Every check builds what it needs from /repo itself; here only the tools are looked at.
set -e
for t in clang++ ninja python3 protoc; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
python3 -m py_compile check.py lib/build.py lib/checks.py
echo ready
