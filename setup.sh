#!/bin/bash
# Nothing is built ahead of the checks: they compile /repo's current tree. This only verifies that the installed tools are there.
set -e
cd "$(dirname "$0")"
for t in clang++ cbmc python3; do command -v $t > /dev/null || { echo "missing tool: $t"; exit 1; }; done
python3 -c "import sys; sys.path.insert(0,'tools'); import checks, engine; print('properties:', ' '.join(sorted(checks.CHECKS)))"
mkdir -p evidence
