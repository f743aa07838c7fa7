#!/bin/bash
# nothing is built ahead of time (each check builds from /repo's working tree); make sure the tools are there
set -e
cd "$(dirname "$0")/.."
for t in clang opt gcc goto-cc goto-instrument cbmc cvc5 python3-vt cmake; do command -v $t >/dev/null || echo "missing: $t"; done
mkdir -p evidence replays
python3-vt -c 'import z3, run.props, dv.contracts.registry' && echo ok
