#!/bin/bash
# Nothing has to be built ahead: the checks compile crasm from /repo's working tree and
# run TLC on spec/. This only makes sure that what they need is there.
cd "$(dirname "$0")/.." || exit 1
for x in java gcc make python3; do command -v $x >/dev/null || { echo "missing: $x"; exit 1; }; done
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "missing: tla2tools.jar"; exit 1; }
mkdir -p evidence
python3 -c 'import sys; sys.path.insert(0, "harness"); import check' || exit 1
echo ready
