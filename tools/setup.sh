#!/bin/bash
# Nothing to install: every check builds what it needs.  Verifies the tools.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
for t in g++ make java javac python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
echo ok
