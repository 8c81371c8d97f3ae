#!/bin/bash
# Parses every module of spec/; prints the ones that do not.
cd "$(dirname "$0")/../spec"
ls *.tla | xargs -P 8 -I{} sh -c 'tla-sany {} 2>&1 | grep -qi "errors:\|could not" && echo "does not parse: {}"'
exit 0
