#!/bin/bash
# nothing to build: every check extracts, verifies and compiles what it needs from /repo's current tree
set -e
verus --version >/dev/null
python3 -c 'import json'
mkdir -p /verif/evidence
