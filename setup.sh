#!/bin/bash
# Nothing to build: the specification is interpreted by TLC and the drivers by Python.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import numpy, scipy, sklearn, matplotlib'
python3 -c 'import sys; sys.path.insert(0,"lib"); import props, vlib'
