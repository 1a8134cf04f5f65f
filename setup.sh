#!/bin/bash
# Nothing has to be built: the specifications are interpreted by TLC and the
# drivers import the code from /repo. Only checks that the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>&1 | head -1
PYTHONPATH=/repo /opt/venv/bin/python -B -c "import torch, torchmps"
