#!/bin/bash
# nothing to build: the engine is Python; verify that the tools are there
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3'
/opt/venv/bin/python -c 'import numpy'
mkdir -p evidence
