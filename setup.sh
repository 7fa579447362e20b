#!/bin/bash
# Nothing to build: the engine is Python (python3-vt) and compiles /repo's
# sources itself on every check.  Only verify that the tools are there.
set -e
clang --version > /dev/null
python3-vt -c 'import z3' 
mkdir -p /verif/evidence
