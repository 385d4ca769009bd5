#!/bin/bash
# Nothing to install: checks that the tools the engine drives are present and work.
set -e
cd "$(dirname "$0")"
clang++-18 --version | head -1
command -v llvm-link-18
/opt/veriftools/pyvenv/bin/python3 -c "import z3, engine.symx; print('z3', z3.get_version_string())"
mkdir -p evidence
