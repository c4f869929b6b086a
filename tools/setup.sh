#!/bin/bash
# nothing to install: check that the tools answer, and that the verifier refutes planted faults
set -e
clang++ --version | head -1
opt --version | head -2 | tail -1
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
mkdir -p /verif/evidence /verif/replays
if [ -f /verif/vc/selftest.py ]; then python3-vt /verif/vc/selftest.py; fi
