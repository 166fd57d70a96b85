#!/bin/bash
# nothing to build ahead of time: every check compiles from /repo's working tree; verify the tools are there
set -e
clang++-18 --version | head -1
python3-vt -c 'import z3, sympy; print("z3", z3.get_version_string(), "sympy", sympy.__version__)'
