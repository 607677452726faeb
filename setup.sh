#!/bin/bash
# nothing to build: the engine is Python; verify that the tools the checks need are there
set -e
command -v clang++ g++ python3-vt >/dev/null
python3-vt -c 'import z3, mpmath, sympy' 
