#!/bin/bash
# Nothing has to be built in advance: every check compiles what it needs from /repo's current tree.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -c 'import numpy, scipy, pybind11' && g++ --version >/dev/null
