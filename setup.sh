#!/bin/sh
# nothing to build ahead of the checks: every check compiles its contract units from /repo's working tree
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
command -v clang++ >/dev/null && command -v python3-vt >/dev/null
python3-vt -c 'import sys; sys.path.insert(0, "lib"); import llvmir, smt; print("ok")'
