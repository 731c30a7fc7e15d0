#!/bin/bash
# nothing to build ahead of time: each check compiles what it needs from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import numpy, scipy, sys; sys.path.insert(0, '.'); import mc.engine, mc.oracle, mc.instances" && echo setup ok
