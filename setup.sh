#!/bin/bash
# nothing to build: checks regenerate everything from /repo on each run; verify the tools are there
cd "$(dirname "$0")" || exit 2
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from sx import core, registry
registry.load_all()
print(len(registry.HARNESSES), 'harnesses', core.z3.get_version_string())
" || exit 2
