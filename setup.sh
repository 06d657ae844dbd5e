#!/bin/bash
# Nothing to compile: the checks are Python and import kymatio from /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replays
exec /opt/venv/bin/python -c "import numpy, scipy, torch, jax; print('setup ok')"
