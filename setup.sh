#!/bin/bash
# nothing to build: the checks read /repo's sources directly
here="$(cd "$(dirname "$0")" && pwd)"
/opt/venv/bin/python -c "import sys; sys.path[:0]=['$here','/repo']; import pyvc.check, pyvc.loader, numpy, jax"
