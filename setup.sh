#!/bin/bash
# Prebuild the extension modules of the current tree (every check re-checks the hash).
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m harness.build opt
