#!/bin/bash
# Nothing to build: checks run the Python sources of /repo. Verify the tools are there.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, pydantic
print("z3", z3.get_version_string(), "pydantic", pydantic.VERSION)
P
