#!/bin/bash
# Unpack hypothesis (pure offline) next to the checks; run once, idempotent.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); from vlib import boot; boot.ensure_deps(); import hypothesis; print("hypothesis", hypothesis.__version__)'
