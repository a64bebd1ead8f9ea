#!/bin/bash
# Runs a check against a scratch clone: tools/dev.sh C01 ...
VERIF_REPO=${VERIF_REPO:-/tmp/w/repo} exec /opt/venv/bin/python run.py "$@" -v
