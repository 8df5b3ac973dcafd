#!/bin/bash
# all checks, quick, one after another
cd "$(dirname "$0")/.."
for f in props/c[0-9]*.py; do p=$(basename $f .py); python3-vt run.py ${p^^} ${1:-quick} | tail -4; done
