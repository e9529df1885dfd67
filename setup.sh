#!/bin/bash
# Nothing is compiled; fail early when the interpreter or a dependency is missing.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import sys; assert sys.version_info >= (3, 12); import bson, numcodecs, numpy, pymongo, redis, zarr'
