#!/bin/bash
# check.sh <property> [--thorough]
cd "$(dirname "$0")" && exec python3 -B lib/run.py "$@"
