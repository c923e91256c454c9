#!/bin/bash
# run.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 1
exec /usr/bin/python3 -B bin/check.py "$@"
