#!/bin/bash
# check.sh <property> [options]: see check.py
exec python3 "$(dirname "$0")/check.py" "$@"
