#!/bin/bash
# run.sh PROPERTY [quick|thorough]     run.sh --replay FILE
cd "$(dirname "$0")/tools" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3 check.py "$@"
