#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" && exec python3 check.py "$@"
