#!/bin/bash
# check.sh ID [quick|thorough]   exit 0 held, 1 violated (VIOLATION line), 3 inconclusive, 2 error
cd "$(dirname "$0")" || exit 2
exec python3 driver/check.py "$@"
