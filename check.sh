#!/bin/bash
# check.sh Cxx [options]: explores one property (see check.py)
cd "$(dirname "$0")" || exit 2
exec python3 ./check.py "$@"
