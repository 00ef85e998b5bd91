#!/bin/bash
# Warms the build cache; every check rebuilds what it needs by itself.
cd "$(dirname "$0")" || exit 1
exec python3 ./check.py --warm
