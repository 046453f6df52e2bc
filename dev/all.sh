#!/bin/bash
# all checks on /repo, in parallel
cd "$(dirname "$0")/.."; ls pfstat/props | sed -n 's/^p\([0-9]*\).py/P\1/p' | xargs -P8 -I{} sh -c 'python3 check.py {} 2>&1 | cut -c1-260' | grep -v "      path"
