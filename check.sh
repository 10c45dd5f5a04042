#!/bin/bash
# ./check.sh <property> [--quick|--thorough] [--only GLOB] [--replay FILE]
cd "$(dirname "$0")" || exit 2
exec python3 lib/runner.py "$@"
