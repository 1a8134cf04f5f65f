#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay <file>]
cd "$(dirname "$0")" && exec python3 -B harness/main.py "$@"
