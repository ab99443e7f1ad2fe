#!/bin/bash
# check.sh <property id>
cd "$(dirname "$0")" && exec python3 tools/check.py "$1"
