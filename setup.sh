#!/bin/bash
# Builds the conformance harness once (checks rebuild it incrementally where this output is kept).
cd "$(dirname "$0")" && exec python3 tools/check.py --setup
