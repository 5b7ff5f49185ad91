#!/bin/bash
# Builds the symbolic executor.  (check.py also does this on demand.)
cd "$(dirname "$0")" && exec python3 check.py --setup
