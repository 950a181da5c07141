#!/bin/bash
# Builds the symbolic executor against /repo (each check rebuilds it anyway).
cd "$(dirname "$0")" || exit 1
exec python3 check.py --setup
