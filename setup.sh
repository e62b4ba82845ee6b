#!/bin/bash
# Builds the compiler driver that extracts the type-checked program.
cd "$(dirname "$0")" || exit 2
exec python3 -B analysis/build.py
