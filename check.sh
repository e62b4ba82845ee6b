#!/bin/bash
# usage: check.sh PROPERTY  -- decides one property of the source in /repo (or $META_REPO_DUMP).
cd "$(dirname "$0")" || exit 2
exec python3 -B analysis/main.py "$@"
