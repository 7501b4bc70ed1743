#!/bin/bash
# trypatch.sh PATCH PROP...: apply to /repo, run the quick checks, undo
p="$(realpath "$1")"; shift
git -C /repo apply "$p" || exit 9
for c in "$@"; do VERIF_TIER=quick python3 "$(dirname "$0")/../check.py" "$c" 2>&1 | tail -${N:-4}; done
git -C /repo checkout -- .
