#!/bin/bash
# check.sh PROPERTY [thorough]: decides one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec python3 sa/run.py "$1"
