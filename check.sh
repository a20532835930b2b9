#!/bin/bash
# check.sh PROPERTY [thorough]: analyses /repo's current source
cd "$(dirname "$0")"
[ -x bin/sa ] || ./build.sh || exit 2
deeper=0
if [ "$2" = thorough ] || [ "$VERIF_TIER" = thorough ]; then deeper=2; export VERIF_TIER=thorough; fi
exec bin/sa -prop "$1" -verif "$PWD" -deeper $deeper
