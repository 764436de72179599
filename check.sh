#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds /repo's working tree with the
# simulator and searches for violations of one property.
# exit 0: held on everything explored; 1: VIOLATION; anything else: no verdict
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT=$PWD
export VERIF_PROP=$1
if [ -n "$2" ]; then export VERIF_TIER=$2; fi
export VERIF_SEED=${VERIF_SEED:-1}
mkdir -p .build
if ! ./build.sh > .build/build.log 2>&1; then
  cat .build/build.log
  echo "the build failed: no verdict"
  exit 3
fi
VERIFSIM=drive exec ./.build/simbin
