#!/bin/bash
# check.sh <property>: builds the verifier if needed, then verifies the contracts of one property against /repo.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
if [ ! -x .build/gv ] || [ -n "$(find gv -newer .build/gv -name '*.go' -print -quit)" ]; then
  bash gv/build.sh || exit 2
fi
. /opt/vp/env.sh
exec .build/gv -property "$1" "${@:2}"
