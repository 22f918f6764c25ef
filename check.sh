#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
bash build.sh || exit 2
solvers=$(dirname "$(command -v z3-new || echo /usr/local/bin/z3-new)")
. /opt/vp/env.sh
export PATH="$PATH:$solvers:/usr/local/bin:/opt/veriftools/bin"
exec ./.build/gover check -prop "$prop" -tier "$tier" -verif "$here"
